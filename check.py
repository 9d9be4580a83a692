#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property
   check.py --replay PROPERTY FILE         judge one recorded or planned case again

Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: broken.
Exit 2: the check itself failed (nothing is claimed)."""
import json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from plans import PLANS, WIDE, LEVELS, ASSUME
SPEC = os.path.join(HERE, 'spec')
WORK = os.path.join(HERE, 'work')
TARGET = os.path.join(WORK, 'target')
HARNESS = os.path.join(TARGET, 'debug', 'harness')
T0 = time.time()


class Broken(Exception):
    """The check could not be carried out."""


class Violation(Exception):
    def __init__(self, what, replay):
        Exception.__init__(self, what)
        self.what, self.replay = what, replay


def say(*a):
    print(*a, flush=True)


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE='true')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(HERE, 'harness'), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise Broken('the harness does not build against /repo:\n' + p.stdout[-4000:])


def keep(prop, name, text):
    d = os.path.join(WORK, 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, re.sub(r'[^A-Za-z0-9_.-]', '_', name)))
    with open(path, 'w') as f:
        f.write(text if text.endswith('\n') else text + '\n')
    return path


def harness(prop, args, scratch, limit=600):
    """Runs the harness; a case that kills or hangs it is a violation."""
    cur = os.path.join(scratch, 'current')
    env = dict(os.environ, VERIF_SCRATCH=scratch)
    try:
        p = subprocess.run([HARNESS] + args + [cur], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise Broken('the harness did not finish in %d s' % limit)
    if p.returncode:
        how = 'a hang' if p.returncode == 86 else 'exit %d' % p.returncode
        if p.returncode == 2 or not os.path.exists(cur):
            raise Broken('harness: %s\n%s' % (how, p.stderr[-2000:]))
        plan = open(cur).read()
        raise Violation('the library ended the process (%s) in case %s: %s' % (how, json.loads(plan)['id'], p.stderr[-300:].strip()),
                        keep(prop, 'crash-' + json.loads(plan)['id'], plan))


def tlc(module, cfg, scratch, env=None, workers=8, limit=1500, extra=()):
    c = os.path.join(scratch, module + '.cfg')
    with open(c, 'w') as f:
        f.write(cfg)
    meta = os.path.join(scratch, 'states')
    shutil.rmtree(meta, ignore_errors=True)
    e = dict(os.environ, JAVA_TOOL_OPTIONS='-Xss64m -Djava.io.tmpdir=%s' % scratch, **(env or {}))
    # a JVM that stays well below the sandbox's memory
    cmd = ['tlc', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', meta, '-config', c] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=scratch, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        raise Broken('TLC did not finish %s in %d s' % (module, limit))
    shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def stats(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found, (\d+) states left', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def trace_cfg(prop, wide):
    cfg = 'SPECIFICATION Spec\nINVARIANT Accepted\nVIEW Progress\nALIAS Alias\nCHECK_DEADLOCK FALSE\nCONSTANT Props = {"%s"}\n' % prop
    if wide:
        cfg += 'CONSTANT\n' + ''.join(' %s <- %s\n' % w for w in WIDE)
    return cfg


def judge(prop, module, trace, wide, scratch, cov):
    """Is every recorded history a behaviour of the specification?"""
    lines = open(trace).read().splitlines()
    if not lines:
        raise Broken('no cases')
    rc, out = tlc(module, trace_cfg(prop, wide), scratch, {'TRACE_FILE': trace})
    gen, dist = stats(out)
    cov['states'] += dist
    cov['transitions'] += max(0, gen - len(lines))
    for tag, why, op, fam in re.findall(r'<<"(NOTE)", "([^"]*)", "([^"]*)", "([^"]*)">>', out):
        key = '%s/%s: %s' % (fam, op, why)
        cov['not_judged'][key] = cov['not_judged'].get(key, 0) + 1
    if rc == 0 and 'No error has been found' in out:
        cov['traces_validated_against_impl'] += len(lines)
        return
    if 'StackOverflowError' in out or 'OutOfMemory' in out:
        raise Broken('TLC ran out of something\n%s' % out[-3000:])
    m = re.findall(r'/\\ case = "([^"]*)"', out)
    if m:
        bad = re.findall(r'/\\ bad = (\{[^}]*\})', out)
        ops = re.findall(r'/\\ op = (\d+)', out)
        why = bad[-1] if bad else '{}'
        if why in ('{}', '{ }'):
            why = 'the specification cannot follow operation %d' % (int(ops[-1]) + 1)
        line = next((l for l in lines if json.loads(l)['id'] == m[-1]), '')
        if rc == 12 or 'Error: ' in out:
            raise Violation('case %s, operation %s: %s' % (m[-1], ops[-1] if ops else '?', why), keep(prop, m[-1], line))
    raise Broken('TLC ended with %d\n%s' % (rc, out[-3000:]))


def sample(trace, n=2):
    ret = []
    with open(trace) as f:
        for k, line in enumerate(f):
            if k % 97 == 5 and len(line) < 6000:
                ret.append(json.loads(line))
                if len(ret) == n:
                    break
    return ret


def count_ops(trace, cov):
    with open(trace) as f:
        for line in f:
            c = json.loads(line)
            for o in c['ops']:
                k = o['op']
                cov['operations'][k] = cov['operations'].get(k, 0) + 1
                if 'panic' in o:
                    cov['panics_seen'] = cov.get('panics_seen', 0) + 1


def run_gen(prop, step, seed, scratch, cov):
    trace = os.path.join(scratch, 'trace.ndjson')
    mode = step.get('mode', 'narrow')
    harness(prop, ['gen', step['fams'], str(seed + step.get('seed', 0)), mode, trace], scratch)
    count_ops(trace, cov)
    judge(prop, step['spec'], trace, mode == 'wide', scratch, cov)
    if len(cov['samples']) < 4:
        cov['samples'] += sample(trace, 1)
    cov['steps'].append('recorded %s (%s) against %s' % (step['fams'], mode, step['spec']))


def run_mc(prop, step, seed, scratch, cov):
    """Checks a model and replays every behaviour it prints into the code."""
    cfg = step['cfg']
    rc, out = tlc(step['model'], cfg, scratch)
    gen, dist = stats(out)
    if rc != 0 or 'No error has been found' not in out:
        raise Broken('the model %s does not satisfy its own properties\n%s' % (step['model'], out[-3000:]))
    cov['states'] += dist
    cov['transitions'] += gen
    cov['model_states'] = cov.get('model_states', 0) + dist
    cov['steps'].append('model %s: %d states, exhaustive' % (step['model'], dist))
    if 'spec' in step:
        # each behaviour once; sessions on the same files (key) share cases
        cases, at, seen = [], {}, set()
        for line in out.splitlines():
            if not line.startswith('"CASE') or line in seen:
                continue
            seen.add(line)
            c = json.loads(json.loads(line)[4:])
            key = json.dumps(c.pop('key')) if 'key' in c else None
            if key is not None and key in at and len(at[key]['ops']) < 40:
                at[key]['ops'] += c['ops']
                continue
            cases.append(c)
            if key is not None:
                at[key] = c
        if not cases:
            raise Broken('%s printed no behaviours' % step['model'])
        del out
        plan = os.path.join(scratch, 'plan.ndjson')
        trace = os.path.join(scratch, 'trace.ndjson')
        with open(plan, 'w') as f:
            for k, c in enumerate(cases):
                c.update(id='%s-%d' % (step['model'], k), fam=step['model'], data=k % 3)
                f.write(json.dumps(c) + '\n')
        mode = step.get('mode', 'narrow')
        harness(prop, ['replay', plan, mode, trace], scratch)
        count_ops(trace, cov)
        judge(prop, step['spec'], trace, mode == 'wide', scratch, cov)
        cov['model_behaviours_replayed'] = cov.get('model_behaviours_replayed', 0) + len(seen)
        cov['steps'].append('%d behaviours of %s replayed into the code' % (len(seen), step['model']))
        if len(cov['samples']) < 4:
            cov['samples'] += sample(trace, 1)


def known(prop, scratch):
    """Replays the known findings; says which still fail."""
    path = os.path.join(HERE, 'known_findings.txt')
    for line in open(path):
        m = re.match(r'finding: property=(\S+) case=(\S+) expect="([^"]*)" (.*)', line)
        if not m or m.group(1) != prop:
            continue
        trace = os.path.join(scratch, 'known.ndjson')
        harness(prop, ['replay', os.path.join(HERE, m.group(2)), 'narrow', trace], scratch)
        last = json.loads(open(trace).readline())['ops'][-1]
        if m.group(3) == 'unshared':
            fails = 'post' in last and all(e['r'][1] == [] for e in last['post']['edges'])
        else:
            fails = m.group(3) in last.get('panic', '')
        if fails:
            say('KNOWN-FINDING: property=%s %s' % (prop, m.group(4).strip()))
        else:
            say('note: the known finding "%s" no longer fails' % m.group(4).strip())


def main():
    a = sys.argv[1:]
    if a == ['--build']:
        os.makedirs(WORK, exist_ok=True)
        build()
        return 0
    if a and a[0] == '--replay':
        prop, path = a[1], a[2]
        build()
        scratch = tempfile.mkdtemp(prefix='replay.', dir=WORK)
        try:
            case = json.loads(open(path).readline())
            text = json.dumps(case)
            wide = bool(re.search(r'\[\[\d+, ?\d+, ?\d+\], ?\[\d+, ?\d+, ?\d+\]\]', text))
            wide = wide or case['ops'][0]['op'] in READ_OPS
            module = 'Trace_Read' if case['ops'] and case['ops'][0]['op'] in READ_OPS else 'Trace_Topo'
            trace = os.path.join(scratch, 'trace.ndjson')
            harness(prop, ['replay', path, 'wide' if wide else 'narrow', trace], scratch)
            judge(prop, module, trace, wide, scratch, new_cov())
            say('accepted')
            return 0
        except Violation as v:
            say('rejected: %s' % v.what)
            return 1
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    os.makedirs(WORK, exist_ok=True)
    cov = new_cov()
    scratch = tempfile.mkdtemp(prefix=prop + '.', dir=WORK)
    violation = None
    try:
        build()
        for step in PLANS[prop][tier]:
            t = time.time()
            (run_mc if 'model' in step else run_gen)(prop, step, seed, scratch, cov)
            say('%s  %5.1f s  %s' % (prop, time.time() - t, cov['steps'][-1]))
        known(prop, scratch)
    except Violation as v:
        violation = v
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if violation:
        cov['violation'] = violation.what
    cov['exhaustive'] = False
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': LEVELS.get(prop, 'model_checking'), 'coverage': cov,
          'assumptions': ASSUME, 'wall_s': round(time.time() - T0, 1), 'violations': 1 if violation else 0}
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f)
    if violation:
        say(violation.what)
        say('VIOLATION property=%s replay=%s' % (prop, violation.replay))
        return 1
    say('%s held: %d histories accepted, %d states, %.0f s' % (prop, cov['traces_validated_against_impl'], cov['states'], time.time() - T0))
    return 0


READ_OPS = {'read'}


def new_cov():
    return {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': [], 'steps': [], 'operations': {}, 'not_judged': {}}


if __name__ == '__main__':
    try:
        sys.exit(main())
    except Broken as e:
        say('CHECK FAILED: %s' % e)
        sys.exit(2)
