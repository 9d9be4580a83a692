#!/usr/bin/env python3
"""Plants bugs, for testing the checks (no check uses this).

  seed.py make DEFINITIONS.py [ID..]   confirm and write seeded/<id>/
  seed.py run [ID..] [--all-props]     run the property's check against planted bugs
"""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SEEDED = os.path.join(HERE, 'seeded')

DEMO = '''#!/bin/bash
# Exits 0 if the library behaves, non-zero otherwise.  Run in the repository.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
mkdir "$D/src" "$D/scratch"
cp "$HERE/main.rs" "$D/src/main.rs"
cat > "$D/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
topogeo = { path = "$REPO" }
encoding = "0.2.33"
TOML
cd "$D" || exit 3
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$D/target" DEMO_SCRATCH="$D/scratch"
cargo build --offline --quiet 2> "$D/log" || { tail -20 "$D/log"; exit 3; }
timeout 60 "$D/target/debug/demo"
'''

PRELUDE = '''#![allow(dead_code, unused_imports)]
extern crate topogeo;
use topogeo::geo::*;
use topogeo::topology::*;
use topogeo::clip::*;
use topogeo::clip::edge::clip_edge;
use topogeo::clip::topology::clip_topology;
fn pts(p: &[(u32, u32)]) -> Box<[Point]> { p.iter().map(|p| Point(p.0, p.1)).collect::<Vec<_>>().into_boxed_slice() }
fn ring(p: &[(u32, u32)]) -> Ring { Ring::Points(pts(p)) }
fn ering(e: &[&[(u32, u32)]]) -> Ring { Ring::Edges(e.iter().map(|p| Edge(pts(p))).collect::<Vec<_>>().into_boxed_slice()) }
fn region(d: u32, o: Vec<Ring>, i: Vec<Ring>) -> Region<u32> { Region { data: d, outer_rings: o.into_boxed_slice(), inner_rings: i.into_boxed_slice() } }
fn build(rs: Vec<Region<u32>>) -> Topology<u32> { let mut b = TopologyBuilder::new(); for r in rs { b.add_region(r); } b.into_topology() }
fn path(e: &TopoEdge<u32>) -> Vec<(u32, u32)> { e.points.iter().map(|p| (p.0, p.1)).collect() }
fn walk(r: &TopoRing<u32>) -> Vec<(u32, u32)> {
    let mut v: Vec<(u32, u32)> = vec![];
    for de in r.directed_edges.iter() {
        let mut p = path(unsafe { &*de.edge });
        if de.direction == Direction::Backward { p.reverse(); }
        for x in p { if v.last() != Some(&x) { v.push(x); } }
    }
    v
}
fn sq(x: u32, y: u32) -> Ring { ring(&[(x, y), (x + 1, y), (x + 1, y + 1), (x, y + 1), (x, y)]) }
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean():
    sh(['git', '-C', REPO, 'checkout', '--', '.'])

def tests_ok():
    out = tempfile.mktemp()
    if sh(['bash', '/opt/vp/build.sh']).returncode:
        return 'does not build'
    sh(['bash', '/opt/vp/test.sh', out])
    r = json.load(open(out)); os.unlink(out)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set(r.get('passed', []))
    return '' if base <= passed else 'tests fail: %s' % sorted(base - passed)[:3]

def demo(d):
    return sh(['bash', os.path.join(d, 'demo.sh')], cwd=REPO)

def make(defs, only):
    ns = {'PRELUDE': PRELUDE}
    exec(open(defs).read(), ns)
    for b in ns['BUGS']:
        if only and b['id'] not in only: continue
        d = os.path.join(SEEDED, b['id'])
        if os.path.exists(d) and not only: continue
        tmp = tempfile.mkdtemp()
        open(os.path.join(tmp, 'main.rs'), 'w').write((PRELUDE if b.get('prelude', True) else '') + b['main'])
        open(os.path.join(tmp, 'demo.sh'), 'w').write(DEMO)
        clean()
        try:
            p = demo(tmp)
            if p.returncode: print(b['id'], 'REJECTED: demo fails on the unchanged tree', p.returncode, p.stdout[-1500:]); continue
            for f, old, new in b['edits']:
                path = os.path.join(REPO, f); s = open(path).read()
                if s.count(old) != 1: raise SystemExit('%s: %d matches of %r in %s' % (b['id'], s.count(old), old, f))
                open(path, 'w').write(s.replace(old, new))
            diff = sh(['git', '-C', REPO, 'diff']).stdout
            t = tests_ok()
            if t: print(b['id'], 'REJECTED:', t); continue
            p = demo(tmp)
            if p.returncode in (0, 3): print(b['id'], 'REJECTED: demo exit', p.returncode, 'with the change', p.stdout[-800:]); continue
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            for f in ('main.rs', 'demo.sh'): shutil.copy(os.path.join(tmp, f), d)
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            print(b['id'], 'kept;', p.stdout.strip().splitlines()[-3:] if p.stdout.strip() else '')
        finally:
            clean(); shutil.rmtree(tmp)

def run(ids, allp):
    for i in ids or sorted(os.listdir(SEEDED)):
        d = os.path.join(SEEDED, i); meta = json.load(open(os.path.join(d, 'meta.json')))
        p = sh(['git', '-C', REPO, 'apply', os.path.join(d, 'patch.diff')])
        if p.returncode: print(i, 'does not apply', p.stdout); continue
        try:
            props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))] if allp else [meta['property']]
            for prop in props:
                t = time.time()
                p = sh([sys.executable, os.path.join(HERE, 'check.py'), prop, 'quick'], cwd=HERE, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
                hit = any(l.startswith('VIOLATION property=%s ' % prop) for l in p.stdout.splitlines())
                last = [l for l in p.stdout.splitlines() if l][-2:]
                if not allp or p.returncode: print(i, prop, 'CAUGHT' if p.returncode == 1 and hit else 'MISSED' if p.returncode == 0 else 'rc %d' % p.returncode, '%.0fs' % (time.time() - t), last[0][:160] if last else '', flush=True)
        finally:
            clean()

a = sys.argv[1:]
if a[0] == 'make': make(a[1], a[2:])
elif a[0] == 'run': run([x for x in a[1:] if not x.startswith('--')], '--all-props' in a)
