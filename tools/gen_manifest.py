"""Writes MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plans import PLANS, LEVELS
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TOPO = 'TLA+ specification (TLC): exhaustive small-scope models whose behaviours are replayed into the code, and recorded executions validated as behaviours of the specification'
READ = 'TLA+ specification (TLC) of the file formats and readers: model behaviours replayed into the code, and recorded executions validated against the specification'
NOTE = ('Bounded: every recorded or replayed execution of the real code is decided by TLC against the specification; executions outside the explored '
        'ones are not covered. Trusts TLC, the harness that records executions, and the reading of the requirements in DESIGN.md.')
m = {'version': 1,
     'setup_cmd': 'python3 check.py --build',
     'checks': [], 'not_applicable': [],
     'notes': 'No hooks in /repo are needed: the public API exposes all state. Fix commits are listed in known_findings.txt.'}
for p in props:
    if p['id'] in PLANS:
        m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'], 'technique': READ if p['id'] in ('C13', 'C14', 'C15', 'C16', 'C17', 'C20', 'C22', 'C23') else TOPO,
                            'level': LEVELS.get(p['id'], 'model_checking'), 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': p['id'], 'reason': 'check not built yet'})
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
