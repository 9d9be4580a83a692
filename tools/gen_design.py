#!/usr/bin/env python3
"""Fills in DESIGN.md's table of planted bugs."""
import json, os, re
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | file | what it breaks | needs |', '|---|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    d = os.path.join(HERE, 'seeded', b)
    m = json.load(open(os.path.join(d, 'meta.json')))
    f = sorted(set(l[6:].strip()[4:] for l in open(os.path.join(d, 'patch.diff')) if l.startswith('+++ b/')))
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], ', '.join(f), m['what_it_breaks'].strip(), m['needs'].strip()))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
s = re.sub(r'<!-- bugs -->.*<!-- end -->', lambda _: '<!-- bugs -->\n' + '\n'.join(rows) + '\n<!-- end -->', s, flags=re.S)
open(p, 'w').write(s)
