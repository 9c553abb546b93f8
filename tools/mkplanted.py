#!/usr/bin/env python3
"""Rewrites the table of planted changes at the end of DESIGN.md from seeded/*/meta.json.

seeded/CAUGHT (bug id -> checks seen to report it) is kept by hand / by tools/mutate.sh runs.
"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- planted -->'
caught = {}
p = os.path.join(R, 'tools', 'caught.txt')
if os.path.exists(p):
    for l in open(p):
        f = l.split()
        if len(f) > 1:
            caught[f[0]] = ' '.join(f[1:])
rows = []
for d in sorted(os.listdir(os.path.join(R, 'seeded'))):
    m = os.path.join(R, 'seeded', d, 'meta.json')
    if os.path.exists(m):
        m = json.load(open(m))
        rows.append('| %s | %s | %s | %s |' % (d, m['what_it_breaks'], m['needs'], caught.get(d, m['property'])))
s = open(os.path.join(R, 'DESIGN.md')).read()
i = s.index(MARK)
open(os.path.join(R, 'DESIGN.md'), 'w').write(s[:i] + MARK + '\n\n| planted change | what it breaks | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
