#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = os.path.join(HERE, 'DESIGN.md')
S = os.path.join(HERE, 'seeded')
rows = []
for d in sorted(os.listdir(S), key=lambda d: int(d[1:].split('-')[0])):
    with open(os.path.join(S, d, 'meta.json')) as f:
        m = json.load(f)
    rows.append('| %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs']))
with open(P) as f:
    s = f.read()
s = s[:s.index('| bug | property |')] + '| bug | property | what it breaks | needs |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n'
with open(P, 'w') as f:
    f.write(s)
