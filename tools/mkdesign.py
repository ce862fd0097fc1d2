#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, os
T = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(T + '/seeded')):
    m = json.load(open(f'{T}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['needs']))
rows.sort()
t = '| property and check that catches it | planted bug | needs |\n|---|---|---|\n' + ''.join(f'| {a} | {b} | {c} |\n' for a, b, c in rows)
p = T + '/DESIGN.md'
s = open(p).read()
a, b = s.index('<!-- table -->'), s.index('<!-- end of table -->')
open(p, 'w').write(s[:a] + '<!-- table -->\n' + t + s[b:])
