#!/usr/bin/env python3
"""DESIGN.md from DESIGN.in.md: fills in the planted bugs and the number of repairs."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| id | property | needs |', '|---|---|---|']
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
fixes = sum(l.startswith('fixed:') for l in open(os.path.join(here, 'known_findings.txt')))
s = open(os.path.join(here, 'tools', 'DESIGN.in.md')).read()
open(os.path.join(here, 'DESIGN.md'), 'w').write(s.replace('@SEEDED@', '\n'.join(rows)).replace('@FIXES@', str(fixes)))
