#!/usr/bin/env python3
"""Rewrite the table of planted bugs at the end of DESIGN.md. Arguments: ID=C01,C02..."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(HERE, 'DESIGN.md')
s = open(p).read()
mark = 'Table kept by `tools/bugtable.py`:\n'
head, _, old = s.partition(mark)
also = {}
for line in old.split('\n'):
    c = [x.strip() for x in line.strip('|').split('|')]
    if len(c) == 4 and c[0].startswith('B'):
        also[c[0]] = c[3]
for a in sys.argv[1:]:
    k, _, v = a.partition('=')
    also[k] = v
rows = ['', '| Bug | Property | Breaks | Caught by |', '|---|---|---|---|']
for b in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
    m = json.load(open(os.path.join(HERE, 'seeded', b, 'meta.json')))
    rows.append('| %s | %s | %s (needs %s) | %s |' % (
        b, m['property'], m['what_it_breaks'].replace('|', '/'),
        m['needs'].replace('|', '/'), also.get(b, m['property'])))
open(p, 'w').write(head + mark + '\n'.join(rows) + '\n')
