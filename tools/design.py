#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.in.md, the planted bugs and tools/gaps.md."""
import os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(H + '/seeded')):
    m = json.load(open(H + '/seeded/%s/meta.json' % n))
    rows.append('| %s: %s | %s | %s |' % (n, m['what_it_breaks'], m['property'], m['property']))
t = open(H + '/tools/DESIGN.in.md').read()
t = t.replace('@@SEEDS@@', '\n'.join(rows)).replace('@@GAPS@@', open(H + '/tools/gaps.md').read().rstrip())
open(H + '/DESIGN.md', 'w').write(t)
