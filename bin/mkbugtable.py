#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os
d = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property and check | needs | breaks |', '|---|---|---|---|']
for m in sorted(glob.glob(d + '/seeded/*/meta.json')):
    j = json.load(open(m))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(m)), j['property'], j['needs'].replace('|', '/'), j['what_it_breaks'].replace('|', '/')))
t = open(d + '/DESIGN.md').read()
a, b = '<!-- bugs -->\n', '<!-- /bugs -->'
i, k = t.index(a) + len(a), t.index(b)
open(d + '/DESIGN.md', 'w').write(t[:i] + '\n'.join(rows) + '\n' + t[k:])
