#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | property = check | what it breaks |', '|---|---|---|']
for f in sorted(glob.glob(here + '/seeded/*/meta.json')):
    d = json.load(open(f))
    rows.append('| %s | %s | %s |' % (f.split('/')[-2], d['property'], d['what_it_breaks']))
p = here + '/DESIGN.md'
s = open(p).read()
t = '<!-- seeded -->\n' + '\n'.join(rows) + '\n<!-- /seeded -->'
s = s.replace('SEEDEDTABLE', '<!-- seeded -->\n<!-- /seeded -->')
s = re.sub(r'<!-- seeded -->.*?<!-- /seeded -->', lambda m: t, s, flags=re.S)
open(p, 'w').write(s)
