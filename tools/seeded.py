#!/usr/bin/env python3
"""Writes the table of seeded bugs into DESIGN.md"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| bug | caught by | breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m.get('caught_by', m['property']), m['what_it_breaks'], m['needs']))
p = V + '/DESIGN.md'
t = open(p).read()
t = re.sub(r'@@SEEDED@@|\| bug \| caught by.*?(?=\n\n|\Z)', lambda _: '\n'.join(rows), t, flags=re.S)
open(p, 'w').write(t)
