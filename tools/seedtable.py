#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(d))
    rows.append(f"| {os.path.basename(os.path.dirname(d))} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
f = os.path.join(root, 'DESIGN.md')
s = open(f).read()
t = '<!-- seeds -->\n' + '\n'.join(rows) + '\n<!-- end -->'
s = s.replace('SEEDTABLE', t) if 'SEEDTABLE' in s else re.sub(r'<!-- seeds -->.*<!-- end -->', lambda _: t, s, flags=re.S)
open(f, 'w').write(s)
