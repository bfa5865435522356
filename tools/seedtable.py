#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, ' '.join(m['needs'].split())))
rows.sort()
t = '| property | planted bug | what it takes to show |\n|---|---|---|\n' + ''.join('| %s | %s | %s |\n' % r for r in rows)
p = root + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'\| property \| planted bug \|.*?\n(?=\n)', lambda _: t, s, flags=re.S)
open(p, 'w').write(s)
