#!/usr/bin/env python3
"""Writes the table of planted bugs at the end of DESIGN.md."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + '/DESIGN.md'
s = open(p).read()
mark = '## 6. Planted bugs'
s = s.split(mark)[0].rstrip() + '\n\n' + mark + '\n\nEach is caught by the check of its property (exit 1 with its VIOLATION line).\n\n| property | bug | needs | breaks |\n|---|---|---|---|\n'
for d in sorted(os.listdir(root + '/seeded')):
    m = json.load(open(f'{root}/seeded/{d}/meta.json'))
    s += f"| {m['property']} | {d} | {m['needs']} | {m['what_it_breaks']} |\n"
open(p, 'w').write(s)
