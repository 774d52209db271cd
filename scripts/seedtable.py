#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{d}/meta.json'))
    rows.append((m['property'], d, m['what_it_breaks'].strip().replace('\n', ' ').replace('|', '/')))
rows.sort()
t = "| property (its check catches the change) | seeded change | what it breaks |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % r for r in rows)
p = V + '/DESIGN.md'
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda _: "<!-- seeds -->\n" + t + "\n<!-- /seeds -->", s, flags=re.S)
open(p, 'w').write(s)
