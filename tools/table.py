#!/usr/bin/env python3
"""table.py: prints the table of planted bugs for DESIGN.md from seeded/*/meta.json
and the outcomes recorded in tools/caught.txt (lines: ID run [note])."""
import glob, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
c = {}
for l in open(here + '/tools/caught.txt'):
    f = l.rstrip('\n').split(' ', 2)
    c[f[0]] = (f[1], f[2] if len(f) > 2 else '')
print('| bug | what it does | caught at run |\n|---|---|---|')
for d in sorted(glob.glob(here + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    r, n = c.get(i, ('?', ''))
    print(f"| {i} | {m['what_it_breaks']} | {r}{' (' + n + ')' if n else ''} |")
