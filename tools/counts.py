#!/usr/bin/env python3
"""counts.py: for every planted bug, says whether its patch changes lines of the original repository
(by blame), not only lines of this work's own commits."""
import re, subprocess, os, sys
own = set(subprocess.run(['git', '-C', '/repo', 'rev-list', '0718c30..HEAD'], capture_output=True, text=True).stdout.split())
blame = {}
def lines(f):
    if f not in blame:
        o = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-l', 'HEAD', '--', f], capture_output=True, text=True).stdout
        blame[f] = [l.split()[0] for l in o.splitlines()]
    return blame[f]
base = '/verif/seeded'
for d in sorted(sys.argv[1:] or os.listdir(base)):
    f, n, orig, mine = None, 0, 0, 0
    for l in open(f'{base}/{d}/patch.diff'):
        if l.startswith('+++ '):
            f = l[6:].strip()
        elif m := re.match(r'@@ -(\d+)', l):
            n = int(m[1])
        elif l.startswith('-') and not l.startswith('---'):
            if l[1:].strip():
                if lines(f)[n - 1] in own: mine += 1
                else: orig += 1
            n += 1
        elif l.startswith(' '):
            n += 1
    print(d, 'ok' if orig else 'DOES NOT COUNT', orig, mine)
