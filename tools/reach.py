#!/usr/bin/env python3
"""reach.py DIR: which lines of the library no check's runs came to (from the
evidence files in DIR)."""
import glob, json, sys, os
d = sys.argv[1] if len(sys.argv) > 1 else '/verif/evidence'
left = None
for f in sorted(glob.glob(d + '/C*.json')):
    r = json.load(open(f))['coverage'].get('scheduling_points_in_library')
    if not r:
        continue
    n = {}
    for k in r['by_file']:
        l = r['lines_never_reached'].get(k, '')
        n[k] = None if l == 'all' else set(l.split())
    if left is None:
        left = n
    else:
        for k in left:
            a, b = left[k], n[k]
            left[k] = b if a is None else a if b is None else a & b
for k in left:
    print(k, 'all' if left[k] is None else ' '.join(sorted(left[k], key=int)))
