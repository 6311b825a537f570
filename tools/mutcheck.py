#!/usr/bin/env python3
"""mutcheck.py MUTANTS.json OUT.jsonl [DIVISOR [PART PARTS]]: runs the checks,
with the quick number of runs divided by DIVISOR, against each change until one
reports it."""
import json, os, re, shutil, subprocess, sys, tempfile, time
here = os.path.dirname(os.path.abspath(__file__))
verif = os.environ.get('VERIF_DIR', os.path.dirname(here))
muts = json.load(open(sys.argv[1]))
out = sys.argv[2]
div = int(sys.argv[3]) if len(sys.argv) > 3 else 8
props = os.environ.get('PROPS', 'C01 C13 C06 C02 C12 C05 C07 C15 C08 C09 C24 C16 C10 C04 C03 C26 C14 C23 C17 C25').split()
done = set()
if os.path.exists(out):
    for l in open(out):
        r = json.loads(l)
        done.add((r['file'], r['off'], r['end'], r['new']))
# with PROPS=auto, the checks which are about the changed function
about = [(('node.go', 'ggregate'), 'C07 C24 C08 C09 C17'), (('node.go', 'Map'), 'C08 C24 C17'), (('table', 'Map'), 'C08 C16'), (('', 'iff'), 'C06 C17 C05 C13 C27'),
         (('setnode.go', 'mallest'), 'C15 C24'), (('setnode.go', 'best'), 'C15'), (('set.go', 'Avail'), 'C15'), (('set', ''), 'C13 C02 C16 C12 C03 C25 C24'),
         (('table', ''), 'C01 C16 C03 C25'), (('', ''), 'C01 C12 C05 C25 C24')]
auto = props == ['auto']
if auto:
    props = sorted(set(' '.join(v for _, v in about).split()))
runs = {p: max(300, int(subprocess.run([verif + '/sim/runs.sh', p], stdout=subprocess.PIPE, text=True).stdout) // div) for p in props}
runs['C17'], runs['C25'] = 300, 400
tmp = tempfile.mkdtemp(prefix='mutc-', dir='/tmp')
subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/repo'], check=True)
env = dict(os.environ, VERIF_REPO=tmp + '/repo', VERIF_BUILD=tmp + '/build', VERIF_EVIDENCE=tmp + '/ev', VERIF_REPLAYS=tmp + '/replays', VERIF_SEED='1', VERIF_GOCACHE='/tmp/trial-gocache', VERIF_WALL='100')
try:
    for m in muts:
        if (m['file'], m['off'], m['end'], m['new']) in done:
            continue
        p = f"{tmp}/repo/{m['file']}"
        s = open(p, 'rb').read()
        open(p, 'wb').write(s[:m['off']] + m['new'].encode() + s[m['end']:])
        t = time.time()
        m['caught'] = None
        odd = []
        for c in next(v for (f, n), v in about if f in m['file'] and n in m['fn']).split() if auto else props:
            env['VERIF_RUNS'] = str(runs[c])
            r = subprocess.run(['bash', verif + '/sim/check.sh', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1:
                m['caught'] = c
                v = [l for l in r.stdout.splitlines() if l.startswith('run ')]
                m['run'] = v[0][:200] if v else ''
                break
            if r.returncode:
                odd.append((c, r.returncode, r.stdout[-300:]))
        m['odd'] = odd
        m['secs'] = round(time.time() - t, 1)
        open(p, 'wb').write(s)
        with open(out, 'a') as f:
            f.write(json.dumps(m) + '\n')
finally:
    shutil.rmtree(tmp)
