#!/usr/bin/env python3
"""mutants.py MUTATE OUT.json [FILE...]: finds the mechanical changes of /repo
(listed by the binary MUTATE, see mutate/main.go) which build and pass the existing
tests. Eight scratch copies at a time."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import threading, glob

env = dict(os.environ)
for l in open('/opt/vp/env.sh'):
    for k, v in re.findall(r'(\w+)=(\S+)', l):
        env[k] = v
mutate, out = sys.argv[1:3]
files = sys.argv[3:] or [f for p in ('ipv4', 'ipv6', 'ip') for f in sorted(glob.glob(f'/repo/{p}/*.go')) if not f.endswith('_test.go')]
files = [os.path.relpath(f, '/repo') for f in map(lambda x: os.path.join('/repo', x), files)]
muts = [json.loads(l) for l in subprocess.run([mutate] + files, cwd='/repo', stdout=subprocess.PIPE, text=True, check=True).stdout.splitlines()]
seen, uniq = set(), []
for m in muts:
    k = (m['file'], m['off'], m['end'], m['new'])
    if k not in seen:
        seen.add(k)
        uniq.append(m)
print(len(uniq), 'changes', flush=True)
top = tempfile.mkdtemp(prefix='mut-', dir='/tmp')
local = threading.local()
lock = threading.Lock()
n = [0]

def tree():
    if not hasattr(local, 'd'):
        with lock:
            n[0] += 1
            local.d = f'{top}/{n[0]}'
        subprocess.run(['git', 'clone', '-q', '/repo', local.d], check=True)
        local.orig = {f: open(f'{local.d}/{f}', 'rb').read() for f in files}
    return local.d

def run(m):
    d = tree()
    s = local.orig[m['file']]
    p = f"{d}/{m['file']}"
    with open(p, 'wb') as f:
        f.write(s[:m['off']] + m['new'].encode() + s[m['end']:])
    pkg = os.path.dirname(m['file'])
    e = dict(env, GOMAXPROCS='2')
    try:
        if subprocess.run(['go', 'build', './' + pkg], cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
            return 'build'
        try:
            r = subprocess.run(f"ulimit -v 8000000; exec timeout 60 go test -vet=off -count=1 -failfast -timeout 40s ./{pkg}" + (' ./ip' if pkg != 'ip' else ''), shell=True, cwd=d, env=e, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except Exception:
            return 'fail'
        return 'pass' if r.returncode == 0 else 'fail'
    finally:
        with open(p, 'wb') as f:
            f.write(s)

count = {}
alive = []
with ThreadPoolExecutor(8) as ex:
    for i, (m, r) in enumerate(zip(uniq, ex.map(run, uniq))):
        count[r] = count.get(r, 0) + 1
        if r == 'pass':
            alive.append(m)
        if i % 200 == 0:
            print(i, count, flush=True)
            json.dump(alive, open(out, 'w'), indent=1)
json.dump(alive, open(out, 'w'), indent=1)
print(count)
shutil.rmtree(top)
