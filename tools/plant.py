#!/usr/bin/env python3
"""plant.py FILE.py...: turns bug descriptions into /verif/seeded/<id>/ after
confirming them in a scratch copy of /repo.

A description defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new)],
PKG (ipv4 or ipv6), DEMO (text of an external or internal test file with TestDemo)
and optionally RACE."""
import json, os, re, shutil, subprocess, sys, tempfile

env = dict(os.environ)
for l in open('/opt/vp/env.sh'):
    for k, v in re.findall(r'(\w+)=(\S+)', l):
        env[k] = v

DEMO_SH = '''#!/bin/bash
# Runs the test beside this file in the package %(pkg)s of the current directory.
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/overlay.json" <<EOF
{"Replace": {"$PWD/%(pkg)s/zz_demo_test.go": "$here/demo_test.go"}}
EOF
go test %(flags)s-vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestDemo$' ./%(pkg)s
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def one(path):
    b = {}
    exec(open(path).read(), b)
    bid = b['ID']
    tmp = tempfile.mkdtemp(prefix='plant-', dir='/tmp')
    try:
        rep = tmp + '/repo'
        sh(['git', 'clone', '-q', '/repo', rep], '/')
        d = tmp + '/demo'
        os.mkdir(d)
        open(d + '/demo_test.go', 'w').write(b['DEMO'])
        open(d + '/demo.sh', 'w').write(DEMO_SH % {'pkg': b['PKG'], 'flags': '-race ' if b.get('RACE') else ''})
        os.chmod(d + '/demo.sh', 0o755)
        r = sh(['bash', d + '/demo.sh'], rep)
        if r.returncode != 0:
            return bid, 'demo fails on the clean tree', r.stdout[-1500:]
        for f, old, new in b['EDITS']:
            s = open(f'{rep}/{f}').read()
            if s.count(old) != 1:
                return bid, f'{f}: {s.count(old)} matches', old
            open(f'{rep}/{f}', 'w').write(s.replace(old, new))
        g = sh(['gofmt', '-l', 'ipv4', 'ipv6', 'ip'], rep).stdout
        r = sh(['go', 'vet', './ipv4', './ipv6', './ip'], rep)
        r = sh(['go', 'build', './...'], rep)
        if r.returncode:
            return bid, 'does not build', r.stdout
        r = sh(['go', 'test', '-vet=off', '-count=1', '-timeout', '100s', './...'], rep)
        if r.returncode:
            return bid, 'the existing tests fail', '\n'.join(l for l in r.stdout.splitlines() if 'FAIL' in l or 'panic' in l)[:600]
        r = sh(['bash', d + '/demo.sh'], rep)
        if r.returncode == 0:
            return bid, 'demo passes with the bug', ''
        diff = sh(['git', 'diff'], rep).stdout
        # changes original lines?
        orig = set()
        for f, _, _ in b['EDITS']:
            base = sh(['git', 'show', '0718c30:' + f], rep).stdout.splitlines()
            orig |= set(base)
        minus = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        note = '' if any(l in orig and l.strip() for l in minus) else ' (no original line changed!)'
        out = '/verif/seeded/' + bid
        shutil.rmtree(out, ignore_errors=True)
        shutil.copytree(d, out)
        open(out + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['PROP'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']}, open(out + '/meta.json', 'w'), indent=1)
        return bid, 'ok' + note + (' gofmt!' if g else ''), r.stdout[-300:] if '-v' in sys.argv else ''
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for r in ex.map(one, [a for a in sys.argv[1:] if a != '-v']):
            print(*r)
