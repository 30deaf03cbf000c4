#!/usr/bin/env python3
"""Author and confirm planted bugs.

make ID PKG PROPERTY  < JSON {"edits":[[file,old,new]...],"needs":..,"breaks":..,"demo": "go test source"}
confirm ID            build, stable tests, demo with and without the patch
check ID              run the property's quick check against the patch
"""
import json, os, subprocess, sys, re
V = '/verif'
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def undo(): sh('git -C /repo checkout -- .')
def make(i, pkg, prop):
    ns = {}
    exec(sys.stdin.read(), ns)
    j = ns
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    undo()
    for f, a, b in j['edits']:
        p = f'{R}/{f}'
        s = open(p).read()
        if s.count(a) != 1:
            undo(); sys.exit(f'{f}: {s.count(a)} matches for {a!r}')
        open(p, 'w').write(s.replace(a, b))
    sh(f'cd {R} && /opt/vp/go1.18.10/bin/gofmt -l $(git diff --name-only)')
    open(f'{d}/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    undo()
    json.dump({'property': prop, 'needs': j['needs'], 'what_it_breaks': j['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    open(f'{d}/demo_test.go', 'w').write(j['demo'])
    tgt = f'/repo/{pkg}/zz_demo_test.go'
    race = ' -race' if j.get('race') else ''
    open(f'{d}/demo.sh', 'w').write(f'''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export TMPDIR=$T
echo '{{"Replace":{{"{tgt}":"'"$D"'/demo_test.go"}}}}' > "$T/overlay.json"
go test{race} -overlay "$T/overlay.json" -vet=off -count=1 -timeout 200s -run '^TestDemo$' ./{pkg}
''')
    os.chmod(f'{d}/demo.sh', 0o755)
def apply(i):
    r = sh(f'git -C /repo apply {V}/seeded/{i}/patch.diff')
    if r.returncode: sys.exit(r.stdout)
def confirm(i):
    d = f'{V}/seeded/{i}'
    undo()
    r = sh(f'cd /repo && bash {d}/demo.sh')
    print('demo clean:', r.returncode, '' if r.returncode == 0 else r.stdout[-1500:])
    ok = r.returncode == 0
    apply(i)
    try:
        r = sh('bash /opt/vp/build.sh'); print('build:', r.returncode, r.stdout[-500:]); ok &= r.returncode == 0
        sh('bash /opt/vp/test.sh /tmp/seedout.json')
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        o = json.load(open('/tmp/seedout.json'))
        ps = o.get('passed') or o.get('pass') or []
        miss = [t for t in st if t not in ps]
        print('stable tests missing:', miss); ok &= not miss
        r = sh(f'cd /repo && bash {d}/demo.sh')
        print('demo patched:', r.returncode, '' if r.returncode else 'NOT FAILING'); print('   ', '\n    '.join(r.stdout.strip().split('\n')[-12:-1])[:900]); ok &= r.returncode != 0
    finally:
        undo()
    print(i, 'CONFIRMED' if ok else 'REJECTED')
def check(i):
    d = f'{V}/seeded/{i}'
    p = json.load(open(f'{d}/meta.json'))['property']
    apply(i)
    try:
        import time
        t = time.time()
        r = sh(f'cd {V} && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {p} quick', timeout=900)
        print(i, p, 'exit', r.returncode, f'{time.time()-t:.0f}s', 'CAUGHT' if r.returncode == 1 and f'VIOLATION property={p}' in r.stdout else 'MISSED')
        print('   ', r.stdout.strip()[-700:])
    finally:
        undo()
a = sys.argv
for x in ([a[2]] if a[1] == 'make' else a[2:]):
    {'make': lambda x: make(x, a[3], a[4]), 'confirm': confirm, 'check': check}[a[1]](x)
