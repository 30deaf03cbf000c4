#!/usr/bin/env python3
"""Build a harness binary from /repo's current working tree, with the
controlled scheduler in the runtime. Nothing is written into /repo."""
import hashlib, json, os, subprocess, sys, fcntl, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.environ.get('VERIF_CACHE', os.path.join(VERIF, '.cache'))
sys.path.insert(0, os.path.join(HERE, 'rt'))
import mkrt

def goenv():
    """The environment of /opt/vp/env.sh, with a build cache of our own."""
    out = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; env -0'], stdout=subprocess.PIPE, check=True).stdout
    env = {}
    for kv in out.decode().split('\0'):
        if '=' in kv:
            k, v = kv.split('=', 1)
            env[k] = v
    env['GOCACHE'] = os.path.join(CACHE, 'gocache')
    env['GOFLAGS'] = '-mod=readonly'
    env.pop('GOLOG_LOG_LEVEL', None)
    return env

def overlay(env, instrumented=True):
    goroot = subprocess.run(['go', 'env', 'GOROOT'], env=env, stdout=subprocess.PIPE, check=True).stdout.decode().strip()
    ov = {}
    if instrumented:
        ov.update(mkrt.main(goroot, os.path.join(CACHE, 'rt')))
        mods = subprocess.run(['go', 'list', '-m', '-f', '{{.Path}} {{.Dir}}', 'github.com/libp2p/go-libp2p', 'github.com/ipfs/go-ds-leveldb'],
                              cwd=REPO, env=env, stdout=subprocess.PIPE, check=True).stdout.decode()
        ov.update(mkrt.modules(dict(l.split(' ', 1) for l in mods.split('\n') if l), os.path.join(CACHE, 'rt')))
    base = os.path.join(HERE, 'go')
    for d in sorted(os.listdir(base)):
        p = os.path.join(base, d)
        if os.path.isdir(p):
            for f in sorted(os.listdir(p)):
                if f.endswith('.go') or f.endswith('.s'):
                    ov[os.path.join(REPO, 'internal/verifmc', d, f)] = os.path.join(p, f)
    return ov

def build(name, race=False, instrumented=True, tags='', log=None):
    """-> (path, None) or (None, error text)"""
    os.makedirs(CACHE, exist_ok=True)
    env = goenv()
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ov = overlay(env, instrumented)
    key = name + ('_race' if race else '') + ('' if instrumented else '_plain')
    ovf = os.path.join(CACHE, 'overlay_%s.json' % key)
    with open(ovf, 'w') as f:
        json.dump({'Replace': ov}, f)
    os.makedirs(os.path.join(CACHE, 'bin'), exist_ok=True)
    out = os.path.join(CACHE, 'bin', key)
    cmd = ['go', 'build', '-overlay', ovf, '-o', out]
    if race:
        cmd.append('-race')
    if tags:
        cmd += ['-tags', tags]
    cmd.append('./internal/verifmc/' + name)
    t = time.time()
    p = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if log:
        log('built %s in %.1f s' % (key, time.time() - t))
    if p.returncode != 0:
        return None, p.stdout.decode(errors='replace')
    return out, None

if __name__ == '__main__':
    for a in sys.argv[1:]:
        race = a.endswith(':race')
        out, err = build(a.split(':')[0], race, log=print)
        print(out or err)
