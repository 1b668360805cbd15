#!/usr/bin/env python3
"""Development aid: build and validate the planted bugs of tools/seeds/*.py.
seed.py ID...       validate in a scratch copy and write /verif/seeded/ID when everything holds
seed.py --check ID  additionally run this property's check against it"""
import glob, importlib.util, json, os, re, shutil, subprocess, sys
V = '/verif'
W = os.environ.get('SEEDWORK', '/tmp/seedwork')
SEEDS = {}
def seed(id, prop, edits, demo, needs, breaks, flags=''):
    SEEDS[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, flags=flags)
for f in sorted(glob.glob(V + '/tools/seeds/*.py')):
    exec(compile(open(f).read(), f, 'exec'), {'seed': seed})
def sh(cmd, **kw): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def prepare():
    if os.path.exists(W): shutil.rmtree(W)
    os.makedirs(W)
    sh('git -C /repo worktree prune; git clone -q /repo %s/repo' % W)
    shutil.copytree('/opt/vp', W + '/vp', ignore=shutil.ignore_patterns('cache*'))
    for f in ('common.sh', 'build.sh', 'test.sh'):
        p = W + '/vp/' + f; s = open(p).read()
        s = s.replace('REPO=/repo', 'REPO=%s/repo' % W).replace('. /opt/vp/common.sh', '. %s/vp/common.sh' % W)
        open(p, 'w').write(s)
def edit(repo, edits):
    for f, old, new in edits:
        p = repo + '/include/k3/tok3n/detail/' + f; s = open(p, newline='').read()
        if '\r\n' in s: old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        k = None
        m = re.search(r'@@(\d+)$', old)
        if m: k = int(m.group(1)); old = old[:m.start()]
        n = s.count(old)
        if k is None: assert n == 1, '%s: OLD occurs %d times' % (f, n); s = s.replace(old, new)
        else:
            parts = s.split(old); assert len(parts) > k + 1, '%s: OLD occurs %d times' % (f, n)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, 'w', newline='').write(s)
SH = '''#!/bin/bash
# Run with the repository as current directory: exit 0 if the property holds, else nonzero.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
g++ -std=c++20 -O1 -pthread %s -I include "$here/demo.cpp" -o "$d/demo" || exit 2
timeout 120 "$d/demo"
'''
def make(id, tests=True):
    s = SEEDS[id]
    R = W + '/repo'
    if not os.path.exists(R): prepare()
    sh('git -C %s fetch -q; git -C %s checkout -q . ; git -C %s reset -q --hard origin/HEAD' % (R, R, R))
    d = W + '/' + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    open(d + '/demo.cpp', 'w').write(s['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(SH % s['flags']); os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=R)
    if r.returncode: return 'demo fails on the unchanged tree: ' + r.stdout[:1500]
    try: edit(R, s['edits'])
    except AssertionError as e: return 'edit: %s' % e
    open(d + '/patch.diff', 'w', newline='').write(subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE).stdout.decode())
    r = sh('bash %s/demo.sh' % d, cwd=R)
    if not r.returncode: return 'demo passes with the change: ' + r.stdout[:500]
    why = r.stdout[-300:] if r.returncode != 2 else 'DEMO DOES NOT COMPILE ' + r.stdout[:1500]
    if r.returncode == 2: return why
    if tests:
        r = sh('bash %s/vp/build.sh' % W)
        if r.returncode: return 'does not build: ' + '\n'.join([l for l in r.stdout.splitlines() if 'error' in l][:5])[:900]
        r = sh('bash %s/vp/test.sh %s/out.json' % (W, W))
        o = json.load(open(W + '/out.json'))
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        bad = sorted(set(base) - set(o['passed']))
        if bad: return 'tests fail: %d, e.g. %s' % (len(bad), bad[:3])
    else: return 'demo ok: ' + why.strip().replace('\n', ' | ')[:200]
    t = V + '/seeded/' + id
    shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
    return 'kept; demo: ' + why.strip().replace('\n', ' | ')
def check(id, props=None):
    s = SEEDS[id]
    R = W + '/m_' + id
    shutil.rmtree(R, ignore_errors=True)
    os.makedirs(R)
    for x in ('include', 'examples'): shutil.copytree('/repo/' + x, R + '/' + x)
    edit(R, s['edits'])
    out = []
    for p in props or [s['prop']]:
        r = sh('python3 %s/mc/check.py %s' % (os.environ.get('SEEDMC', V), p), env=dict(os.environ, TOK3N_REPO=R))
        out.append('%s rc=%d %s' % (p, r.returncode, r.stdout[:260].replace('\n', ' ')))
    shutil.rmtree(R)
    return ' || '.join(out)
if __name__ == '__main__':
    a = sys.argv[1:]
    mode = 'make'
    props = None
    while a and a[0].startswith('--'):
        if a[0] == '--check': mode = 'check'
        elif a[0] == '--quick': mode = 'quick'
        elif a[0].startswith('--props='): props = a[0][8:].split(',')
        elif a[0] == '--new': pass
        a = a[1:]
    if a == ['all']: a = list(SEEDS)
    if a == ['new']: a = [x for x in SEEDS if not os.path.exists(V + '/seeded/' + x)]
    if a == ['kept']: a = sorted(x for x in SEEDS if os.path.exists(V + '/seeded/' + x))
    for id in a:
        if mode == 'check': print(id, check(id, props), flush=True)
        else: print(id, make(id, mode == 'make'), flush=True)
