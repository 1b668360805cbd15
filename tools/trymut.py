#!/usr/bin/env python3
"""Development aid: run checks against a scratch copy of /repo with one textual change.
trymut.py CHECK[,CHECK..] FILE OLD NEW   (FILE relative to /repo; OLD must occur exactly once, or N times with OLD@@k)"""
import sys, os, shutil, subprocess, tempfile
checks, edits = sys.argv[1], [sys.argv[i:i + 3] for i in range(2, len(sys.argv), 3)]
d = tempfile.mkdtemp(prefix='mut')
try:
    for x in ('include', 'examples'): shutil.copytree('/repo/' + x, d + '/' + x)
    for f, old, new in edits:
     p = d + '/' + f
     s = open(p).read()
     k = None
     if '@@' in old: old, k = old.rsplit('@@', 1); k = int(k)
     n = s.count(old)
     if k is None:
         assert n == 1, 'OLD occurs %d times' % n
         s = s.replace(old, new)
     else:
         parts = s.split(old); assert len(parts) > k + 1
         s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
     open(p, 'w').write(s)
    for c in checks.split(','):
        r = subprocess.run(['python3', '/verif/mc/check.py', c], env=dict(os.environ, TOK3N_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        print(c, 'rc=%d' % r.returncode, r.stdout[:int(os.environ.get('SHOW', '700'))])
finally:
    shutil.rmtree(d)
