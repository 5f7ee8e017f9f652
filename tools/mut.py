#!/usr/bin/env python3
"""tools/mut.py FILE OLD NEW CHECK...   runs checks against a scratch copy of /repo/include in which
the text OLD (first occurrence, or N-th with OLD@@N) of FILE is replaced by NEW."""
import os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, old, new, checks = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
n = 1
if '@@' in old:
    old, n = old.split('@@'); n = int(n)
d = tempfile.mkdtemp(prefix='mut-')
try:
    shutil.copytree(os.environ.get('PBT_BASE', '/repo') + '/include', d + '/include')
    for x in ('example', 'script', 'time'):
        shutil.copytree(os.environ.get('PBT_BASE', '/repo') + '/' + x, d + '/' + x)
    p = os.path.join(d, 'include', f)
    s = open(p).read()
    i = -1
    for _ in range(n):
        i = s.find(old, i + 1)
        if i < 0:
            sys.exit('text not found: ' + old)
    open(p, 'w').write(s[:i] + new + s[i + len(old):])
    for c in checks:
        e = dict(os.environ, PBT_REPO=d, PBT_EVIDENCE=d + '/ev.json', PBT_NOFUZZ='1')
        r = subprocess.run(['python3', os.path.join(ROOT, 'run.py'), c], env=e, capture_output=True, text=True)
        v = [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'failure'))]
        print(c, 'rc', r.returncode, ' | '.join(x[:230] for x in v) or r.stdout.strip().splitlines()[-1:][0][:200])
finally:
    shutil.rmtree(d, ignore_errors=True)
