#!/usr/bin/env python3
"""development helper: apply an edit to a scratch copy of /repo and run checks on it.
mut.py PROPS FILE OLD NEW [FILE OLD NEW ...]   or  mut.py PROPS patch.diff"""
import os, shutil, subprocess, sys, tempfile
props = sys.argv[1].split(',')
d = tempfile.mkdtemp(prefix='mut')
try:
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, ignore=shutil.ignore_patterns('target', '.git'), symlinks=True)
    a = sys.argv[2:]
    if len(a) == 1:
        subprocess.check_call(['git', 'apply', '--directory=', os.path.abspath(a[0])], cwd=r) if False else subprocess.check_call(['patch', '-p1', '-s', '-i', os.path.abspath(a[0])], cwd=r)
    else:
        for f, o, n in zip(a[0::3], a[1::3], a[2::3]):
            p = os.path.join(r, f)
            s = open(p).read()
            assert s.count(o) >= 1, 'not found: ' + o
            open(p, 'w').write(s.replace(o, n, 1))
    e = dict(os.environ, GRANNE_REPO=r)
    rc = 0
    for p in props:
        x = subprocess.run([sys.executable, '/verif/check.py', p], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True)
        print(p, 'exit', x.returncode)
        print('\n'.join(l for l in x.stdout.splitlines() if l.startswith(('VIOL', '  ', 'cannot', 'error', 'Trace')) or 'rror' in l)[:3000])
finally:
    shutil.rmtree(d)
