#!/usr/bin/env python3
"""mut.py FILE OLD NEW PROP... : apply a textual change in a scratch copy and run checks on it."""
import sys, os, subprocess, shutil, tempfile
f, old, new, props = sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:]
d = tempfile.mkdtemp(prefix='mut_', dir='/tmp')
shutil.copytree('/repo/tmdsimpy', d + '/tmdsimpy', ignore=shutil.ignore_patterns('__pycache__'))
p = os.path.join(d, f if f.startswith('tmdsimpy/') else 'tmdsimpy/' + f)
s = open(p).read()
old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
if s.count(old) < 1:
    print('PATTERN NOT FOUND', repr(old)); sys.exit(3)
if s.count(old) > 1: print('note: %d matches, replacing first' % s.count(old))
open(p, 'w').write(s.replace(old, new, 1))
for pr in props:
    r = subprocess.run(['python3', '/verif/check.py', pr], env=dict(os.environ, VERIF_REPO=d, VERIF_SEED='1'),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    ls = [l for l in r.stdout.split('\n') if l.startswith('rejected') or 'held' in l or 'error' in l]
    print(pr, 'rc', r.returncode, '|', ' ; '.join(ls)[:500])
shutil.rmtree(d)
