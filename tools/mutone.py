#!/usr/bin/env python3
"""Development aid: mutone.py CXX:n DIR - make the mutated copy in DIR."""
import os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate
pid, n = sys.argv[1].split(':')
d = sys.argv[2]
shutil.rmtree(d, ignore_errors=True)
os.makedirs(d)
for x in ('bead', 'bead_cli', 'tracelog.py'):
    s = '/repo/' + x
    (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
for k, kind, edits in mutate.cases(pid):
    if k == int(n):
        for fn, old, new in edits:
            p = os.path.join(d, fn)
            t = open(p).read()
            assert old in t, old
            open(p, 'w').write(t.replace(old, new, 1))
