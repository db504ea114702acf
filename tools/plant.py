#!/usr/bin/env python3
"""Development aid: make or re-confirm a planted bug.

usage: plant.py make SPEC.py      SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)], DEMO (python source)
       plant.py confirm [ID ...]  patch applies, builds, passes the stable tests, demo passes without and fails with it
       plant.py catch [ID ...]    run the property's check against each patched tree
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, 'seeded')
DEMO_SH = '''#!/bin/bash
# exit 0: the property holds in this demonstration
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 TZ=UTC LC_ALL=C.UTF-8
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(*cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def make(spec):
    s = runpy.run_path(spec)
    d = os.path.join(SEEDED, s['ID'])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s['EDITS']:
            p = '/repo/' + f
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git', '-C', '/repo', 'diff').stdout
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo.py'), 'w').write(s['DEMO'].lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    return s['ID']


def demo(i):
    r = sh('bash', os.path.join(SEEDED, i, 'demo.sh'), cwd='/repo', timeout=300)
    return r.returncode, r.stdout[-600:]


def original(i):
    """every removed line is a line of the original repository"""
    base = sh('git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD').stdout.split()[0]
    orig = json.load(open('/opt/vp/BASELINE.json')).get('commit') or base
    out = []
    f = None
    n = 0
    for line in open(os.path.join(SEEDED, i, 'patch.diff')):
        if line.startswith('--- a/'):
            f = line[6:].strip()
        elif line.startswith('@@'):
            n = int(line.split()[1].split(',')[0][1:])
        elif line.startswith('-') and not line.startswith('---'):
            b = sh('git', '-C', '/repo', 'blame', '-s', '-L', f'{n},{n}', 'HEAD', '--', f).stdout
            out.append(b[:100].strip())
            n += 1
        elif not line.startswith('+'):
            n += 1
    return out


def confirm(i):
    patch = os.path.join(SEEDED, i, 'patch.diff')
    rc, out = demo(i)
    if rc:
        return f'{i}: demo fails on the unchanged tree: {out}'
    r = sh('git', '-C', '/repo', 'apply', patch)
    if r.returncode:
        return f'{i}: does not apply {r.stdout}'
    try:
        r = sh('bash', '/opt/vp/build.sh')
        if r.returncode:
            return f'{i}: does not build {r.stdout[-300:]}'
        rc, out = demo(i)
        fd, name = tempfile.mkstemp(suffix='.json')
        os.close(fd)
        r = sh('bash', '/opt/vp/test.sh', name)
        res = open(name).read()
        os.unlink(name)
    finally:
        sh('git', '-C', '/repo', 'checkout', '--', '.')
        sh('bash', '/opt/vp/build.sh')
    if rc == 0:
        return f'{i}: demo passes with the bug: {out}'
    if not re.search(r'^154 passed, 0 failed', r.stdout, re.M):
        return f'{i}: tests fail: ' + '\n'.join(x for x in r.stdout.splitlines() if 'FAILED' in x or 'ERROR' in x)[:600]
    last = (out.strip().splitlines() or [''])[-1]
    blame = original(i)
    fixes = [b for b in blame if b.split()[0] in FIXES]
    return f'{i}: ok ({last[:110]})' + (f' CHANGES LINES OF FIX COMMITS {fixes}' if fixes else '')


def catch(i):
    pid = json.load(open(os.path.join(SEEDED, i, 'meta.json')))['property']
    d = tempfile.mkdtemp(prefix='plant', dir='/tmp')
    try:
        sh('cp', '-a', '/repo/.', d)
        r = sh('git', '-C', d, 'apply', os.path.join(SEEDED, i, 'patch.diff'))
        assert not r.returncode, r.stdout
        env = dict(os.environ, BEAD_VERIF_REPO=d)
        r = sh(sys.executable, os.path.join(VERIF, 'check.py'), pid, env=env, cwd=VERIF)
        v = [x for x in r.stdout.splitlines() if 'VIOLATION' in x]
        return f'{i}: {"caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode}'
    finally:
        shutil.rmtree(d)


FIXES = set()
for line in open(os.path.join(VERIF, 'known_findings.txt')):
    if line.startswith('fixed:'):
        FIXES.add(sh('git', '-C', '/repo', 'rev-parse', '--short', line.split()[2]).stdout.strip())

if __name__ == '__main__':
    cmd, *rest = sys.argv[1:]
    if cmd == 'make':
        for spec in rest:
            i = make(spec)
            print(confirm(i), flush=True)
            print(catch(i), flush=True)
    else:
        for i in rest or sorted(os.listdir(SEEDED)):
            print({'confirm': confirm, 'catch': catch}[cmd](i), flush=True)
