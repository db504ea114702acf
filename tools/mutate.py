#!/usr/bin/env python3
"""Development aid: run the checks against mutated copies of the sources.

tools/mutants/CXX.txt holds cases separated by lines of '#### bad FILE' (the
check has to report a violation), '#### ok FILE' (behaviour is unchanged: every
check has to stay quiet); old and new text are separated by a line '===='.
Several edits in one case: separate them by '++++ FILE' lines.
usage: mutate.py [CXX[:n] ...] [-v] [--all]
"""
import os
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def cases(pid):
    text = open(os.path.join(HERE, 'mutants', pid + '.txt')).read()
    for n, part in enumerate(re.split(r'^#### ', text, flags=re.M)[1:], 1):
        head, body = part.split('\n', 1)
        kind, f = head.split()[:2]
        edits = []
        for i, sub in enumerate(re.split(r'^\+\+\+\+ ?(.*)\n', '++++ ' + f + '\n' + body, flags=re.M)[1:]):
            if i % 2 == 0:
                fn = sub.strip() or f
            else:
                old, new = sub.split('====\n', 1) if '\n====\n' in sub else sub.split('====', 1)
                edits.append((fn, old.rstrip('\n'), new.strip('\n')))
        yield n, kind, edits


def run(pid, n, kind, edits, checks):
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        for x in ('bead', 'bead_cli', 'tracelog.py'):
            s = '/repo/' + x
            (shutil.copytree if os.path.isdir(s) else shutil.copy)(s, os.path.join(d, x))
        for fn, old, new in edits:
            p = os.path.join(d, fn)
            t = open(p).read()
            if old not in t:
                return pid, n, kind, f'TEXT NOT FOUND: {old[:60]!r}', ''
            t = t.replace(old, new, 1)
            compile(t, p, 'exec')
            open(p, 'w').write(t)
        out = ''
        caught = False
        noise = []
        vague = []
        for c in checks:
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), c], capture_output=True, text=True,
                               env=dict(os.environ, BEAD_VERIF_REPO=d), timeout=900)
            if 'INCONCLUSIVE' in r.stdout:
                vague.append(c)
            if c == pid:
                out = r.stdout + r.stderr
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                if c == pid:
                    caught = True
                noise.append(c)
            elif r.returncode:
                noise.append(c + '!')
        if kind == 'bad':
            return pid, n, kind, ('caught' if caught else 'MISSED') + ((' also ' + ' '.join(x for x in noise if x != pid)) if noise and noise != [pid] else ''), out
        return pid, n, kind, ('quiet' if not vague else 'INCONCLUSIVE ' + ' '.join(vague)) if not noise else 'FALSE ALARM ' + ' '.join(noise), out
    finally:
        shutil.rmtree(d)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    everything = '--all' in sys.argv
    have = sorted(x[:-3].upper() for x in os.listdir(os.path.join(VERIF, 'sa', 'rules')) if re.match(r'c\d+\.py', x))
    want = args or sorted(x[:-4] for x in os.listdir(os.path.join(HERE, 'mutants')))
    jobs = []
    for w in want:
        pid, _, only = w.partition(':')
        for n, kind, edits in cases(pid):
            if only and int(only) != n:
                continue
            jobs.append((pid, n, kind, edits, have if everything or kind == 'ok' and '-1' not in sys.argv else [pid]))
    with ThreadPoolExecutor(7) as ex:
        for pid, n, kind, res, out in ex.map(lambda j: run(*j), jobs):
            bad = res.startswith(('MISSED', 'FALSE', 'TEXT'))
            print(f'{pid}:{n} {kind} {res}')
            if verbose or bad and kind == 'ok' or bad and '-q' not in sys.argv:
                print('\n'.join('      ' + l[:230] for l in out.splitlines()[-8:]))


if __name__ == '__main__':
    main()
