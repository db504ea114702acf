#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the rules present in sa/rules."""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

NA = {
    'C40': 'byte-for-byte equality of what comes out of zip compression, JSON and the file system for every content is a '
           'fact about runtime values inside zlib/zipfile; the statically decidable parts are C03, C04, C05, C06, C08 and C32',
    'C41': 'depends on the interleaving of operating system calls of several processes and on SQLite locking; the source '
           'has no locks, ownership or ordering a static rule could check',
    'C45': 'running time and memory are runtime quantities; no sound static bound is in reach',
}


def main():
    checks, na = [], []
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        pid = json.loads(line)['id']
        path = os.path.join(HERE, 'sa', 'rules', pid.lower() + '.py')
        if os.path.exists(path):
            mod = importlib.import_module(f'sa.rules.{pid.lower()}')
            doc = ' '.join(mod.__doc__.split())
            note = getattr(mod, 'NOTE', 'sound up to the models of the Python library used by the engine; anything the '
                           'analysis cannot decide is reported as INCONCLUSIVE in the output and the evidence, not as a violation')
            checks.append(dict(property=pid, quick_cmd=f'python3 check.py {pid}',
                               thorough_cmd=f'python3 check.py {pid} --tier thorough',
                               technique='static analysis: ' + getattr(mod, 'TECHNIQUE', doc), level='other', level_note=note))
        else:
            na.append(dict(property=pid, reason=NA.get(pid, 'no static rule has been built for it (yet)')))
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks,', len(na), 'not applicable')


main()
