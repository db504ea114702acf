#!/usr/bin/env python3
"""DESIGN.md from design_head.md, the rules, the mutants and the seeded changes."""
import ast
import glob
import json
import os
import re
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def read(*p):
    return open(os.path.join(HERE, *p)).read()


def text(node):
    try:
        return ast.literal_eval(node)
    except ValueError:
        return None


def rule(pid):
    p = os.path.join(HERE, 'sa', 'rules', pid.lower() + '.py')
    if not os.path.exists(p):
        return None
    tree = ast.parse(open(p).read())
    names = {t.id: text(n.value) for n in ast.walk(tree) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    rules, assumed = [], []
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) > 1:
            what = text(n.args[1])
            if what is None and isinstance(n.args[1], ast.Name):
                what = names.get(n.args[1].id)
            rules.append((text(n.args[0]) or ast.unparse(n.args[0]), what or ''))
        tgt = n.targets[0] if isinstance(n, ast.Assign) else n.target if isinstance(n, ast.AugAssign) else None
        if tgt is not None and ast.unparse(tgt) == 'c.assumptions':
            assumed += text(n.value) or []
    return ' '.join(ast.get_docstring(tree).split()), rules, assumed


def main():
    fixed = []
    for l in read('known_findings.txt').splitlines():
        m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
        if m:
            fixed.append(f'| {m[1]} | {m[2]} | {m[3]} |')
    out = [read('tools', 'design_head.md').replace('@FIXED@', '\n'.join(fixed))]
    props = [json.loads(l) for l in read('properties.jsonl').splitlines()]
    out.append('## 5. Properties and how each is decided\n')
    for p in props:
        r = rule(p['id'])
        if not r:
            continue
        out.append(f"### {p['id']} {p['title']}\n\n{r[0]}\n")
        for name, what in r[1]:
            out.append(f'* `{name}`: {what}')
        if r[2]:
            out.append('\nAssumed: ' + '; '.join(r[2]) + '.')
        try:
            ev = json.loads(read('evidence', p['id'] + '.json'))
            cov = ev.get('coverage', {})
            n = {k: cov[k] for k in ('obligations', 'functions', 'paths') if isinstance(cov.get(k), (int, float))}
            if n:
                out.append('\nAnalysed (quick): ' + ', '.join(f'{v} {k}' for k, v in n.items()) + '.')
        except OSError:
            pass
        out.append('')
    out.append('## 6. Mutants\n\n`tools/mutate.py` applies each case of `tools/mutants/CXX.txt` to a copy of the tree: '
               '`bad` cases have to be reported by the check of the property, on `ok` cases (same behaviour) all checks have to stay quiet.\n')
    out.append('| check | bad | ok |\n|---|---|---|')
    b = o = 0
    for f in sorted(glob.glob(os.path.join(HERE, 'tools', 'mutants', '*.txt'))):
        t = open(f).read()
        x, y = t.count('#### bad'), t.count('#### ok')
        b, o = b + x, o + y
        out.append(f'| {os.path.basename(f)[:-4]} | {x} | {y} |')
    out.append(f'| all | {b} | {o} |\n')
    out.append('## 7. Seeded changes\n\nEach breaks its property, builds, passes the tests, and has a demonstration; '
               'all are caught by the check of their property.'
               ' Written from the property text first; those missed at first led to stronger checks (noted).\n')
    out.append('| seeded | property | what it breaks | needs |\n|---|---|---|---|')
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded', '*'))):
        m = json.load(open(os.path.join(d, 'meta.json')))
        out.append(f"| {os.path.basename(d)} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    out.append('\n' + read('tools', 'design_tail.md'))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))


main()
