"""Abstract interpretation of unpacking an archive with hostile member names:
member names and the destination are known, contents and the state of the file
system are symbolic.  No path may open for writing, create or change anything
that is lexically outside of the destination, and no path may complete when a
member leaves the folder it belongs to."""
import itertools
import posixpath

from .. import constpath
from ..flow import effects, all_events, events
from ..std import *
from ..terms import *
from ..zipworld import ZipWorld, on_archive

DEST = '/w/ws/dest'
LINKS = ('os.symlink', 'os.link', 'symlink_to', 'hardlink_to')
BASE = [ZipWorld.META, ZipWorld.MANIFEST]

HOSTILE = ['../x', '..', '../../x', '../../../../../x', '/etc/x', '/x', '//x', 'a/../../x', './../x', 'a/./../../x', 'a//../../x',
           '../dest2/x', '../destx', '../dest/../y', '/w/ws/dest2/x', '/w/ws/destx', '/w/ws/dest/../x', 'a/b/../../../x',
           '../.hidden', '.../../../x', '..a/../../x', '/w/ws', '../code/x', '../data/x', 'a/../../dest2/../x', '../../ws/dest/../x']


def generated(depth):
    for n in range(1, depth + 1):
        for comps in itertools.product(('..', '.', '', 'a', 'dest2'), repeat=n):
            for start in ('', '/'):
                x = start + '/'.join(comps) + ('/f' if n < depth else '')
                if x:
                    yield x


def leaves(x):
    return constpath.outside(posixpath.join(DEST, x), DEST)


def judge(c, what, paths, name):
    for p in paths:
        for ev in events(p.trace):
            for eff in effects(ev):
                if eff.kind in ('write', 'mkdir', 'delete', 'rmtree', 'chmod', 'rename'):
                    t = eff.path
                    if t is not None and is_const(t) and isinstance(cval(t), bytes):
                        t = const(cval(t).decode('utf-8', 'replace'))
                    if ev.fn in LINKS and len(ev.args) > 1 and not is_const(ev.args['.' not in ev.fn]):
                        target = ev.args['.' not in ev.fn]
                        if any(contains(x.fn, target) for x in events(p.trace) if x.kind == 'assume'):
                            c.inconclusive(f'a link to {target!r} is made under some condition'[:200])
                        else:
                            c.violation(what, f'member {name!r}: a link to wherever the archive says is made inside of {DEST!r}, it leads outside', p.trace)
                        return
                    if t is not None and is_const(t) and isinstance(cval(t), str):
                        # a relative path that is not below the destination is below the current directory
                        if constpath.outside(cval(t), DEST) and not (
                                eff.kind == 'mkdir' and not constpath.outside(DEST, cval(t))):
                            c.violation(what, f'member {name!r}: {eff.kind} of {cval(t)!r}, outside of {DEST!r}', p.trace)
                            return
                    elif eff.kind == 'write':
                        c.inconclusive(f'path written is not known: {t!r}')
                        return
        if p.kind == 'return' and leaves(name.split('/', 1)[1]):
            c.violation(what, f'completes, although member {name!r} leaves its folder', p.trace)
            return
    c.ok(1, f'{what}: member {name!r} is refused, {len(paths)} paths')


def one(c, folder, method, args, name, first):
    names = [name, f'{folder}/good'] if first else [f'{folder}/good', name]
    w = ZipWorld(names + BASE, {}, {})
    paths = c.run(on_archive(c, method, args), excs=set(), **constpath.options(**w.options()))
    judge(c, f'ZipArchive.{method}', paths, name)
    return paths


def hostile(c):
    for folder, method, args in METHODS:
        for x in HOSTILE:
            one(c, folder, method, args, f'{folder}/{x}', False)


def generated_names(c):
    seen = set(HOSTILE)
    for x in generated(4 if c.thorough else 3):
        if x in seen or not leaves(x):
            continue
        seen.add(x)
        one(c, 'code', 'extract_dir', [const('code'), const(DEST)], f'code/{x}', True)
    c.cov['member names'] = len(seen)


METHODS = [
    ('code', 'extract_dir', [const('code'), const(DEST)]),
    ('code', 'unpack_code_to', [const(DEST)]),
    ('data', 'unpack_data_to', [const(DEST)]),
]


def sound(c):
    """The analysis sees what is written: a good member is written below the destination."""
    n = 0
    for folder, method, args in METHODS:
        w = ZipWorld([f'{folder}/good'] + BASE, {}, {})
        paths = c.run(on_archive(c, method, args), excs=set(), **constpath.options(**w.options()))
        for ev in all_events(paths):
            n += sum(1 for e in effects(ev) if e.kind in ('write', 'extract'))
    c.anchor(n, 'unpacking writes no file')


def check(c):
    c.rule('seen', 'writes of unpacking are recognised', sound, args=(c,))
    c.rule('hostile', 'hostile member names are refused', hostile, args=(c,))
    c.rule('generated', 'all member names built from a few components, that leave the folder, are refused', generated_names, args=(c,))
    c.assumptions = ['no symbolic links below the destination lead outside (unpacking creates none)', 'posix path syntax',
                     'zipfile.extract and extractall sanitize member names']
