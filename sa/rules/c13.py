"""Case analysis over directory trees with symbolic links at every kind of
position (to files, to folders with content, broken, nested, next to equally
named entries): removing a tree, discarding a workspace and unloading an input
are interpreted on such a tree with everything protected.  No permission change
or removal may name a link's target (follow a link) or anything reached through
a link; every real folder is made writable before the tree is removed; the
whole tree is removed on every completing path."""
from ..cli import run_command, ARGS, WS
from ..engine import Inconclusive
from ..flow import flow, effects, events, within, rel
from ..modes import mode, effect, known_bits, stat_of
from ..std import *
from ..terms import *
from ..terms import T
from ..world import FsWorld, Link, FILE
from .c10 import WSX, AR, DIR, INPUT, NICK, META, store, merged, modes_set, learn, change
from .c12 import FORCE, WDIR

ROOT = sym('tree')
TREES = {
    'plain': {'a': FILE, 'd': {'b': FILE, 'e': {}}},
    'links': {'lf': Link('file'), 'ld': Link('dir', {'outside': FILE, 'sub': {'deep': FILE}}), 'lb': Link('broken'), 'a': FILE},
    'nested links': {'d': {'.h': {'lf': Link('file'), 'ld': Link('dir', {'d': {'x': FILE}, 'll': Link('file')})}, 'lb': Link('broken')}, '.l': Link('dir', {'y': FILE})},
    'empty': {},
}


def through_link(w, q):
    """-> 'link' / 'below a link' / None"""
    comps = rel(q, w.root)
    if comps is None:
        return None
    node = w.tree
    for i, x in enumerate(comps):
        ch = w.children(node) if node is not FILE else {}
        node = next((v for k, v in ch.items() if const(k) is x), KeyError)
        if node is KeyError:
            return None
        if isinstance(node, Link):
            return 'link' if i == len(comps) - 1 else 'below a link'


def follows(ev):
    f = ev.kwarg('follow_symlinks')
    return not (ev.fn == 'lchmod' or ev.fn == 'os.lchmod' or f is FALSE)


def judge(c, what, w, paths, allowed=()):
    dirs = {w.root} | {w.term(comps) for comps, node in w.paths() if isinstance(node, dict)}
    everything = {w.root} | {w.term(comps) for comps, node in w.paths()}
    n = 0
    for p in paths:
        if any(e.kind == 'loop' and any(effects(x) for x in events([e])) for e in events(p.trace)):
            raise Inconclusive('files are changed in a loop over unknown files')
        bad = []

        def step(s, ev):
            lits, open_, gone = s
            lits = learn(lits, ev)
            for q, m in modes_set(ev):
                if any(q is a for a in allowed):
                    continue
                kind = through_link(w, q)
                if kind == 'below a link' or kind == 'link' and follows(ev):
                    bad.append(f'permissions of {q!r} are changed, which is {"the target of a link" if kind == "link" else "reached through a link"}')
                elif not within(q, w.root):
                    if q.op in ('elem', 'lv', 'phi'):
                        raise Inconclusive(f'permissions of {q!r}')
                    bad.append(f'permissions of {q!r} are changed')
                else:
                    clears, sets, keeps = change(q, m, lits)
                    open_ = open_ - {q} if clears else open_ | {q} if sets else open_
            for x in effects(ev):
                if x.kind == 'rmtree':
                    kind = through_link(w, x.path)
                    if not within(x.path, w.root):
                        bad.append(f'{x.path!r} is removed')
                    elif kind == 'below a link':
                        bad.append(f'{x.path!r} is removed, which is reached through a link')
                    else:
                        sub = {d for d in dirs if within(d, x.path)}
                        if sub - open_:
                            bad.append(f'{sorted(map(repr, sub - open_))[0]} is still read-only when it is removed')
                        gone = gone | {q for q in everything if within(q, x.path)}
                elif x.kind == 'delete':
                    kind = through_link(w, x.path)
                    if not within(x.path, w.root):
                        bad.append(f'{x.path!r} is removed')
                    elif kind == 'below a link':
                        bad.append(f'{x.path!r} is removed, which is reached through a link')
                    else:
                        parent = path(x.path.a[:-1]) if x.path.op == 'path' else None
                        if parent in dirs and parent not in open_:
                            bad.append(f'{x.path!r} is removed while its folder is still read-only')
                        gone = gone | {x.path}
                elif x.kind in ('rename', 'write') and x.path is not None and within(x.path, w.root):
                    raise Inconclusive(f'{x!r}')
            return [(lits, open_, gone)]
        ends = flow(p.trace, [(frozenset(), frozenset(), frozenset())], step)
        for b in bad[:1]:
            c.violation(what, b, p.trace)
        if p.kind != 'return':
            continue
        n += 1
        left = [sorted(map(repr, everything - g))[0] for _, _, g in ends if everything - g]
        if not bad:
            c.require(not left, what, f'{left[:1]!r} is not removed', p.trace)
    if not n:
        c.violation(what, f'never completes: {paths[0].value!r}', paths[0].trace)


def rmtree(c):
    for name, tree in TREES.items():
        w = FsWorld(ROOT, tree)
        paths = c.run(c.func(FS + '.rmtree'), [ROOT], excs=set(), **w.options())
        judge(c, f'fs.rmtree on {name}', w, paths)


def discard(c):
    def is_valid(e, qual, sargs, st, node):
        return [(TRUE, st)]
    for name, tree in TREES.items():
        w = FsWorld(WDIR, tree)
        o = w.options()
        o['stops'] = {WORKSPACE + '.is_valid': is_valid}
        paths = run_command(c, 'discard', excs=set(), **o)
        judge(c, f'discard on {name}', w, paths)


def unload(c):
    for name, tree in TREES.items():
        w = FsWorld(NICK, tree)
        paths = c.run(c.func(WORKSPACE + '.unload'), [const('nick')], selfT=WSX, types={WSX: WORKSPACE}, excs=set(), **merged(w.options(), store(META)))
        judge(c, f'unload on {name}', w, paths, allowed=[INPUT])


def check(c):
    c.rule('rmtree', 'removal of a tree: everything in it goes, nothing is followed through a link', rmtree)
    c.rule('discard', 'discarding: everything in the workspace goes, nothing is followed through a link', discard)
    c.rule('unload', 'unloading: everything in the folder of the input goes, nothing is followed through a link', unload)
