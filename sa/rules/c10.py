"""Loading into a directory tree with known shape (nested, hidden, empty
folders): on every completing path each file and directory below the folder of
the input gets, as its last permission change, a mode computed as a bit
function of its own mode which clears owner write and keeps all other bits.
Typestate of the folder of inputs over all paths of load, unload and delete,
with a failure or interruption possible at every call: the last permission
change that took effect before leaving clears owner write."""
from ..engine import Inconclusive
from ..flow import flow, effects, events, within, rel
from ..metastore import MetaStore
from ..modes import mode, effect, known_bits, stat_of
from ..std import *
from ..terms import *
from ..terms import T
from ..world import FsWorld, Link, FILE

WSX, AR = sym('workspace'), sym('archive')
DIR = attr(WSX, 'directory')
INPUT = path((DIR, const('input')))
NICK = path((DIR, const('input'), const('nick')))
RECORD = {'kind': sym('k'), 'content_id': sym('c'), 'freeze_time': sym('t')}
META = {'kind': sym('kind'), 'inputs': {'nick': RECORD, 'other': RECORD}}
S1, S2 = sym('some file'), sym('some folder')
TREES = {
    'flat': {'a': FILE, '.hidden': FILE},
    'nested': {'a': FILE, S1: FILE, 'd': {'b': FILE, 'e': {'c': FILE, '.f': {'g': FILE}}}, '.git': {'x': FILE}, 'empty': {},
               S2: {'x.zip': FILE, 'empty': {}}},
    'only folders': {'d': {'e': {}}},
    'empty': {},
}


def modes_set(ev):
    """-> (path, mode term) of a permission change"""
    for x in effects(ev):
        if x.kind == 'chmod':
            a = ev.args
            if ev.kind == 'mcall':
                m = a[1] if len(a) > 1 else ev.kwarg('mode')
            else:
                if ev.fn not in ('os.chmod', 'os.lchmod'):
                    raise Inconclusive(f'permissions changed by {ev.fn}')
                m = ev.arg(1, 'mode')
            yield x.path, m


def learn(lits, ev):
    """what is known about file modes (literals), after the event"""
    if ev.kind == 'assume' and isinstance(ev.fn, T) and any(stat_of(x) is not None for x in walk(ev.fn)):
        return lits | {(ev.fn, ev.x)}
    return lits


def change(q, m, lits):
    """-> (clears owner write, sets owner write, keeps all the rest)"""
    lits = dict(lits)
    f = mode(m, q, lits)
    if f is None:
        raise Inconclusive(f'mode {m!r}'[:200])
    return effect(f, known_bits(lits, q))


def store(meta):
    s = MetaStore(meta)
    o = s.options()
    o['stops'] = {**HASH, **EXTRACT, **o['stops']}
    return o


def merged(a, b):
    out = {k: dict(a.get(k) or {}) for k in ('stops', 'xhooks', 'mhooks')}
    for k in out:
        out[k].update(b.get(k) or {})
    for k in set(a) | set(b):
        if k not in out:
            out[k] = b.get(k, a.get(k))
    return out


def protect(c):
    for name, tree in TREES.items():
        w = FsWorld(NICK, tree)
        opts = merged(w.options(), store(META))
        paths = c.run(c.func(WORKSPACE + '.load'), [const('nick'), AR], selfT=WSX, types={WSX: WORKSPACE, AR: ARCHIVE},
                      excs=set(), **opts)
        targets = [(w.term(comps), node) for comps, node in w.paths()]
        targets.append((NICK, tree))
        n = 0
        for p in paths:
            if p.kind != 'return':
                continue
            n += 1
            if any(e.kind == 'loop' and any(True for x in events([e]) for _ in modes_set(x)) for e in events(p.trace)):
                raise Inconclusive('permissions are changed in a loop over unknown files')

            def step(s, ev):
                lits, last = learn(s[0], ev), s[1]
                for q, m in modes_set(ev):
                    if q.op in ('phi', 'lv', 'elem', 'idx'):
                        raise Inconclusive(f'permissions of {q!r} are changed')
                    last = frozenset(x for x in last if x[0] is not q) | {(q,) + change(q, m, lits)}
                return [(lits, last)]
            for lits, last in flow(p.trace, [(frozenset(), frozenset())], step):
                last = {x[0]: x[1:] for x in last}
                for t, node in targets:
                    what = 'directory' if isinstance(node, dict) else 'file'
                    if t not in last:
                        c.violation(f'load, {name} data', f'{what} {t!r} is not made read-only', p.trace)
                        continue
                    clears, sets, keeps = last[t]
                    c.require(clears, f'load, {name} data', f'{what} {t!r} keeps its owner write permission', p.trace)
                    c.require(keeps, f'load, {name} data', f'other permissions of {what} {t!r} are changed', p.trace)
        if not n:
            c.violation(f'load, {name} data', 'never completes', paths[0].trace)


def automaton(c, what, p, start='ro'):
    """last effective permission change of the folder of inputs"""
    bad = []

    def step(s, ev):
        cur, pending, exempt, lits = s
        lits = learn(lits, ev)
        if pending is not None:
            if ev.kind == 'raise':
                # failing to protect can not be helped
                exempt = exempt or pending in ('ro', 'stat')
            elif pending != 'stat':
                cur, exempt = pending, False
            pending = None
        for q, m in modes_set(ev):
            if q is INPUT:
                clears, sets, keeps = change(q, m, lits)
                pending = 'ro' if clears else 'rw' if sets else cur
                if not keeps:
                    bad.append((ev, 'other permissions of the folder of inputs are changed'))
        if ev.kind in ('call', 'mcall', 'query') and ev.fn in ('os.stat', 'stat', 'os.lstat') and ev.args and ev.args[0] is INPUT and cur == 'rw':
            pending = 'stat'
        return [(cur, pending, exempt, lits)]
    out = flow(p.trace, [(start, None, False, frozenset())], step)
    for ev, msg in bad:
        c.violation(what, msg, p.trace)
    return {(cur if pending in (None, 'stat') else pending, exempt) for cur, pending, exempt, lits in out}, not bad


def folder(c):
    for method, args, stops in (
            ('load', [const('nick'), AR], {FS + '.all_subpaths': 'pure'}),
            ('unload', [const('nick')], {}),
            ('delete_input', [const('nick')], {})):
        opts = store(META)
        opts['stops'] = {**opts['stops'], FS + '.rmtree': 'stop', **stops}
        paths = c.run(c.func(WORKSPACE + '.' + method), args, selfT=WSX, types={WSX: WORKSPACE, AR: ARCHIVE}, exc_all=True, ki=True, **opts)
        touched = 0
        for p in paths:
            ends, ok = automaton(c, method, p)
            touched += any(q is INPUT for e in events(p.trace) for q, m in modes_set(e))
            for cur, exempt in ends:
                if cur != 'ro' and not (exempt and p.kind == 'raise'):
                    c.violation(method, f'leaves the folder of inputs writable when it ends ({"normally" if p.kind == "return" else p.value!r})', p.trace)
                    ok = False
            if ok:
                c.ok(1, f'{method}: {p.kind} after {len(p.trace)} events')
        c.cov[f'{method} paths that change the folder'] = touched


def new(c):
    """creating a workspace, and unpacking one"""
    cases = (('create', c.func(WORKSPACE + '.create'), [sym('kind')], WSX, {}),
             ('unpack_to', c.func(ARCHIVE + '.unpack_to'), [WSX], AR, EXTRACT))
    for what, f, args, me, stops in cases:
        opts = store(META)
        opts['stops'] = {**opts['stops'], **stops}
        n = 0
        for p in c.run(f, args, selfT=me, types={WSX: WORKSPACE, AR: ARCHIVE}, excs=set(), **opts):
            if p.kind != 'return':
                continue
            n += 1
            if any(x.kind == 'mkdir' and x.path is INPUT and (len(ev.args) > 1 or ev.kwarg('mode') is not None) for ev in events(p.trace) for x in effects(ev)):
                raise Inconclusive('folder created with a mode')
            ends, ok = automaton(c, what, p, 'rw')
            c.require(ok and all(cur == 'ro' for cur, exempt in ends), what, 'leaves the folder of inputs of the new workspace writable', p.trace)
        if not n:
            raise Inconclusive(f'{what} never completes')


def check(c):
    c.rule('new', 'the folder of inputs of a new workspace is read-only', new)
    c.rule('protect', 'everything below the folder of a loaded input ends up without owner write permission, other permissions kept', protect)
    c.rule('folder', 'the folder of inputs is read-only at every exit of load, unload and delete', folder)
