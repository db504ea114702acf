"""Guard analysis: on every path of the commands new and edit each effect on
the workspace directory comes after that directory was observed not to exist;
on every path of discard each removal is of exactly the workspace directory,
after the workspace was found valid or with force given, and happens before
the command completes; what counts as valid is decided by interpreting
Workspace.is_valid on directory trees with each part missing in turn.  On every
path of unload, delete, load, add and update a removal names the folder of an
input by a name found among the definitions of the workspace, and nothing else
is removed."""
from ..cli import run_command, ARGS, WS
from ..engine import Inconclusive
from ..flow import flow, effects, events, within, WRITES
from ..std import *
from ..terms import *
from ..terms import T
from ..world import FsWorld, FILE, Link
from .c10 import WSX, AR, DIR, INPUT, NICK, META, store, merged

WDIR = attr(WS, 'directory')
STOPPED = {FS + '.ensure_directory': 0, FS + '.write_file': 0, PERSIST + '.file_dump': 1, FS + '.make_readonly': 0, FS + '.make_writable': 0}
REMOVE = ('delete', 'rmtree', 'rename')


def touched(ev):
    """paths written, created, removed or changed by the event"""
    if ev.kind == 'call' and ev.fn in STOPPED and len(ev.args) > STOPPED[ev.fn]:
        yield ev.args[STOPPED[ev.fn]]
    elif ev.kind == 'call' and ev.fn == '@extract' and len(ev.args) > 1:
        yield ev.args[-1]
    elif ev.kind == 'call' and ev.fn == FS + '.rmtree':
        yield ev.args[0]
    else:
        for x in effects(ev):
            if x.kind in WRITES and x.path is not None:
                yield x.path


def removed(ev):
    if ev.kind == 'call' and ev.fn == FS + '.rmtree' and ev.args:
        yield ev.args[0]
    else:
        for x in effects(ev):
            if x.kind in REMOVE:
                yield x.path
            elif x.kind == 'write' and x.extra == 'replace':
                yield x.path


def absent(ev):
    """path observed not to exist"""
    if ev.kind == 'assume' and ev.x is False and isinstance(ev.fn, T):
        t = ev.fn
        if t.op == 'mcall' and t.a[1] in ('exists', 'lexists', 'is_dir'):
            return t.a[0]
        if t.op == 'call' and t.a[0] in ('os.path.exists', 'os.path.lexists', 'os.path.isdir') and t.a[1]:
            return t.a[1][0]


def fresh(c, name):
    """effects only below directories known not to have existed"""
    paths = run_command(c, name, stops={**EXTRACT, **SEARCH, **FSOPS, **HASH, ARCHIVE + '.validate': 'stop'}, excs={'LookupError'})
    done = 0
    for p in paths:
        def step(s, ev):
            q = absent(ev)
            if q is not None:
                return [s | {q}]
            for q in touched(ev):
                if not any(within(q, d) for d in s):
                    bad.append((ev, q))
            return [s]
        bad = []
        flow(p.trace, [frozenset()], step)
        for ev, q in bad[:1]:
            c.violation(name, f'changes {q!r} without having made sure that the directory did not exist: {ev.fn} at {ev.site}', p.trace)
        n = sum(1 for e in events(p.trace) for _ in touched(e))
        if not bad:
            c.ok(1, f'{name}: {p.kind} with {n} effects')
        if p.kind == 'return':
            done += n > 0
    if not done:
        c.violation(name, 'no path completes with a directory created', paths[0].trace)


FORCE = attr(ARGS, 'force')


def discard(c):
    valid = []

    def is_valid(e, qual, sargs, st, node):
        t = mk('call', '@valid', tuple(sargs[:1]), ())
        return [(t, st)]
    paths = run_command(c, 'discard', stops={**FSOPS, WORKSPACE + '.is_valid': is_valid}, excs=set())
    VALID = mk('call', '@valid', (WS,), ())
    done = 0
    for p in paths:
        def step(s, ev):
            guarded, gone = s
            if ev.kind == 'assume' and ev.x is True and (ev.fn is VALID or ev.fn is FORCE):
                guarded = True
            if ev.kind == 'assume' and ev.x is False and isinstance(ev.fn, T) and ev.fn.op == 'not' and ev.fn.a[0] in (VALID, FORCE):
                guarded = True
            if ev.kind == 'assume' and isinstance(ev.fn, T) and ev.fn not in (VALID, FORCE) and (contains(ev.fn, VALID) or contains(ev.fn, FORCE)):
                raise Inconclusive(f'condition {ev.fn!r}'[:200])
            for q in removed(ev):
                if q is not WDIR:
                    bad.append(f'removes {q!r} instead of the workspace directory')
                elif not guarded:
                    bad.append('removes a directory which is not a valid workspace, without force')
                else:
                    gone = True
            return [(guarded, gone)]
        bad = []
        ends = flow(p.trace, [(False, False)], step)
        for b in bad[:1]:
            c.violation('discard', b, p.trace)
        if p.kind == 'return':
            done += 1
            c.require(bad or all(g for _, g in ends), 'discard', 'completes without removing the workspace directory', p.trace)
        elif not bad:
            c.ok(1)
    if not done:
        c.violation('discard', 'never completes', paths[0].trace)


GOOD = {'input': {}, 'output': {}, 'temp': {}, '.bead-meta': {'bead': FILE}}


def broken_trees():
    yield 'complete', GOOD, True
    yield 'complete with files', {**GOOD, 'input': {'a': {'b': FILE}}, 'README': FILE}, True
    for n in ('input', 'output', 'temp', '.bead-meta'):
        yield f'without {n}', {k: v for k, v in GOOD.items() if k != n}, False
        yield f'{n} is a file', {k: FILE if k == n else v for k, v in GOOD.items()}, False
    yield 'without metadata', {**GOOD, '.bead-meta': {}}, False
    yield 'metadata is a folder', {**GOOD, '.bead-meta': {'bead': {}}}, False
    yield 'empty', {}, False


def validity(c):
    for name, tree, want in broken_trees():
        w = FsWorld(DIR, tree)
        paths = c.run(c.func(WORKSPACE + '.is_valid'), [], selfT=WSX, types={WSX: WORKSPACE}, excs=set(), **w.options())
        for p in paths:
            if p.kind == 'raise':
                if want:
                    c.violation('Workspace.is_valid', f'{name}: raises {p.value!r}', p.trace)
                continue
            if not is_const(p.value):
                raise Inconclusive(f'{name}: {p.value!r}'[:200])
            c.require(bool(cval(p.value)) == want, 'Workspace.is_valid', f'a directory tree ({name}) is {"not " if want else ""}taken for a valid workspace', p.trace)


def input_folder(q, d):
    """name when q is the folder of an input"""
    if q is not None and q.op == 'path' and len(q.a) == 3 and q.a[0] is d and q.a[1] is const('input'):
        return q.a[2]
    return None


def defined(ev):
    """name found among the definitions"""
    if ev.kind == 'assume' and ev.x is True and isinstance(ev.fn, T) and ev.fn.op == 'cmp' and ev.fn.a[0] == 'in':
        r = ev.fn.a[2]
        if any(x.op == 'idx' and is_const(x.a[1]) and cval(x.a[1]) == 'inputs' for x in walk(r)):
            return ev.fn.a[1]
    if ev.kind == 'assume' and ev.x is True and isinstance(ev.fn, T) and ev.fn.op == 'cmp' and ev.fn.a[0] == '==':
        for x, y in (ev.fn.a[1:3], ev.fn.a[2:0:-1]):
            if of_inputs(x):
                return y


def of_inputs(x):
    """a name taken from the definitions themselves"""
    return x.op == 'elem' and any(y.op == 'idx' and is_const(y.a[1]) and cval(y.a[1]) == 'inputs' for y in walk(x))


def judge(c, what, paths, d, needs_definition):
    n = 0
    for p in paths:
        bad = []

        def step(s, ev):
            q = defined(ev)
            if q is not None:
                return [s | {q}]
            for q in removed(ev):
                x = input_folder(q, d)
                if x is None:
                    if q is not None and any(y.op in ('phi', 'lv') for y in walk(q)):
                        raise Inconclusive(f'{q!r} is removed'[:200])
                    bad.append(f'removes {q!r} which is not the folder of the input')
                elif needs_definition and x not in s and not of_inputs(x):
                    bad.append(f'removes the folder of {x!r} without having found it among the defined inputs')
            return [s]
        flow(p.trace, [frozenset()], step)
        n += any(True for e in events(p.trace) for _ in removed(e))
        for b in bad[:1]:
            c.violation(what, b, p.trace)
        if not bad:
            c.ok(1)
    c.cov[f'{what}: paths with removals'] = n
    return n


def unload(c):
    for method in ('unload', 'delete_input'):
        for nick, has in (('nick', True), ('unknown', False), ('other', True)):
            for exc in (False, True):
                opts = store(META)
                opts['stops'] = {**opts['stops'], FS + '.rmtree': 'stop', FS + '.make_readonly': 'stop', FS + '.make_writable': 'stop'}
                paths = c.run(c.func(WORKSPACE + '.' + method), [const(nick)], selfT=WSX, types={WSX: WORKSPACE}, exc_all=exc,
                              excs=None if exc else set(), **opts)
                what = f'Workspace.{method}, {"defined" if has else "unknown"} input'
                for p in paths:
                    bad = None
                    for e in events(p.trace):
                        for q in removed(e):
                            if not has:
                                bad = f'{q!r} is removed'
                            elif q is not path((DIR, const('input'), const(nick))):
                                bad = f'{q!r} is removed and not only the folder of the input'
                    c.require(bad is None, what, bad, p.trace)
                if has and not exc and not any(p.kind == 'return' and any(True for e in events(p.trace) for _ in removed(e)) for p in paths):
                    c.violation(what, 'the folder of the input is not removed', paths[0].trace)


def commands(c):
    stops = {**EXTRACT, **SEARCH, **FSOPS, **HASH, ARCHIVE + '.validate': 'stop'}
    for name, needs in (('input unload', True), ('input delete', True), ('input load', False), ('input add', False), ('input update', False)):
        paths = run_command(c, name, stops=stops, excs={'LookupError', 'OSError'} if name != 'input update' else {'LookupError'})
        n = judge(c, name, paths, WDIR, needs)
        if not n and needs:
            c.violation(name, 'nothing is ever removed', paths[0].trace)


def check(c):
    c.rule('new', 'new changes only a directory observed not to exist before', fresh, args=(c, 'new'))
    c.rule('edit', 'edit changes only a directory observed not to exist before', fresh, args=(c, 'edit'))
    c.rule('discard', 'discard removes exactly the workspace directory, found valid or with force', discard)
    c.rule('valid', 'a directory is a valid workspace only with all its parts', validity)
    c.rule('unload', 'unload and delete remove the folder of the given input only, if defined', unload)
    c.rule('commands', 'input commands remove nothing but folders of (defined) inputs', commands)
