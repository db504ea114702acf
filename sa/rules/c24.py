"""Typestate of the rewritten file over all paths of every operation that
rewrites it, with an exception or an interruption possible at every call.  The
file itself is never opened for writing, written, deleted or moved away: a new
file is put in its place by one rename, and on the path to that rename the
written file was opened empty, written without a failure and closed.  An
operation that ends normally has replaced the file."""
from ..engine import Inconclusive
from ..flow import flow, effects, events, all_events
from ..std import *
from ..terms import *
from ..terms import T

WSX = sym('workspace')
ENV = 'bead_cli.environment.Environment'
SAME_M = {'resolve', 'absolute', 'expanduser', 'as_posix', '__str__', '__fspath__'}
SAME_F = {'os.path.realpath', 'os.path.abspath', 'os.path.normpath', 'os.path.expanduser', 'os.fspath', 'builtins.str', 'pathlib.Path',
          'os.path.join', 'os.readlink'}
OPENS = {'builtins.open', 'io.open', 'codecs.open', 'os.fdopen', 'os.open'}
WHOLE = {'write_text', 'write_bytes'}


def plain(t, memo=None):
    """the term without the functions which name the same file differently"""
    if isinstance(t, tuple):
        return tuple(plain(x) for x in t)
    if not isinstance(t, T) or not t.a or t.op in ('const', 'sym'):
        return t
    a = [plain(x) if isinstance(x, (T, tuple)) else x for x in t.a]
    if t.op == 'mcall' and a[1] in SAME_M:
        return a[0]
    if t.op == 'call' and a[0] in SAME_F and len(a[1]) == 1:
        return a[1][0]
    if t.op == 'path':
        return path(a)
    return mk(t.op, *a)


def temp(t):
    """the call that has made the temporary file a term is about"""
    for y in walk(t):
        if y.op == 'call' and y.a[0].startswith('tempfile.'):
            return y
    return None


def key(t):
    """which file"""
    return temp(t) or plain(t)


def handle(t):
    """-> the file an open file object belongs to"""
    for y in walk(t):
        if y.op == 'call' and y.a[0] in OPENS and y.a[1]:
            return key(y.a[1][0])
        if y.op == 'mcall' and y.a[1] == 'open':
            return key(y.a[0])
        if y.op == 'call' and y.a[0].startswith('tempfile.'):
            return y
    return None


def opened(ev):
    """-> file that is opened empty for writing"""
    for x in effects(ev):
        if x.kind == 'write' and x.extra != 'replace' and x.extra != 'copy':
            return key(x.path)
        if x.kind == 'mkdir' and x.extra == 'temp' and ev.res is not None:
            return key(ev.res)
    return None


OLD = 'opened with what was left in it'


def keeps(ev):
    """is the old content kept by opening"""
    if ev.fn not in ('builtins.open', 'io.open', 'codecs.open', 'open'):
        return False
    mode = ev.arg(0 if ev.kind == 'mcall' and ev.fn == 'open' else 1, 'mode')
    if ev.kind == 'mcall' and len(ev.args) > 1:
        mode = ev.args[1]
    return mode is not None and is_const(mode) and isinstance(cval(mode), str) and ('r' in cval(mode) or 'a' in cval(mode))


def moved(ev):
    """-> (from, to, whether in one step)"""
    for x in effects(ev):
        if x.kind == 'rename' and x.extra is not None:
            return key(x.path), key(x.extra), ev.fn != 'shutil.move'
    return None


def writes(ev):
    """-> file an event writes through an open file"""
    if ev.kind == 'call' and ev.fn in ('json.dump', 'pickle.dump', 'builtins.print', 'shutil.copyfileobj', 'os.write'):
        for a in (ev.args[:1] if ev.fn == 'os.write' else ev.args[1:]) + tuple(v for k, v in ev.kw if k in ('fp', 'file')):
            h = handle(a)
            if h is not None:
                return h
    if ev.kind == 'mcall' and ev.fn in ('write', 'writelines') and ev.args:
        return handle(ev.args[0])
    return None


def closes(ev):
    """-> (file, whether normally)"""
    if ev.kind == 'mcall' and ev.args:
        if ev.fn in ('close', 'flush'):
            return handle(ev.args[0]), True
        if ev.fn == '__exit__':
            failing = len(ev.args) > 1 and is_const(ev.args[1]) and cval(ev.args[1]) is True
            return handle(ev.args[0]), not failing
    if ev.kind == 'call' and ev.fn == 'os.close' and ev.args:
        return handle(ev.args[0]), True
    return None


def resolved(t, trace):
    """is the path that of the file itself when the name is a symbolic link"""
    for y in walk(t):
        if y.op == 'call' and y.a[0] in ('os.path.realpath', 'os.readlink') or y.op == 'mcall' and y.a[1] in ('resolve', 'readlink'):
            return True
    for ev in events(trace):
        if ev.kind == 'assume' and ev.x is False:
            l = ev.fn
            if l.op == 'call' and l.a[0] == 'os.path.islink' or l.op == 'mcall' and l.a[1] == 'is_symlink':
                return True
    return False


def absent(ev):
    """-> file that is known not to exist"""
    if ev.kind == 'assume' and ev.x is False:
        l = ev.fn
        if l.op == 'call' and l.a[0] in ('os.path.exists', 'os.path.isfile', 'os.path.lexists') and l.a[1]:
            return key(l.a[1][0])
        if l.op == 'mcall' and l.a[1] in ('exists', 'is_file'):
            return key(l.a[0])
    return None


def automaton(target, p, bad):
    looped = {writes(e) for x in events(p.trace) if x.kind == 'loop' for e in events([x])} - {None}

    def status(files, k):
        return dict(files).get(k)

    def put(files, k, v):
        return frozenset(x for x in files if x[0] is not k) | {(k, v)}

    def after(files, done, op):
        """the operation has worked"""
        kind, k = op[:2]
        if kind == 'open':
            return put(files, k, 'open'), done
        if kind == 'reopen':
            return put(files, k, 'open' if status(files, k) == 'gone' else OLD), done
        if kind == 'whole':
            return put(files, k, 'complete'), done
        if kind == 'write':
            return (put(files, k, 'written'), done) if status(files, k) in ('open', 'written') else (files, done)
        if kind == 'close':
            s = status(files, k)
            return put(files, k, 'complete' if s in ('written', 'complete') or k in looped and s == 'open' else s), done
        if kind == 'copy':
            return put(files, k, status(files, op[2]) or '?'), done
        if kind == 'move':
            s = status(files, k) or '?'
            return put(put(files, op[2], s), k, 'gone'), done or op[2] is target
        return files, done

    def step(s, ev):
        files, done, op = s
        if op is not None:
            if ev.kind == 'raise':
                if op[0] in ('open', 'reopen') and status(files, op[1]) is None:
                    files = put(files, op[1], 'not opened')
                elif op[0] in ('open', 'reopen', 'write', 'whole', 'close'):
                    files = put(files, op[1], 'broken')
                elif op[0] == 'copy':
                    files = put(files, op[1], 'broken')
            else:
                files, done = after(files, done, op)
            op = None
        k = absent(ev)
        if k is not None and k is not target:
            files = put(files, k, 'gone')
        if ev.kind not in ('call', 'mcall', 'query'):
            return [(files, done, op)]
        # the file itself
        m = moved(ev)
        if m:
            src, dst, once = m
            if src is target:
                bad.append((ev, 'the file is moved away before the new one is in place'))
            if dst is target:
                st = status(files, src)
                if not resolved([x.extra for x in effects(ev) if x.kind == 'rename'][0], p.trace):
                    bad.append((ev, 'a file reached by a symbolic link is not rewritten: the link is replaced'))
                elif not once:
                    bad.append((ev, 'the file is replaced by shutil.move, which may copy'))
                elif st is None:
                    raise Inconclusive(f'{src!r} replaces the file'[:200])
                elif st != 'complete':
                    bad.append((ev, 'the file is replaced by one that is '
                                + {'open': 'not written and closed yet', 'written': 'not closed yet', 'broken': 'only partially written'}.get(st, st)))
            return [(files, done, ('move', src, dst))]
        for x in effects(ev):
            if x.path is not None and key(x.path) is not target and x.kind in ('delete', 'rmtree'):
                files = put(files, key(x.path), 'gone')
            if x.path is None or key(x.path) is not target:
                continue
            if x.kind == 'write' or x.kind in ('chmod',) and ev.fn in ('os.truncate',):
                bad.append((ev, 'the file is rewritten in place'))
            elif x.kind in ('delete', 'rmtree'):
                bad.append((ev, 'the file is deleted before the new one is in place' if not done else 'the file is deleted'))
        if ev.kind == 'mcall' and ev.fn == 'truncate' and handle(ev.args[0]) is target:
            bad.append((ev, 'the file is rewritten in place'))
        # new files
        for x in effects(ev):
            if x.kind == 'write' and x.extra == 'copy':
                return [(files, done, ('copy', key(x.path), key(ev.arg(0, 'src'))))]
        k = opened(ev)
        if k is not None:
            return [(files, done, ('whole' if ev.fn in WHOLE else 'reopen' if keeps(ev) else 'open', k))]
        if ev.kind == 'mcall' and ev.fn == 'truncate' and status(files, handle(ev.args[0])) == OLD:
            return [(put(files, handle(ev.args[0]), 'open'), done, op)]
        k = writes(ev)
        if k is not None:
            return [(files, done, ('write', k))]
        k = closes(ev)
        if k is not None and k[0] is not None:
            return [(put(files, k[0], 'broken') if not k[1] else files, done, ('close', k[0]))]
        return [(files, done, op)]
    ends = flow(p.trace, [(frozenset(), False, None)], step)
    ends = {(after(f, d, op) if op else (f, d)) for f, d, op in ends}
    left = [k for f, _ in ends for k, st in f if k is not target and st not in ('gone', 'not opened')]
    return {d for _, d in ends}, left


def examine(c, what, target, paths, must):
    n = 0
    for p in paths:
        bad = []
        ends, left = automaton(target, p, bad)
        touched = any(x.path is not None and key(x.path) is target for e in events(p.trace) for x in effects(e))
        n += touched
        for ev, msg in bad:
            c.violation(f'{what} at {ev.site}', msg, p.trace)
        if not bad:
            if must and p.kind == 'return' and ends != {True}:
                c.violation(what, 'ends normally without the new content in the file', p.trace)
            elif left and p.kind != 'return' and len({ev.x for ev in events(p.trace) if ev.kind == 'raise'}) == 1:
                c.violation(what, f'the failure leaves the file {left[0]!r} behind'[:200], p.trace)
            else:
                c.ok(1, f'{what}: {p.kind} after {len(p.trace)} events')
    c.cov[f'paths of {what} that touch the file'] = n
    return n


def only_read(c, paths, what):
    """the one file that is read"""
    found = set()
    for e in all_events(paths):
        if e.kind == 'call' and e.fn in ('builtins.open', 'io.open') and e.args:
            found.add(plain(e.args[0]))
        elif e.kind == 'mcall' and e.fn in ('open', 'read_text', 'read_bytes') and e.args:
            found.add(plain(e.args[0]))
    if len(found) != 1:
        raise Inconclusive(f'{what} reads {len(found)} files')
    return found.pop()


def workspace(c):
    info = c.a.classes[WORKSPACE]
    paths = c.run(info.props['meta']['get'], [], selfT=WSX, types={WSX: WORKSPACE})
    target = only_read(c, paths, 'metadata of a workspace')
    c.anchor(info.props.get('meta', {}).get('set') is not None, WORKSPACE + '.meta setter')
    paths = c.run(info.props['meta']['set'], [sym('content')], selfT=WSX, types={WSX: WORKSPACE}, exc_all=True, ki=True)
    examine(c, 'setting metadata', target, paths, True)
    rewriting = 0
    stops = {FS + '.rmtree': 'stop', FS + '.make_readonly': 'stop', FS + '.make_writable': 'stop', FS + '.all_subpaths': 'pure',
             FS + '.ensure_directory': 'stop', **HASH, **EXTRACT}
    for name in sorted(info.attrs):
        if name in ('create', 'create_directories', 'pack') or name.startswith('__'):
            continue
        f = info.attrs[name]
        if f.op != 'func':
            continue
        args = [x.arg for x in c.a.funcs[f.a[0]].node.args.args][1:]
        try:
            paths = c.run(f, [sym(x) for x in args], selfT=WSX, types={WSX: WORKSPACE, sym('bead'): ARCHIVE}, exc_all=True, ki=True, stops=stops)
        except Inconclusive as e:
            c.inconclusive(f'{name}: {e}')
            continue
        rewriting += bool(examine(c, name, target, paths, False))
    c.cov['workspace operations that rewrite metadata'] = rewriting


def environment(c):
    def opened(e, st):
        f, s = e.get_attr(mk('cls', ENV), 'from_dir', st)[0]
        return e.call(f, [sym('config dir')], [], s, None)
    target = only_read(c, c.run(opened, []), 'the list of boxes')

    def script(what):
        def go(e, st):
            outs = []
            f, s = e.get_attr(mk('cls', ENV), 'from_dir', st)[0]
            for env, s in e.call(f, [sym('config dir')], [], s, None):
                for m, s in e.get_attr(env, what, s):
                    args = {'save': [], 'add_box': [sym('name'), sym('location')], 'forget_box': [sym('name')]}[what]
                    for v, s in e.call(m, args, [], s, None):
                        if what == 'save':
                            outs.append((v, s))
                            continue
                        for m2, s in e.get_attr(env, 'save', s):
                            outs += e.call(m2, [], [], s, None)
            return outs
        return go
    for what in ('save', 'add_box', 'forget_box'):
        paths = c.run(script(what), [], exc_all=True, ki=True)
        examine(c, what if what == 'save' else what + ' and save', target, paths, True)


def check(c):
    c.rule('workspace', 'every rewrite of the metadata of a workspace puts a completely written, closed file in its place by one rename', workspace)
    c.rule('boxes', 'every rewrite of the list of boxes puts a completely written, closed file in its place by one rename', environment)
