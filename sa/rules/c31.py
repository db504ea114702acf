"""Scenario interpretation of the cache of open archives.  Sequences of requests
over a few files (two of them having the same name in different folders, one that
can not be opened) with any number of close-all operations are interpreted from
the source, with opening and closing of archives as events.  After every request
the answer has to be an open reader of the asked file, the number of open readers
may not exceed the limit, and what was closed has to be the least recently asked
file; after closing all nothing is open and requests work again.  The users of the
cache are analysed on all paths: none of them closes a reader of the cache."""
import ast

from ..engine import AnchorLost, Ev, Inconclusive
from ..flow import events
from ..ordering import Order
from ..std import *
from ..terms import *
from ..terms import T

MOD = 'bead.zipopener'
A, B, C, D = (const(x) for x in ('/x/n.zip', '/y/n.zip', '/x/m.zip', '/y/m.zip'))
BAD = const('/x/bad.zip')
ALL = 'close all'
SHORT = {A: 'a', B: 'b', C: 'c', D: 'd', BAD: '!', ALL: '.'}


class Opened:
    """events of archives"""

    def __init__(self):
        self.n = 0

    def file(self, t):
        cs = {x for x in walk(t) if is_const(x) and isinstance(cval(x), str) and x is not None and cval(x).startswith('/')}
        if len(cs) != 1:
            raise Inconclusive(f'opens {t!r}'[:100])
        return cs.pop()

    def open(self, e, args, kw, st, node):
        if not args or len(args) > 1 and args[1] is not const('r') or kw.get('mode', const('r')) is not const('r'):
            raise Inconclusive('way of opening')
        f = self.file(args[0])
        if f is BAD:
            e.raise_(mk('exc', 'zipfile.BadZipFile', ''), st, node)
            return []
        self.n += 1
        r = sym(f'reader {self.n} of {cval(f)}')
        st.emit(Ev('call', '@opened', (f, r), site=e.site(node)))
        return [(r, st)]

    def close(self, e, recv, args, kw, st, node):
        if not (recv.op == 'sym' and str(recv.a[0]).startswith('reader ')):
            return None
        st.emit(Ev('call', '@closed', (recv,), site=e.site(node)))
        return [(NONE, st)]

    def options(self):
        opts = Order({}).options()
        own = opts['decide']

        def decide(e, t, st):
            if t.op == 'sym' and str(t.a[0]).startswith('reader '):
                return True
            if t.op == 'cmp' and t.a[0] == '==':
                x, y = t.a[1:]
                if any(z.op == 'sym' and str(z.a[0]).startswith('reader ') for z in (x, y)):
                    return x is y
                if x.op == y.op == 'sym':
                    return x is y
                if x.op == y.op and x.op in ('mcall', 'call') and x.a[1 if x.op == 'mcall' else 0] == y.a[1 if x.op == 'mcall' else 0] and (
                        x.a[1 if x.op == 'mcall' else 0] in ('resolve', 'absolute', 'as_posix', 'os.path.abspath', 'os.path.realpath')):
                    try:
                        return self.file(x) is self.file(y)
                    except Inconclusive:
                        return None
            return own(e, t, st)
        opts['decide'] = decide
        opts['xhooks']['zipfile.ZipFile'] = self.open
        opts['mhooks'] = {'close': self.close}
        return dict(opts, unroll=64, zip_cache='inline', excs=set(), max_recursion=4)


class World:
    """what is open, from the events of a path"""

    def __init__(self):
        self.open = []              # (file, reader), least recently used first

    def copy(self):
        w = World()
        w.open = list(self.open)
        return w


def new_events(st, mark):
    from ..engine import trace_list
    return [x for x in events(trace_list(st.trace, mark)) if x.kind == 'call' and x.fn in ('@opened', '@closed')]


def explore(e, st, opener, closer, limit, words, depth, fail):
    """All sequences of requests up to the depth; fail(sequence, why, state)."""
    count = [0]

    def go(seq, w, st):
        if len(seq) == depth:
            return
        for word in words:
            step(seq + (word,), w.copy(), st.fork(), word)

    def step(seq, w, st, word):
        mark = st.trace
        count[0] += 1
        e.sinks.append([])
        try:
            outs = e.call(closer if word is ALL else opener, [] if word is ALL else [word], [], st, None)
        finally:
            raised = e.sinks.pop()
        for exc, s in raised:
            if word is not BAD:
                fail(seq, f'fails with {exc!r}'[:100], s)
                continue
            if exc.a[0] != 'zipfile.BadZipFile':
                fail(seq, f'fails with {exc.a[0]} instead of the failure of opening', s)
                continue
            w2 = w.copy()
            if apply(seq, w2, s, mark, word):
                go(seq, w2, s)
        if len(outs) > 1:
            raise Inconclusive('outcome of a request is not decided')
        for v, s in outs:
            w2 = w.copy()
            if word is BAD:
                fail(seq, 'a file that can not be opened gives a reader', s)
                continue
            if not apply(seq, w2, s, mark, word):
                continue
            if word is not ALL:
                got = [f for f, r in w2.open if r is v]
                if got != [word]:
                    fail(seq, f'gives {v!r} which is {"of another file" if got else "not open"}', s)
                    continue
                w2.open.sort(key=lambda x: x[0] is word)
            go(seq, w2, s)

    def apply(seq, w, s, mark, word):
        for ev in new_events(s, mark):
            if ev.fn == '@opened':
                w.open.append(ev.args)
                continue
            r = ev.args[0]
            i = [k for k, x in enumerate(w.open) if x[1] is r]
            if word is not ALL and i and i[0] != 0:
                fail(seq, f'closes {cval(w.open[i[0]][0])}, which is not the least recently used one', s)
                return False
            w.open = [x for x in w.open if x[1] is not r]
        if len(w.open) > limit:
            fail(seq, f'{len(w.open)} archives are open, the limit is {limit}', s)
            return False
        if word is ALL and w.open:
            fail(seq, f'{cval(w.open[0][0])} stays open', s)
            return False
        return True

    go((), World(), st)
    return count[0]


def cache_class(c):
    """(qualified name, name of the parameter giving the limit)"""
    for q, k in sorted(c.a.classes.items()):
        if not q.startswith(MOD + '.'):
            continue
        _, init = c.a.class_lookup(q, '__init__')
        fields = c.a.attrs_fields(q) if k.is_attrs else ()
        for f in fields:
            if f.get('default') is not None and isinstance(getattr(f['default'], 'value', None), int):
                return q, f['name']
        if init is None or init.op != 'func':
            continue
        a = c.a.funcs[init.a[0]].node.args
        names = [x.arg for x in a.args][-len(a.defaults):] if a.defaults else []
        for n, d in [*zip(names, a.defaults), *((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults))]:
            if isinstance(d, ast.Constant) and type(d.value) is int:
                return q, n
    raise Inconclusive('no class with a limit')


def limited(c):
    q, param = cache_class(c)
    names = [n for n in ('open', 'close_all') if c.a.class_lookup(q, n)[1] is None]
    if names:
        raise Inconclusive(f'{q} has no {names[0]}')
    for limit, words, depth in ((1, (A, B, BAD, ALL), 4), (2, (A, B, C), 6 if c.thorough else 5), (2, (A, B, C, BAD, ALL), 5 if c.thorough else 4),
                                (3, (A, B, C, D), 7 if c.thorough else 5)):
        w = Opened()

        def fail(seq, why, s):
            c.violation(f'{q}.open', f'limit {limit}, requests {" ".join(SHORT[x] for x in seq)}: {why}', trace_of(s))

        def script(e, st):
            (x, st), = e.call(e.lookup_qual(q), [], [(param, const(limit))], st, None)
            opener, st = e.get_attr(x, 'open', st)[0]
            closer, st = e.get_attr(x, 'close_all', st)[0]
            n = explore(e, st, opener, closer, limit, words, depth, fail)
            c.cov['requests'] += n
            c.ok(n)
            return [(NONE, st)]
        c.run(script, **w.options())


def trace_of(s):
    from ..engine import trace_list
    return trace_list(s.trace)


def shared(c):
    """the functions of the module"""
    for words, depth in (((A, B, C, BAD, ALL), 4),):
        w = Opened()

        def fail(seq, why, s):
            c.violation(f'{MOD}.open', f'requests {" ".join(SHORT[x] for x in seq)}: {why}', trace_of(s))

        def script(e, st):
            opener, closer = e.lookup_qual(MOD + '.open'), e.lookup_qual(MOD + '.close_all')
            n = explore(e, st, opener, closer, 10 ** 9, words, depth, fail)
            c.ok(n)
            return [(NONE, st)]
        c.run(script, **w.options())
    # the number of open archives is bounded
    w = Opened()

    def many(e, st):
        opener = e.lookup_qual(MOD + '.open')
        n, top = 0, []
        for i in range(48):
            mark = st.trace
            outs = e.call(opener, [const(f'/x/{i}.zip')], [], st, None)
            if len(outs) != 1:
                raise Inconclusive('outcome of a request is not decided')
            st = outs[0][1]
            n += sum(1 if x.fn == '@opened' else -1 for x in new_events(st, mark))
            top.append(n)
        if max(top[24:]) > max(top[:24]):
            if top[-1] == len(top):
                c.violation(f'{MOD}.open', f'after requests for {len(top)} files all {n} archives are open', trace_of(st))
            else:
                c.violation(f'{MOD}.open', f'the number of open archives keeps growing: {top[23]} after 24 requests, {n} after 48', trace_of(st))
        else:
            c.ok()
        return [(NONE, st)]
    c.run(many, **w.options())


def archive(c):
    """readers are asked for the file of the archive"""
    me = sym('archive')
    f = attr(me, 'archive_filename')
    ps = c.run(lambda e, st: e.get_attr(me, 'zipfile', st), types={me: ARCHIVE})
    good = [p for p in ps if p.kind == 'return']
    c.anchor(good, ARCHIVE + '.zipfile')
    for p in good:
        v = p.value
        if not any(x.op == 'call' and x.a[0] == 'zipfile.ZipFile' for x in walk(v)):
            c.inconclusive(f'{ARCHIVE}.zipfile is {v!r}'[:150])
            continue
        c.require(v.op == 'call' and contains(v.a[1][0], f) if v.op == 'call' else False, ARCHIVE + '.zipfile', f'asks for {v!r}'[:200], p.trace)


def reader(t):
    return t.op == 'call' and t.a[0] == 'zipfile.ZipFile' and len(t.a[1]) == 1


def users(c):
    """nobody else closes a reader of the cache"""
    quals = [q for q, fi in c.a.funcs.items() if fi.cls == ARCHIVE and q.count('.') == ARCHIVE.count('.') + 1]
    c.anchor(quals, ARCHIVE)
    seen = 0
    for q in sorted(quals):
        f = c.func(q)
        fi = c.a.funcs[f.a[0]]
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if 'builtins.staticmethod' in fi.decos:
            continue
        me = sym('archive')
        try:
            ps = c.run(f, [me] + [sym('arg ' + n) for n in names[1:]], types={me: ARCHIVE}, excs={'OSError'})
        except Inconclusive as x:
            c.inconclusive(f'{q}: {x}')
            continue
        for p in ps:
            for ev in events(p.trace):
                if ev.kind == 'mcall' and ev.args and reader(ev.args[0]):
                    seen += 1
                    c.require(ev.fn not in ('close', '__exit__'), q, 'closes the reader of the cache, which others may be using', p.trace)
                elif ev.kind in ('mcall', 'query', 'call') and any(reader(x) for y in ev.args if isinstance(y, T) for x in walk(y)):
                    seen += 1
                    c.ok()
    c.anchor(seen, 'uses of open archives')


def check(c):
    for n in ('open', 'close_all'):
        if c.a.lookup_qual(f'{MOD}.{n}') is None:
            raise AnchorLost(f'{MOD}.{n}')
    c.rule('limited', 'any sequence of requests on a small cache: right reader, open, within the limit, least recently used one closed', limited)
    c.rule('shared', 'the shared cache answers every request with an open reader of the asked file and bounds the number of open archives', shared)
    c.rule('archive', 'an archive uses the reader of its own file', archive)
    c.rule('users', 'users do not close the readers of the cache', users)
    c.assumptions += ['sequences over four files stand for all: files are treated alike', 'the files do not change while they are open']
