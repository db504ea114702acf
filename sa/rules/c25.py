"""Scenario interpretation of both codecs.  Beads with unknown attribute values,
of every freshness and with none to two inputs, phantoms made of an input, and
beads whose derived values have already been used, are written by the
repository's own code; the JSON serializer is modelled (natively supported
values are written as they are, all others through the given encoder), as is the
parser (bottom up, through the given hook).  What the reading code makes of the
text is compared with what was written: class by class, field by field.  The
functions treat the beads of a list alike, so the scenarios stand for all."""
from ..engine import Ev, Inconclusive
from ..flow import events
from ..std import *
from ..terms import *
from ..terms import T

IO = 'bead_cli.web.io'
DUMMY = 'bead_cli.web.dummy.Dummy'
FRESH = 'bead_cli.web.freshness.Freshness'
SPEC = 'bead.meta.InputSpec'
SKETCH = 'bead_cli.web.sketch.Sketch'
STORES = sym('@file')
FILE = sym('file name')
ASCII = {None, 'utf-8', 'utf8', 'UTF-8', 'ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1', 'cp1252'}


class Wrong(Exception):
    pass


def construct(e, q, kw, st):
    for v, s in e.call(e.lookup_qual(q), [], [(k, v) for k, v in kw.items()], st, None):
        return v, s
    raise Inconclusive(f'{q} can not be made')


def spec(e, i, st):
    for v, s in e.call(e.lookup_qual(SPEC), [sym(f'{i}.{x}') for x in ('name', 'kind', 'content_id', 'freeze_time_str')], [], st, None):
        return v, s
    raise Inconclusive('input definitions can not be made')


def distinct(e, t, st):
    """the beads are different ones"""
    if t.op == 'cmp' and t.a[0] == '==' and all(x.op == 'sym' for x in t.a[1:]):
        return t.a[1] is t.a[2]
    return None


class Store:
    """the file: what was written is what is read"""

    def __init__(self, c):
        self.c = c

    # ---- writing

    def leaf(self, e, v, st):
        if is_const(v):
            return cval(v) is None or isinstance(cval(v), (str, int, float, bool))
        if v.op == 'enum':
            return any(x in ('builtins.int', 'builtins.str', 'enum.IntEnum', 'enum.StrEnum') for x in e.ext_bases(v.a[0]))
        return e.hobj(v, st) is None and not e.class_of(v, st) and v.op in ('sym', 'cat', 'call', 'mcall', 'attr', 'idx', 'bin')

    def tree(self, e, v, encode, st, node, depth=0):
        """-> [(term of the JSON value, state)]"""
        if depth > 8:
            raise Inconclusive('encoding does not end')
        if self.leaf(e, v, st):
            return [(e.get_attr(v, 'value', st)[0][0] if v.op == 'enum' else v, st)]
        h = e.hobj(v, st)
        if h is not None and h.kind == 'dict' or v.op == 'dict':
            ents = h.data if h is not None else [e._ent_from_term(x) for x in v.a]
            states = [((), st)]
            for x in ents:
                if x[0] != 'kv':
                    raise Inconclusive(f'writing of {e.snap(v, st)!r}'[:200])
                k = x[1]
                if not (is_const(k) and isinstance(cval(k), str)):
                    raise Inconclusive(f'dictionary key {k!r}')
                states = [(acc + (mk('kv', k, t),), s2) for acc, s in states for t, s2 in self.tree(e, x[2], encode, s, node, depth + 1)]
            return [(mk('dict', *acc), s) for acc, s in states]
        if (h is not None and h.kind == 'list') or v.op in ('tuple', 'list'):
            items = [x.a[0] for x in v.a] if v.op == 'list' and all(x.op == 'item' for x in v.a) else e.finite_list(v, st)
            if items is None:
                raise Inconclusive(f'writing of {e.snap(v, st)!r}'[:200])
            states = [((), st)]
            for x in items:
                states = [(acc + (mk('item', t),), s2) for acc, s in states for t, s2 in self.tree(e, x, encode, s, node, depth + 1)]
            return [(mk('list', *acc), s) for acc, s in states]
        if encode is None:
            e.raise_(mk('exc', 'TypeError', ''), st, node)
            return []
        out = []
        for r, s in e.call(encode, [v], [], st, node):
            if r is v:
                out.append((mk('call', '@text', (v,), ()), s))      # its own text
            else:
                out += self.tree(e, r, encode, s, node, depth + 1)
        return out

    def encoder(self, e, kw, st, node):
        """-> [(function for values not natively supported, state)]"""
        if kw.get('default', NONE) is not NONE:
            return [(kw['default'], st)]
        if kw.get('cls', NONE) is not NONE:
            return [x for o, s in e.call(kw['cls'], [], [], st, node) for x in e.get_attr(o, 'default', s)]
        return [(None, st)]

    def text(self, e, v, kw, st, node):
        kw = dict(kw)
        ascii = kw.get('ensure_ascii', TRUE)
        if not is_const(ascii):
            raise Inconclusive('ensure_ascii')
        return [(mk('call', '@json', (t, ascii), ()), s2) for f, s in self.encoder(e, kw, st, node) for t, s2 in self.tree(e, v, f, s, node)]

    def dumps(self, e, args, kw, st, node):
        return self.text(e, args[0], kw, st, node)

    def put(self, e, stream, t, st, node):
        for y in walk(e.snap(stream, st)):
            if y.op in ('call', 'mcall') and (y.op == 'mcall' and y.a[1] == 'open' or y.op == 'call' and y.a[0] in ('builtins.open', 'io.open', 'os.fdopen')):
                args = y.a[1] if y.op == 'call' else (y.a[0],) + y.a[2]
                kw = dict(y.a[2] if y.op == 'call' else y.a[3])
                return self.store(e, args[0], kw.get('encoding', NONE), t, st, node)
        raise Inconclusive(f'written to {stream!r}'[:200])

    def store(self, e, file, encoding, t, st, node):
        x = mk('tuple', file, t, encoding)
        st.emit(Ev('call', '@stored', (x,), site=e.site(node)))
        st.overlay[STORES] = x
        return [(NONE, st)]

    def dump(self, e, args, kw, st, node):
        return [x for t, s in self.text(e, args[0], kw, st, node) for x in self.put(e, args[1], t, s, node)]

    def write(self, e, recv, args, kw, st, node):
        a = args[0]
        if a.op == 'cat':
            a = next((x for x in a.a if x.op == 'call' and x.a[0] == '@json'), a)
        if a.op == 'call' and a.a[0] == '@json':
            return self.put(e, recv, a, st, node)
        return None

    def write_text(self, e, recv, args, kw, st, node):
        a = args[0]
        if a.op == 'call' and a.a[0] == '@json':
            return self.store(e, recv, kw.get('encoding', NONE), a, st, node)
        return None

    def write_file(self, e, qual, sargs, st, node):
        a = e.snap(sargs[1], st)
        if a.op == 'call' and a.a[0] == '@json':
            return self.store(e, e.snap(sargs[0], st), NONE, a, st, node)
        return None

    # ---- reading

    def fetch(self, e, src, st):
        """the text a reading is about"""
        src = e.snap(src, st)
        for y in walk(src):
            if y.op == 'call' and y.a[0] == '@json':
                return y
        x = st.overlay.get(STORES)
        if x is None:
            raise Inconclusive('reading before writing')
        file, t, enc = x.a
        if not contains(src, file):
            raise Wrong(f'written to {file!r}, read from {src!r}'[:200])
        renc = NONE
        for y in walk(src):
            kw = y.a[2] if y.op == 'call' and y.a[0] in ('builtins.open', 'io.open') else y.a[3] if y.op == 'mcall' and y.a[1] in (
                'open', 'read_text') else ()
            renc = dict(kw).get('encoding', renc)
        if not (is_const(enc) and is_const(renc)):
            raise Inconclusive('text encoding')
        w, r = cval(enc), cval(renc)
        if cval(t.a[1][1]):
            if w != r and not (w in ASCII and r in ASCII):
                raise Wrong(f'written in encoding {w}, read in encoding {r}')
        elif not (w == r and w is not None and w.lower().startswith('utf')):
            raise Wrong('texts beyond ASCII are written uninterpreted, in an encoding which may be unable to represent them')
        return t

    def load(self, e, args, kw, st, node):
        if kw.get('cls', NONE) is not NONE:
            raise Inconclusive('reading by a custom decoder')
        t = self.fetch(e, args[0], st)
        return self.build(e, t.a[1][0], kw, st, node)

    def build(self, e, t, kw, st, node):
        hook, pairs = kw.get('object_hook', NONE), kw.get('object_pairs_hook', NONE)
        if t.op == 'list':
            states = [((), st)]
            for x in t.a:
                states = [(acc + (('item', v),), s2) for acc, s in states for v, s2 in self.build(e, x.a[0], kw, s, node)]
            return [(e.new_container('list', list(acc), s), s) for acc, s in states]
        if t.op == 'dict':
            states = [((), st)]
            for x in sorted(t.a, key=lambda x: cval(x.a[0])):
                states = [(acc + (('kv', x.a[0], v),), s2) for acc, s in states for v, s2 in self.build(e, x.a[1], kw, s, node)]
            out = []
            for acc, s in states:
                if pairs is not NONE:
                    ps = e.new_container('list', [('item', mk('tuple', k, v)) for _, k, v in acc], s)
                    out += e.call(pairs, [ps], [], s, node)
                    continue
                d = e.new_container('dict', list(acc), s)
                out += e.call(hook, [d], [], s, node) if hook is not NONE else [(d, s)]
            return out
        return [(t, st)]

    def options(self):
        return dict(
            xhooks={'json.dump': self.dump, 'json.dumps': self.dumps, 'json.load': self.load, 'json.loads': self.load},
            mhooks={'write': self.write, 'write_text': self.write_text},
            stops={FS + '.write_file': self.write_file}, cache_props=True, excs=set(), decide=distinct)


def same(e, a, b, st, what):
    """None, or how b (read) differs from a (written)"""
    if a is b:
        return None
    ca, cb = e.class_of(a, st), e.class_of(b, st)
    if ca != cb:
        return f'{what} is read as {cb or show(e.snap(b, st))}, not as {ca or show(e.snap(a, st))}'
    if ca:
        for f in e.attrs_fields(ca):
            va, s1 = e.get_attr(a, f['name'], st)[0]
            vb, s2 = e.get_attr(b, f['name'], st)[0]
            r = same(e, va, vb, st, f'{what}.{f["name"]}')
            if r:
                return r
        return None
    ia, ib = e.finite_list(a, st), e.finite_list(b, st)
    if ia is not None:
        if ib is None or len(ia) != len(ib):
            return f'{what} is read as {show(e.snap(b, st))}'
        ha, hb = e.hobj(a, st), e.hobj(b, st)
        if (a.op == 'tuple') != (b.op == 'tuple') and not what.endswith('beads'):
            return f'{what} is read as another kind of sequence'
        for i, (x, y) in enumerate(zip(ia, ib)):
            r = same(e, x, y, st, f'{what}[{i}]')
            if r:
                return r
        return None
    if is_const(b) and cval(b) == '' and st.lits.get(a) is False:
        return None
    x, y = e.snap(a, st), e.snap(b, st)
    if x is y:
        return None
    return f'{what} is read as {show(y)}, not as {show(x)}'


ATTRS = ('name', 'content_id', 'kind', 'freeze_time_str', 'box_name')


def fresh(c):
    info = c.a.classes.get(FRESH)
    c.anchor(info is not None, FRESH)
    return [v for v in info.attrs.values() if v.op == 'enum']


def scenarios(c):
    """name -> function making the beads"""
    out = {}

    def plain(freshness, n):
        def make(e, st):
            inputs = []
            for i in range(n):
                x, st = spec(e, f'input{i}', st)
                inputs.append(('item', x))
            lst = e.new_container('list', inputs, st)
            b, st = construct(e, DUMMY, {**{x: sym(f'bead.{x}') for x in ATTRS}, 'inputs': lst, 'freshness': freshness}, st)
            return [b], st
        return make
    for i, f in enumerate(fresh(c)):
        out[f'{f.a[1]} bead with {i % 3} inputs'] = plain(f, i % 3)
    out['bead with two inputs'] = plain(fresh(c)[-1], 2)

    def phantom(e, st):
        x, st = spec(e, 'input', st)
        user, st = plain(fresh(c)[0], 1)(e, st)
        f, st = e.get_attr(mk('cls', DUMMY), 'phantom_from_input', st)[0]
        for b, s in e.call(f, user + [x], [], st, None):
            return [b], s
        raise Inconclusive('phantom')
    out['phantom'] = phantom

    def several(e, st):
        a, st = plain(fresh(c)[0], 1)(e, st)
        b, st = construct(e, DUMMY, {x: sym(f'other.{x}') for x in ATTRS}, st)
        return a + [b], st
    out['two beads'] = several

    for differs in ('name', 'content_id'):
        def alike(e, st, differs=differs):
            a, st = plain(fresh(c)[-1], 0)(e, st)
            b, st = construct(e, DUMMY, {x: sym(f'other.{x}' if x == differs else f'bead.{x}') for x in ATTRS}, st)
            return a + [b], st
        out[f'two beads differing in {differs} only'] = alike

    def used(e, st):
        beads, st = plain(fresh(c)[-1], 1)(e, st)
        for n in ('ref', 'freeze_time'):
            if n in c.a.classes[DUMMY].props:
                _, st = e.get_attr(beads[0], n, st)[0]
        return beads, st
    out['bead in use'] = used
    out['no beads'] = lambda e, st: ([], st)
    return out


def roundtrip(c, via):
    """via(e, beads, st) -> [(beads written, beads read, state)]"""
    for name, make in scenarios(c).items():
        store = Store(c)
        res = []

        def script(e, st):
            e.sinks.append([])
            try:
                beads, st = make(e, st)
            finally:
                e.sinks.pop()       # beads with other values can not be made
            outs = []
            for written, v, s in via(e, beads, st):
                for x in ([v] if e.finite_list(v, s) is not None else []):
                    res.append(same(e, written, v, s, 'beads'))
                    break
                else:
                    res.append('no list of beads is read')
                outs.append((v, s))
            return outs
        try:
            paths = c.run(script, **store.options())
        except Wrong as x:
            c.violation(name, str(x))
            continue
        i = 0
        for p in paths:
            if p.kind == 'raise':
                # refusing a name is no success
                c.violation(name, f'reading or writing fails: {p.value!r}', p.trace)
                continue
            r = res[i]
            i += 1
            c.require(r is None, name, r, p.trace, what=f'{name}: read as written')


def files(c):
    c.anchor(c.a.func(IO + '.write_beads') is not None, IO + '.write_beads')
    c.anchor(c.a.func(IO + '.read_beads') is not None, IO + '.read_beads')

    def via(e, beads, st):
        lst = e.new_container('list', [('item', b) for b in beads], st)
        outs = []
        for _, s in e.call(e.lookup_qual(IO + '.write_beads'), [FILE, lst], [], st, None):
            outs += [(mk('tuple', *beads),) + x for x in e.call(e.lookup_qual(IO + '.read_beads'), [FILE], [], s, None)]
        return outs
    roundtrip(c, via)


def sketch_of(e, beads, st):
    f, s = e.get_attr(mk('cls', SKETCH), 'from_beads', st)[0]
    return [(b, sk, s2) for sk, s1 in e.call(f, [beads], [], s, None) for b, s2 in e.get_attr(sk, 'beads', s1)]


def sketches(c):
    def via(e, beads, st):
        lst = e.new_container('list', [('item', b) for b in beads], st)
        outs, s = [], st
        for written, sk, s in sketch_of(e, lst, s):
            for m, s in e.get_attr(sk, 'to_file', s):
                for _, s in e.call(m, [FILE], [], s, None):
                    f, s = e.get_attr(mk('cls', SKETCH), 'from_file', s)[0]
                    for sk2, s in e.call(f, [FILE], [], s, None):
                        outs += [(written,) + x for x in e.get_attr(sk2, 'beads', s)]
        return outs
    roundtrip(c, via)


def commands(c):
    table = {}

    def classes(e, st):
        t = e.lookup_qual('bead_cli.web.commands.SUBCOMMANDS')
        if t is None:
            raise Inconclusive('table of web commands')
        outs = []
        for n in ('save', 'load'):
            for v, s in e.subscript(t, const(n), st, None):
                table[n] = v
        return [(NONE, st)]
    c.run(classes)

    def via(e, beads, st):
        lst = e.new_container('list', [('item', b) for b in beads], st)
        s = st
        outs = []

        def run(n, arg, s):
            words = e.new_container('list', [('item', FILE)], s)
            return [x for cmd, s2 in e.call(table[n], [words], [], s, None) for x in e.call(cmd, [arg], [], s2, None)]
        for written, sk, s in sketch_of(e, lst, s):
            for _, s in run('save', sk, s):
                for sk2, s in run('load', NONE, s):
                    outs += [(written,) + x for x in e.get_attr(sk2, 'beads', s)]
        return outs
    roundtrip(c, via)


def described(c):
    """the description made of a bead"""
    bead = sym('bead')
    for has in (False, True):
        def script(e, st):
            f, st = e.get_attr(mk('cls', DUMMY), 'from_bead', st)[0]
            if has:
                st.overlay[attr(bead, 'freshness')] = fresh(c)[0]
            outs = []
            for d, s in e.call(f, [bead], [], st, None):
                r = []
                for n in ATTRS + ('inputs',) + (('freshness',) if has else ()):
                    v, s = e.get_attr(d, n, s)[0]
                    r.append(mk('tuple', const(n), e.snap(v, s)))
                outs.append((mk('tuple', *r), s))
            return outs
        paths = c.run(script, types={bead: 'bead.bead.Bead'}, excs=set())
        c.require(any(p.kind == 'return' for p in paths), 'description of a bead', 'can not be made', paths[0].trace)
        for p in paths:
            for x in p.value.a if p.kind == 'return' else ():
                n, v = cval(x.a[0]), x.a[1]
                want = fresh(c)[0] if n == 'freshness' else attr(bead, n)
                got = v.a[0].a[0] if v.op == 'list' and len(v.a) == 1 and v.a[0].op == 'all' else v
                c.require(got is want, f'description of a bead: {n}', f'is {v!r}', p.trace)


def check(c):
    c.rule('described', 'the description made of a bead has the attributes of the bead', described)
    c.rule('files', 'beads written are read back by the same class with equal fields', files)
    c.rule('sketches', 'writing and reading a graph of beads gives the same beads', sketches)
    c.rule('commands', 'the web commands save and load give the same beads', commands)
