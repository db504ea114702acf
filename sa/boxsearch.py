"""Searching boxes, interpreted: boxes are constructed by the repository's own
code, with or without an index; the box's folder holds known archives (raw) or
the index holds known records."""
from .engine import Ev, Inconclusive
from .flow import events
from .sqlworld import SqlWorld, column
from .std import *
from .terms import *
from .terms import T

ATTRS = ('name', 'kind', 'content_id', 'freeze_time_str', 'box_name')
FREEZE = 'bead.tech.timestamp.time_from_timestamp'
INDEX_NAME = '.index.sqlite'


def location(name):
    return sym(f'dir of {name}')


def mentions_index(t):
    return any(x.op == 'const' and isinstance(cval(x), str) and cval(x).endswith(INDEX_NAME) for x in walk(t))


def typed(values, default=None):
    """hooks: the scenario says which of the symbols are text and which datetimes"""
    def kind(t):
        if t.op == 'call' and t.a[0] == FREEZE:
            return 'time'
        return values.get(t, default)

    def isinstance_(e, args, kw, st, node):
        k = kind(args[0])
        if k is None:
            return None
        names = [args[1]] if args[1].op != 'tuple' else list(args[1].a)
        names = [x.a[0] for x in names if x.op in ('ext', 'cls')]
        if not names or not set(names) <= {'builtins.str', 'datetime.datetime', 'datetime.date'}:
            return None
        return [(const(any(n == 'builtins.str' and k == 'text' or n in ('datetime.datetime', 'datetime.date') and k == 'time' for n in names)), st)]

    def hasattr_(e, args, kw, st, node):
        k = kind(args[0])
        if k is None or not is_const(args[1]):
            return None
        return [(const(hasattr(__import__('datetime').datetime if k == 'time' else str, cval(args[1]))), st)]
    return {'builtins.isinstance': isinstance_, 'builtins.hasattr': hasattr_}


class Boxes:
    """boxes: {box name: 'raw' | 'index'}; files: {box name: [path terms]};
    records: rows of table beads / inputs of the (one) indexed box."""

    def __init__(self, boxes, files=None, records=None, order=None):
        self.boxes = boxes
        self.files = files or {}
        self.sql = SqlWorld(records or {'beads': ['b1'], 'inputs': ['i1']}, order=order)

    def indexed(self, t):
        for n, kind in self.boxes.items():
            if contains(t, location(n)):
                return kind == 'index'

    def exists(self, e, recv, args, kw, st, node):
        if mentions_index(recv):
            x = self.indexed(recv)
            if x is not None:
                return [(const(x), st)]

    def glob(self, e, recv, args, kw, st, node):
        for n in self.boxes:
            if contains(recv, location(n)):
                st.emit(Ev('query', '@glob', (recv,) + tuple(args), site=e.site(node)))
                return [(e.new_container('list', [('item', p) for p in self.files.get(n, [])], st), st)]

    def glob_fn(self, e, args, kw, st, node):
        t = e.snap(args[0], st) if args else NONE
        if kw or t.op != 'path' or not any(contains(t.a[0], location(n)) for n in self.boxes) or any(contains(t.a[-1], location(n)) for n in self.boxes):
            return self.unfiltered(e, t, (), kw, st, node)
        return self.glob(e, path(t.a[:-1]), t.a[-1:], kw, st, node)

    def unfiltered(self, e, recv, args, kw, st, node):
        if any(contains(recv, location(n)) for n in self.boxes):
            raise Inconclusive('files of a box are selected by other means than a pattern')

    def unfiltered_fn(self, e, args, kw, st, node):
        return self.unfiltered(e, e.snap(args[0], st), (), kw, st, node) if args else None

    def exists_fn(self, e, args, kw, st, node):
        if args:
            return self.exists(e, args[0], [], {}, st, node)

    def options(self, **kw):
        o = self.sql.options()
        o["mhooks"].update({"exists": self.exists, "is_file": self.exists, "glob": self.glob, **kw.pop("mhooks", {})})
        o["mhooks"].setdefault('iterdir', self.unfiltered)
        for n in ('os.listdir', 'os.scandir', 'os.walk'):
            o['xhooks'].setdefault(n, self.unfiltered_fn)
        o['xhooks'].update({'glob.glob': self.glob_fn, 'glob.iglob': self.glob_fn})
        o['xhooks'].setdefault('os.access', self.exists_fn)     # (what is there may be used)
        o['xhooks'].update({'os.path.exists': self.exists_fn, 'os.path.isfile': self.exists_fn}, **kw.pop('xhooks', {}))
        o['stops'] = {**HASH, FREEZE: 'pure', **kw.pop('stops', {})}
        o['excs'] = kw.pop('excs', set())
        if self.sql.order is not None:
            more = self.sql.order.options()
            o['decide'] = more['decide']
            o['ohooks'].update(more['ohooks'])
            o['xhooks'].update(more['xhooks'])
        o.update(kw)
        return o

    # ------------------------------------------------------------ scripts
    def make(self, e, st, names):
        outs = [([], st)]
        for n in names:
            nxt = []
            for got, s in outs:
                for b, s2 in e.call(e.lookup_qual(BOX), [const(n), location(n)], [], s, None):
                    nxt.append((got + [b], s2))
            outs = nxt
        return outs

    def search(self, chain, multi=False, then=None):
        """script: build the boxes, search by the chain of (method, args)"""
        def script(e, st):
            outs = []
            for bs, s in self.make(e, st, list(self.boxes)):
                if multi:
                    lst = e.new_container('list', [('item', b) for b in bs], s)
                    cur = e.call(e.lookup_qual('bead.box.search'), [lst], [], s, None)
                else:
                    cur = self.method(e, bs[0], 'search', [], s)
                for m, args in chain:
                    cur = [r for v, s2 in cur for r in self.method(e, v, m, args, s2)]
                for v, s2 in cur:
                    outs.extend(describe(e, v, s2) if then is None else then(e, bs, v, s2))
            return outs
        return script

    @staticmethod
    def method(e, v, m, args, st):
        return [r for f, s in e.get_attr(v, m, st) for r in e.call(f, list(args), [], s, None)]


def bead_term(e, v, st):
    vals = []
    for n in ATTRS:
        outs = e.get_attr(v, n, st)
        if len(outs) != 1:
            raise Inconclusive(f'attribute {n} of a found bead')
        vals.append(e.snap(outs[0][0], st))
    outs = e.get_attr(v, 'inputs', st)
    vals.append(inputs_term(e, outs[0][0], st) if len(outs) == 1 else const('?'))
    return mk('tuple', *vals)


SPEC = ('name', 'kind', 'content_id', 'freeze_time_str')


def inputs_term(e, v, st):
    """list of input records -> term of their attributes (or the raw snapshot)"""
    items = e.finite_list(v, st)
    if items is None:
        return e.snap(v, st)
    out = []
    for x in items:
        vals = []
        for n in SPEC:
            outs = e.get_attr(x, n, st)
            vals.append(e.snap(outs[0][0], st) if len(outs) == 1 else const('?'))
        out.append(mk('tuple', *vals))
    return mk('tuple', *out)


def describe(e, v, st):
    """a list of beads / one bead -> tuple of attribute tuples"""
    if v is NONE:
        return [(NONE, st)]
    items = e.finite_list(v, st)
    if items is None:
        if e.hobj(v, st) is not None and e.hobj(v, st).kind == 'inst':
            return [(bead_term(e, v, st), st)]
        raise Inconclusive(f'search result {e.snap(v, st)!r}'[:150])
    return [(mk('tuple', *[bead_term(e, x, st) for x in items]), st)]


def reference(c, p, box):
    """attribute terms of the archive at p: {attribute: set of terms}"""
    def script(e, st):
        outs = []
        for v, s in e.call(e.lookup_qual(ARCHIVE), [p, const(box)], [], st, None):
            cur = [((), s)]
            for n in ATTRS + ('freeze_time', 'inputs'):
                cur = [(got + (e.snap(t, s3) if n != 'inputs' else inputs_term(e, t, s3),), s3) for got, s2 in cur for t, s3 in e.get_attr(v, n, s2)]
            outs.extend((mk('tuple', *got), s2) for got, s2 in cur)
        return outs
    ref = {n: set() for n in ATTRS + ('freeze_time', 'inputs')}
    for q in c.run(script, stops={**HASH, FREEZE: 'pure'}, excs=set()):
        if q.kind == 'return':
            for n, t in zip(ref, q.value.a):
                ref[n].add(t)
    if not all(ref.values()):
        raise Inconclusive('attributes of an archive')
    return ref


def inserted(c):
    """What the index stores of an archive: (archive path term, {column: term}
    of table beads, {column: term} of table inputs, element term)"""
    p = path((sym('box'), sym('file')))
    w = SqlWorld({'beads': [], 'inputs': []})
    q = 'bead.box_index.BoxIndex'

    def script(e, st):
        outs = []
        for b, s in e.call(e.lookup_qual(q), [sym('box')], [], st, None):
            for v, s2 in Boxes.method(e, b, 'index_archive_file', [p], s):
                outs.append((v, s2))
        return outs
    o = w.options()
    o['stops'] = {**HASH, FREEZE: 'pure', ARCHIVE + '.validate': validate_stop}
    o['xhooks'].update(typed({}, 'text'))
    return p, w, c.run(script, excs=set(), **o)
