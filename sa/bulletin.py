"""A small known collection of boxes with beads, as seen through the search
interface: searches collect their conditions, and the ends of searches are
carried out on the known beads."""
from .engine import Ev, Inconclusive, trace_list
from .flow import events
from .ordering import Order, Undecided
from .terms import *

BEAD_SEARCH = 'bead.box.search'
BOX = 'bead.box.Box'
WORKSPACE = 'bead.workspace.Workspace'
FREEZE = 'bead.tech.timestamp.time_from_timestamp'
LATEST = 'bead_cli.common.TIME_LATEST'
CONDS = dict(by_name='name', by_kind='kind', by_content_id='content_id', at_time='=', newer_than='>', older_than='<',
             at_or_newer='>=', at_or_older='<=')
ENUM = dict(BEAD_NAME='by_name', KIND='by_kind', CONTENT_ID='by_content_id', AT_TIME='at_time', NEWER_THAN='newer_than',
            OLDER_THAN='older_than', AT_OR_NEWER='at_or_newer', AT_OR_OLDER='at_or_older')


class Bead:
    def __init__(self, id, name, kind, time, box):
        self.id, self.name, self.kind, self.time, self.box = id, name, kind, time, box
        self.term = sym(f'bead {id}')
        self.archive = sym(f'archive of {id}')


class Boxes:
    """TEXT: words 'id:name:kind:time:box'; the id names the content"""

    def __init__(self, text, inputs=(), given=None, boxes=(1, 2)):
        self.text = text
        self.beads = [Bead(i, n, k, int(t), int(b)) for i, n, k, t, b in (w.split(':') for w in text.split())]
        self.boxes = {b: sym(f'box {b}') for b in boxes}
        self.inputs = inputs            # (nick, content, kind, time, loaded)
        self.given = given
        self.used = set()

    def input(self, nick):
        return sym(f'input {nick}')

    # ------------------------------------------------------------ values
    def order(self, a):
        v = {}
        for b in self.beads:
            for x in (b.term, b.archive):
                v[x] = ('bead', b.id)
                v[attr(x, 'name')] = ('const text', b.name)
                v[attr(x, 'kind')] = ('const text', 'kind ' + b.kind)
                v[attr(x, 'content_id')] = ('const text', 'content ' + b.id)
                v[attr(x, 'freeze_time')] = ('time', b.time)
                v[attr(x, 'freeze_time_str')] = ('time text', b.time)
                v[mk('call', FREEZE, (attr(x, 'freeze_time_str'),), ())] = ('time', b.time)
                v[attr(x, 'box_name')] = ('const text', f'box {b.box}')
        for n, t in self.boxes.items():
            v[t] = ('box', n)
            v[attr(t, 'name')] = ('const text', f'box {n}')
        for nick, content, kind, time, loaded in self.inputs:
            x = self.input(nick)
            v[x] = ('input', nick)
            v[attr(x, 'name')] = ('const text', nick)
            v[attr(x, 'kind')] = ('const text', 'kind ' + kind)
            v[attr(x, 'content_id')] = ('const text', 'content ' + content)
            v[attr(x, 'freeze_time')] = ('time', time)
            v[attr(x, 'freeze_time_str')] = ('time text', time)
            v[mk('call', FREEZE, (attr(x, 'freeze_time_str'),), ())] = ('time', time)
        latest = a.lookup_qual(LATEST)
        if latest is not None:
            v[latest] = ('time', 99)
        v[sym('given time')] = ('time', self.given)
        return Order(v)

    # ------------------------------------------------------------ searches
    def mine(self, e, t, st):
        h = e.hobj(t, st)
        return h if h is not None and h.kind == 'list' and h.data and h.data[0][0] == 'item' and h.data[0][1] is sym('@search') else None

    def search(self, e, qual, sargs, st, node):
        bs = e.finite_items(sargs[0], st) if sargs else None
        if bs is None or any(b not in self.boxes.values() for b in bs):
            raise Inconclusive(f'boxes searched: {sargs!r}'[:120])
        return [(self.new(e, bs, st), st)]

    def box_search(self, e, qual, sargs, st, node):
        if sargs[0] not in self.boxes.values():
            raise Inconclusive(f'box searched: {sargs!r}'[:120])
        return [(self.new(e, sargs[:1], st), st)]

    def new(self, e, bs, st):
        return e.new_container('list', [('item', sym('@search')), ('item', mk('tuple', *bs))], st)

    def condition(self, name):
        def hook(e, box, args, kw, st, node):
            h = self.mine(e, box, st)
            if h is None:
                return None
            x = list(args) + list(kw.values())
            if len(x) != 1:
                raise Inconclusive('condition of search')
            st.heap[box.a[0]] = h.with_data(h.data + (('item', mk('tuple', const(name), e.snap(x[0], st))),))
            return [(box, st)]
        return hook

    def unique(self, e, box, args, kw, st, node):
        return [(box, st)] if self.mine(e, box, st) is not None else None

    def matches(self, bead, conds, order):
        for name, x in conds:
            op = CONDS[name]
            r = order.rank(x)
            if op in ('name', 'kind', 'content_id'):
                if order.rank(attr(bead.term, op)) != r:
                    return False
                continue
            if r[0] == 'time text':
                r = ('time', r[1])
            if r[0] != 'time' or r[1] is None:
                raise Undecided(x)
            t = bead.time
            if not {'=': t == r[1], '>': t > r[1], '<': t < r[1], '>=': t >= r[1], '<=': t <= r[1]}[op]:
                return False
        return True

    def found(self, e, box, st):
        h = self.mine(e, box, st)
        if h is None:
            return None
        bs = [n for t in h.data[1][1].a for n, x in self.boxes.items() if x is t]
        conds = [(cval(x[1].a[0]), x[1].a[1]) for x in h.data[2:]]
        return [b for n in bs for b in self.beads if b.box == n and self.matches(b, conds, self.o)]

    def end(self, pick):
        def hook(e, box, args, kw, st, node):
            got = self.found(e, box, st)
            if got is None:
                return None
            n = (list(args) + list(kw.values()) + [None])[0]
            n = 1 if n is None else cval(n) if is_const(n) else None
            if n is None:
                raise Inconclusive('position in search')
            r = pick(got, n)
            if not r:
                e.raise_(mk('exc', 'LookupError', ''), st, node)
                return []
            return [(b.term, st if i == len(r) - 1 else st.fork()) for i, b in enumerate(r)]
        return hook

    def everything(self, e, box, args, kw, st, node):
        got = self.found(e, box, st)
        if got is None:
            return None
        return [(e.new_container('list', [('item', b.term) for b in got], st), st)]

    def resolved(self, bead, boxes, e, st, node):
        for b in self.beads:
            if b.term is bead and self.boxes[b.box] in boxes:
                return [(b.archive, st)]
        if not any(b.term is bead for b in self.beads):
            raise Inconclusive(f'bead resolved: {bead!r}'[:100])
        e.raise_(mk('exc', 'LookupError', ''), st, node)
        return []

    def resolve(self, e, qual, sargs, st, node):
        bs = e.finite_items(sargs[0], st)
        if bs is None or len(sargs) != 2:
            raise Inconclusive('boxes of resolve')
        return self.resolved(sargs[1], bs, e, st, node)

    def box_resolve(self, e, qual, sargs, st, node):
        return self.resolved(sargs[1], sargs[:1], e, st, node)

    def box_beads(self, e, qual, sargs, st, node):
        got = [b for b in self.beads if self.boxes[b.box] is sargs[0]]
        if len(sargs) == 2:
            cs = e.finite_items(sargs[1], st)
            if cs is None:
                raise Inconclusive('conditions of get_beads')
            conds = []
            for x in cs:
                if x.op != 'tuple' or x.a[0].op != 'enum' or x.a[0].a[1] not in ENUM:
                    raise Inconclusive('conditions of get_beads')
                conds.append((ENUM[x.a[0].a[1]], x.a[1]))
            got = [b for b in got if self.matches(b, conds, self.o)]
        return [(e.new_container('list', [('item', b.term) for b in got], st), st)]

    # ------------------------------------------------------------ workspace
    def nick(self, t):
        for i in self.inputs:
            if t is const(i[0]) or t is attr(self.input(i[0]), 'name'):
                return i
        if is_const(t):
            return None
        raise Inconclusive(f'input {t!r}'[:100])

    def get_input(self, e, qual, sargs, st, node):
        i = self.nick(sargs[1])
        return [(self.input(i[0]) if i else NONE, st)]

    def has_input(self, e, qual, sargs, st, node):
        return [(const(self.nick(sargs[1]) is not None), st)]

    def is_loaded(self, e, qual, sargs, st, node):
        i = self.nick(sargs[1])
        if i is None or not i[4]:
            return [(FALSE, st)]
        gone = any(x.kind == 'call' and x.fn == '@unload' and x.args[0] is const(i[0]) for x in events(trace_list(st.trace)))
        return [(const(not gone), st)]

    def effect(self, name):
        def hook(e, qual, sargs, st, node):
            x = tuple(sargs[1:])
            if name in ('@load', '@unload'):
                i = self.nick(x[0])
                x = (const(i[0]) if i else x[0],) + x[1:]
            st.emit(Ev('call', name, x, site=e.site(node)))
            return [(NONE, st)]
        return hook

    def stops(self):
        return {
            FREEZE: 'pure',
            BEAD_SEARCH: self.search, 'bead.box.resolve': self.resolve, BOX + '.search': self.box_search, BOX + '.resolve': self.box_resolve,
            BOX + '.get_beads': self.box_beads, BOX + '.all_beads': self.box_beads,
            WORKSPACE + '.get_input': self.get_input, WORKSPACE + '.has_input': self.has_input, WORKSPACE + '.is_loaded': self.is_loaded,
            WORKSPACE + '.load': self.effect('@load'), WORKSPACE + '.unload': self.effect('@unload'),
            WORKSPACE + '.add_input': self.effect('@add input'), WORKSPACE + '.delete_input': self.effect('@delete input'),
            WORKSPACE + '.for_current_working_directory': 'pure',
            'bead_cli.environment.Environment.get_boxes': lambda e, q, s, st, n: [(e.new_container('list', [('item', b) for b in self.boxes.values()], st), st)],
        }

    def options(self, a):
        self.o = self.order(a)
        o = self.o.options()
        o['ohooks'] = dict(o['ohooks'], **{n: self.condition(n) for n in CONDS}, unique=self.unique, all=self.everything,
                           first=self.end(lambda g, n: g), newest=self.end(lambda g, n: sorted(g, key=lambda b: -b.time)[:1]),
                           oldest=self.end(lambda g, n: sorted(g, key=lambda b: b.time)[:1]),
                           newer=self.end(lambda g, n: sorted(g, key=lambda b: b.time)[n:n + 1]),
                           older=self.end(lambda g, n: sorted(g, key=lambda b: -b.time)[n:n + 1]))
        return o
