"""Drawings of small bead graphs whose names, kinds, content ids and times are
symbolic: the text that the repository's code generates is a term."""
from .engine import Inconclusive
from .graphs import Graph, DUMMY, SPEC, FRESH, SKETCH, TIME
from .ordering import Order
from .terms import *


class Drawing(Graph):
    """As Graph, but with symbolic names; inputs are called after the used bead unless given as nick=A1"""

    def __init__(self, text, symbolic_ids=False):
        super().__init__(text)
        self.symbolic_ids = symbolic_ids

    def name(self, n):
        return sym('name ' + n)

    def nick(self, b, i):
        return sym(f'input {i} of {b.id}')

    def content(self, i):
        return sym('content of ' + i) if self.symbolic_ids else const('c' + i)

    def order(self, c):
        vals = {}
        for b in self.all.values():
            vals[mk('call', TIME, (sym(f't{b.time}'),), ())] = ('time', b.time)
            vals[sym(f't{b.time}')] = ('text', (b.time * 5 + 3) % 7)
            vals[self.name(b.name)] = ('name', ord(b.name))
            vals[sym('kind of ' + b.name)] = ('kind', ord(b.name))
            vals[sym('box of ' + b.id)] = ('box', b.id)
            if self.symbolic_ids:
                vals[self.content(b.id)] = ('content', b.id)
            for i, _ in enumerate(b.uses):
                vals[self.nick(b, i)] = ('nick', (b.id, i))
        mod = c.a.modules.get('bead.tech.timestamp')
        epoch = c.a.base.frames[mod['frame']].get('EPOCH_STR') if mod else None
        if epoch is not None:
            vals[mk('call', TIME, (epoch,), ())] = ('time', 0)
            vals[epoch] = ('text', -1)
        return Order(vals)

    def build(self, e, st):
        out = []

        def one(q, kw):
            nonlocal st
            outs = e.call(e.lookup_qual(q), [], list(kw.items()), st, None)
            if len(outs) != 1:
                raise Inconclusive(f'{q} can not be made')
            v, st = outs[0]
            return v

        for b in self.beads:
            uses = [one(SPEC, dict(name=self.nick(b, i), kind=sym('kind of ' + u[0]), content_id=self.content(u), freeze_time_str=sym('t' + u[1:])))
                    for i, u in enumerate(b.uses)]
            out.append(one(DUMMY, dict(
                name=self.name(b.name), kind=sym('kind of ' + b.name), content_id=self.content(b.id), freeze_time_str=sym(f't{b.time}'),
                inputs=e.new_container('list', [('item', x) for x in uses], st), freshness=e.classes[FRESH].attrs[b.state], box_name=sym('box of ' + b.id))))
        return e.new_container('list', [('item', b) for b in out], st), st

    def draw(self, c):
        """paths returning the DOT text"""
        def script(e, st):
            out = []
            for sk, s in self.sketch(e, st):
                outs = e.get_attr(sk, 'as_dot', s)
                if len(outs) != 1:
                    raise Inconclusive('as_dot')
                for v, s2 in e.call(outs[0][0], [], [], outs[0][1], None):
                    out.append((e.snap(v, s2), s2))
            return out
        return c.run(script, excs=set(), max_recursion=12, unroll=64, set_orders=(1,), stops={TIME: 'pure'}, **self.order(c).options())
