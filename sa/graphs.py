"""Scenarios of bead graphs: small graphs of beads with known names, contents
and relative freeze times, built by the repository's own constructors."""
import itertools

from .engine import Inconclusive
from .ordering import Order
from .std import *
from .terms import *
from .terms import T

DUMMY = 'bead_cli.web.dummy.Dummy'
SPEC = 'bead.meta.InputSpec'
SKETCH = 'bead_cli.web.sketch.Sketch'
FRESH = 'bead_cli.web.freshness.Freshness'
TIME = 'bead.tech.timestamp.time_from_timestamp'
STATES = ('PHANTOM', 'SUPERSEDED', 'UP_TO_DATE', 'OUT_OF_DATE')


class Bead:
    """id: name and rank of the freeze time ('A3'); uses: ids of the beads it uses"""

    def __init__(self, text):
        self.state = 'SUPERSEDED'
        if ':' in text:
            text, _, s = text.partition(':')
            self.state = next(x for x in STATES if x.startswith(s))
        self.id, _, uses = text.partition('<')
        self.uses = [u for u in uses.split('+') if u]
        self.name, self.time = self.id[0], int(self.id[1:])


class Graph:
    """'A1 A4 B2<A1 C3<B2+A4' in the order of the list; ':P' after a bead gives
    its freshness.  A bead which is used and not listed is not known.  After a
    leading '=' beads of the same time are copies: they have the same content."""

    CONTENT = 'content of '

    def __init__(self, text):
        self.text = text
        self.copies = text.startswith('=')
        self.beads = [Bead(w) for w in text.lstrip('= ').split()]
        self.listed = {b.id: b for b in self.beads}
        self.unknown = {}
        for b in self.beads:
            for u in b.uses:
                if u not in self.listed:
                    x = self.unknown.setdefault(u, Bead(u))
                    x.state = 'PHANTOM'
        self.all = {**self.listed, **self.unknown}

    def clusters(self):
        r = {}
        for b in self.all.values():
            r.setdefault(b.name, []).append(b)
        return {n: sorted(bs, key=lambda b: b.time) for n, bs in r.items()}

    def edges(self):
        return {(u, b.id) for b in self.beads for u in b.uses}

    # ---------------------------------------------------------------- specification
    def heads(self):
        r = {}
        for n, bs in self.clusters().items():
            known = [b for b in bs if b.state != 'PHANTOM']
            if known:
                r[n] = known[-1]
        return r

    def colours(self):
        r = {}
        for n, bs in self.clusters().items():
            for b in bs:
                r[b.id] = 'PHANTOM' if b.state == 'PHANTOM' else 'UP_TO_DATE' if b is bs[-1] else 'SUPERSEDED'
        heads = {b.id for b in self.heads().values()}
        done = set()

        def visit(i):
            if i in done:
                return
            done.add(i)
            if i in heads:
                for u in self.all[i].uses:
                    visit(u)
                if r[i] == 'UP_TO_DATE' and any(r[u] != 'UP_TO_DATE' for u in self.all[i].uses):
                    r[i] = 'OUT_OF_DATE'
        for i in heads:
            visit(i)
        return r

    def reach(self, names, down):
        """names of the clusters which use (down) or are used by the named ones"""
        got = {n for n in names if n in self.clusters()}
        pairs = {(s[0], d[0]) for s, d in self.edges()}
        while True:
            more = {(d if down else s) for s, d in pairs if (s if down else d) in got} - got
            if not more:
                return got
            got |= more

    # ---------------------------------------------------------------- interpretation
    def order(self, c):
        vals = {}
        for b in self.all.values():
            vals[mk('call', TIME, (sym(f't{b.time}'),), ())] = ('time', b.time)
            vals[sym(f't{b.time}')] = ('text', (b.time * 5 + 3) % 7)      # texts are in another order
        mod = c.a.modules.get('bead.tech.timestamp')
        epoch = c.a.base.frames[mod['frame']].get('EPOCH_STR') if mod else None
        if epoch is not None:
            vals[mk('call', TIME, (epoch,), ())] = ('time', 0)
            vals[epoch] = ('text', -1)
        return Order(vals)

    def content(self, i):
        return self.CONTENT + (i[1:] if self.copies else i)

    def build(self, e, st):
        """-> the list of beads"""
        out = []

        def one(q, kw):
            nonlocal st
            outs = e.call(e.lookup_qual(q), [], list(kw.items()), st, None)
            if len(outs) != 1:
                raise Inconclusive(f'{q} can not be made')
            v, st = outs[0]
            return v

        for b in self.beads:
            uses = [one(SPEC, dict(name=const(u[0]), kind=const('kind of ' + u[0]), content_id=const(self.content(u)),
                                   freeze_time_str=sym('t' + u[1:]))) for u in b.uses]
            fresh = e.classes[FRESH].attrs.get(b.state)
            if fresh is None:
                raise Inconclusive(f'{FRESH}.{b.state}')
            out.append(one(DUMMY, dict(
                name=const(b.name), kind=const('kind of ' + b.name), content_id=const(self.content(b.id)),
                freeze_time_str=sym(f't{b.time}'), inputs=e.new_container('list', [('item', x) for x in uses], st), freshness=fresh)))
        return e.new_container('list', [('item', b) for b in out], st), st

    def one(self, e, t, name, st):
        outs = e.get_attr(t, name, st)
        if len(outs) != 1:
            raise Inconclusive(name)
        return outs[0]

    def bead_id(self, e, b, st):
        v = self.one(e, b, 'content_id', st)[0]
        n = self.one(e, b, 'name', st)[0]
        if self.copies and is_const(v) and is_const(n) and str(cval(v)).startswith(self.CONTENT):
            return cval(n) + cval(v)[len(self.CONTENT):]
        if is_const(v) and is_const(n) and str(cval(v)).startswith(self.CONTENT) and cval(v)[len(self.CONTENT):][:1] == cval(n):
            return cval(v)[len(self.CONTENT):]
        raise Inconclusive(f'bead {v!r}'[:80])

    def items(self, e, t, st):
        x = e.finite_list(t, st)
        if x is None:
            x = e.finite_items(t, st)
        if x is None:
            outs = e.call(mk('ext', 'builtins.list'), [t], [], st, None)
            x = e.finite_list(*outs[0]) if len(outs) == 1 else None
        if x is None:
            raise Inconclusive(f'unknown elements of {e.snap(t, st)!r}'[:120])
        return x

    def snapshot(self, e, sk, st):
        """({bead id: freshness}, {(from, to)}, {bead id: inputs}) as a term"""
        beads, uses, edges = [], [], []
        for b in self.items(e, self.one(e, sk, 'beads', st)[0], st):
            i = self.bead_id(e, b, st)
            f = self.one(e, b, 'freshness', st)[0]
            ins = [self.bead_id(e, x, st) for x in self.items(e, self.one(e, b, 'inputs', st)[0], st)]
            beads.append((i, f.a[1] if f.op == 'enum' else repr(f)))
            uses.append((i, tuple(ins)))
        for x in self.items(e, self.one(e, sk, 'edges', st)[0], st):
            edges.append(tuple(self.bead_id(e, self.one(e, x, d, st)[0], st) for d in ('src', 'dest')))
        return const((tuple(beads), tuple(edges), tuple(uses)))

    def sketch(self, e, st):
        l, st = self.build(e, st)
        f, st = self.one(e, e.lookup_qual(SKETCH), 'from_beads', st)
        return e.call(f, [l], [], st, None)

    def run(self, c, then, together=False):
        """then(engine, sketch, state) -> [(sketch, state)];  -> [Path]"""
        def script(e, st):
            return [(self.snapshot(e, sk2, s2), s2) for sk, s in self.sketch(e, st) for sk2, s2 in then(e, sk, s)]
        opts = dict(excs=set(), max_recursion=12, unroll=64, **self.order(c).options())
        if together:        # all sets are gone through forwards, or all backwards
            return [p for o in (1, -1) for p in c.run(script, set_orders=(o,), **opts)]
        return c.run(script, **opts)


def undecided(p):
    """conditions which the scenario does not decide"""
    from .flow import events
    return [e for e in events(p.trace) if e.kind == 'assume' and not any(x.op == 'fresh' for x in walk(e.fn))]


def judge(c, name, g, paths, check, construct):
    """check(beads, edges, uses) -> complaint or None, for every path"""
    bad = unsure = None
    good = 0
    for p in paths:
        if p.kind == 'raise':
            why = f'fails with {p.value!r}'[:160]
        elif not is_const(p.value):
            why = None
            unsure = f'unclear result {p.value!r}'[:120]
        else:
            b, ed, us = cval(p.value)
            why = check(dict(b), ed, dict(us))
        if why:
            und = undecided(p)
            if und:
                unsure = f'{why}, if {und[0].fn!r}'[:240]
            elif bad is None:
                bad = (why, p)
        elif is_const(p.value):
            good += 1
    if bad:
        c.violation(construct, f'graph "{g.text}": {bad[0]}', bad[1].trace)
    elif unsure or not good:
        c.inconclusive(construct, f'graph "{g.text}": {unsure or "no path returns"}')
    else:
        c.ok()
