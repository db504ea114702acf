"""Scenarios which say how symbolic values compare: ranks for points in time,
texts and numbers, and which identifiers are equal.  Sorting and choosing
extremes of lists of known length are carried out by these ranks."""
from .engine import Inconclusive
from .instants import micros
from .terms import *
from .terms import T


class Undecided(Inconclusive):
    pass


class Order:
    """values: {term: rank}; ranks compare within the same kind, a rank is
    (kind, number).  facts: {term: bool} further known conditions."""

    def __init__(self, values, facts=None):
        self.values = values
        self.facts = {} if facts is None else facts
        self.undecided = []

    # ---------------------------------------------------------------- values
    def rank(self, t):
        if t in self.values:
            return self.values[t]
        if t.op == 'const':
            v = cval(t)
            if isinstance(v, bool):
                return ('bool', v)
            if not isinstance(v, (int, float, str)):
                raise Undecided(t)
            return ('number', v) if isinstance(v, (int, float)) else ('const text', v)
        if t.op == 'tuple':
            return ('tuple', tuple(self.rank(x) for x in t.a))
        if t.op == 'un' and t.a[0] in ('-', 'USub'):
            k, v = self.rank(t.a[1])
            if k in ('number', 'time number'):
                return (k, -v)
        if t.op == 'slice' and is_const(t.a[1]) and is_const(t.a[2]) and (len(t.a) < 4 or t.a[3] is NONE):
            # (different moments of a scenario are within a second)
            k, v = self.rank(t.a[0])
            if k == 'time text' and isinstance(v, int) and 0 <= v < 10**6:
                return ('time text cut', f'20200101T000000{v:06d}+0000'[cval(t.a[1]):cval(t.a[2])])
        if t.op == 'mcall' and (t.a[1] == 'date' or t.a[1] == 'replace' and [k for k, _ in t.a[3]] == ['microsecond'] and is_const(t.a[3][0][1])):
            k, v = self.rank(t.a[0])
            if k == 'time' and isinstance(v, int) and 0 <= v < 10**6:
                return ('time without microseconds', t.a[1])
        if t.op == 'mcall' and t.a[1] in ('timestamp', 'astimezone'):
            k, v = self.rank(t.a[0])
            if k == 'time':
                return ('time number' if t.a[1] == 'timestamp' else k, v)
        for x, (k, v) in self.values.items():
            if k == 'time' and contains(t, x) and micros(t, x)[0] == 'exact':
                return ('time number', v)
        raise Undecided(t)

    def less(self, a, b):
        ra, rb = self.rank(a), self.rank(b)
        if not self.same_kind(ra, rb):
            raise Undecided((a, b))
        return ra < rb

    def same_kind(self, ra, rb):
        if ra[0] != rb[0]:
            return False
        if ra[0] == 'tuple':
            return len(ra[1]) == len(rb[1]) and all(self.same_kind(x, y) for x, y in zip(ra[1], rb[1]))
        return True

    def decide(self, e, t, st):
        if t in self.facts:
            return self.facts[t]
        if t in self.values:
            return True             # no value of a scenario is empty
        if t.op == 'cmp' and t.a[0] == '==' and NONE in t.a[1:] and any(x in self.values for x in t.a[1:]):
            return False
        if t.op == 'cmp' and t.a[0] == 'in' and t.a[2].op in ('set', 'list', 'dict', 'tuple'):
            b = t.a[2]
            if b.op != 'tuple' and any(x.op not in ('item', 'kv') for x in b.a):
                return None
            rs = [t.a[1] is x or self.decide(e, e.eq_term(t.a[1], x), st) for x in (b.a if b.op == 'tuple' else [y.a[0] for y in b.a])]
            return True if True in rs else None if None in rs else False
        if t.op == 'cmp' and t.a[0] == '==' and any(x.op == 'tuple' for x in t.a[1:]):
            x, y = t.a[1:]
            if x.op == y.op:
                rs = [a is b or self.decide(e, e.eq_term(a, b), st) for a, b in zip(x.a, y.a)]
                return False if False in rs or len(x.a) != len(y.a) else None if None in rs else True
            try:
                self.rank(y if x.op == 'tuple' else x)
            except Undecided:
                return None
            return False            # a tuple is none of the values
        if t.op == 'cmp' and t.a[0] in ('<', '=='):
            try:
                ra, rb = self.rank(t.a[1]), self.rank(t.a[2])
            except Undecided:
                return None
            if not self.same_kind(ra, rb):
                return None
            return ra < rb if t.a[0] == '<' else ra == rb
        return None

    # ---------------------------------------------------------------- sorting
    def keys(self, e, items, key, st, node):
        out = []
        for x in items:
            if key is None or key is NONE:
                k, st = e.snap(x, st), st
            else:
                outs = e.call(key, [x], [], st, node)
                if len(outs) != 1:
                    raise Undecided(key)
                k, st = outs[0]
                k = e.snap(k, st)
            r = self.rank(k)
            out.append(r)
        for a in out:
            for b in out:
                if not self.same_kind(a, b):
                    raise Undecided(key)
        return out, st

    def arrange(self, e, items, key, reverse, st, node, of=None):
        ks, st = self.keys(e, items, key, st, node)
        items = of or items
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=reverse)
        return [items[i] for i in order], ks, st

    def flag(self, t):
        if t is None:
            return False
        if not is_const(t):
            raise Undecided(t)
        return bool(cval(t))

    def items(self, e, t, st, node):
        items = e.finite_list(t, st)
        if items is None:
            items = e.finite_items(t, st)
        if items is None:
            outs = e.call(mk('ext', 'builtins.list'), [t], [], st, node)
            if len(outs) == 1:
                items = e.finite_list(outs[0][0], outs[0][1])
        if items is None:
            raise Undecided(t)
        return items

    def sorted(self, e, args, kw, st, node):
        try:
            got, _, st = self.arrange(e, self.items(e, args[0], st, node), kw.get('key'), self.flag(kw.get('reverse')), st, node)
        except Undecided as u:
            self.undecided.append(u)
            return None
        return [(e.new_container('list', [('item', x) for x in got], st), st)]

    def sort(self, e, recv, args, kw, st, node):
        try:
            got, _, st = self.arrange(e, self.items(e, recv, st, node), kw.get('key'), self.flag(kw.get('reverse')), st, node)
        except Undecided as u:
            self.undecided.append(u)
            return None
        h = e.hobj(recv, st)
        if h is None:
            return None
        st.heap[recv.a[0]] = h.with_data(tuple(('item', x) for x in got))
        return [(NONE, st)]

    def extreme(self, pick):
        def hook(e, args, kw, st, node):
            try:
                items = list(args) if len(args) > 1 else self.items(e, args[0], st, node)
                if not items:
                    if 'default' in kw:
                        return [(kw['default'], st)]
                    e.raise_(mk('exc', 'ValueError', 'empty'), st, node)
                    return []
                ks, st = self.keys(e, items, kw.get('key'), st, node)
            except Undecided as u:
                self.undecided.append(u)
                return None
            best = pick(range(len(items)), key=lambda i: ks[i])
            return [(items[best], st)]
        return hook

    def nbest(self, reverse):
        def hook(e, args, kw, st, node):
            try:
                if not is_const(args[0]):
                    raise Undecided(args[0])
                got, _, st = self.arrange(e, self.items(e, args[1], st, node), kw.get('key'), reverse, st, node)
            except Undecided as u:
                self.undecided.append(u)
                return None
            return [(e.new_container('list', [('item', x) for x in got[:cval(args[0])]], st), st)]
        return hook

    def options(self):
        return dict(
            decide=self.decide,
            xhooks={'builtins.sorted': self.sorted, 'builtins.min': self.extreme(min), 'builtins.max': self.extreme(max),
                    'heapq.nlargest': self.nbest(True), 'heapq.nsmallest': self.nbest(False)},
            ohooks={'sort': self.sort})
