"""Interprets whole searches on scenarios of known shape: one or several boxes,
with and without index, holding up to four beads whose freeze times and content
ids compare in a known way (all orders, ties, duplicates across boxes; the text
of the timestamps is ordered differently from the instants).  The result of
every terminal operation must be the bead, beads or LookupError the
specification gives for that scenario."""
import ast
import itertools

from ..boxsearch import Boxes, bead_term, describe, typed, ATTRS, FREEZE
from ..engine import Inconclusive
from ..flow import events
from ..ordering import Order
from ..std import *
from ..terms import *
from ..terms import T


# values searched for
KIND0, KIND1, CONTENT1 = sym('wanted kind'), sym('unknown kind'), sym('wanted content')
WANTED = {KIND0: ('kind', 0), KIND1: ('kind', 1), CONTENT1: ('content id', 'c1')}
CONDITIONS = [[('by_content_id', [CONTENT1])], [('by_kind', [KIND0]), ('by_content_id', [CONTENT1])], [('by_content_id', [CONTENT1]), ('by_kind', [KIND0])],
              [('by_kind', [KIND0]), ('by_kind', [KIND1])], [('by_kind', [KIND1])]]


class Scenario:
    """layout: [(kind, [(bead id, instant, content)])] per box A, B, ..."""

    def __init__(self, c, layout):
        self.names = 'ABCD'[:len(layout)]
        self.layout = dict(zip(self.names, layout))
        self.beads = {}             # id -> (box, instant, content)
        values, facts, files, self.rows = {}, {}, {}, {}
        n = sum(len(b) for _, b in layout)
        k = 0
        for box, (kind, beads) in self.layout.items():
            files[box] = []
            self.rows[box] = []
            for bid, instant, content in beads:
                k += 1
                self.beads[bid] = (box, instant, content)
                if kind == 'raw':
                    p = sym(bid)
                    files[box].append(p)
                    terms, lits = archive(c, bid, box)
                    facts.update(lits)
                else:
                    self.rows[box].append(bid)
                    terms = {x: sym(f'{bid}.{x}') for x in ('name', 'kind', 'content_id', 'freeze_time_str')}
                    terms['freeze_time'] = mk('call', FREEZE, (terms['freeze_time_str'],), ())
                    values[sym(f'{bid}.freeze_time_unix')] = ('time number', instant)
                    values[sym(f'{bid}.file_path')] = ('file', k)
                    values[mk('call', '@rowid', (sym(bid),), ())] = ('rowid', k)
                values[terms['freeze_time']] = ('time', instant)
                values[terms['freeze_time_str']] = ('text', (k * 7 + 3) % 5)
                values[terms['content_id']] = ('content id', content)
                values[terms['name']] = ('name', 'n')
                values[terms['kind']] = ('kind', 0)
                setattr(self, bid, terms)
        for t, v in WANTED.items():
            values[t] = v
        self.ftss = {getattr(self, b)['freeze_time_str']: b for b in self.beads}
        self.order = Order(values, facts)
        kinds = {n: kind for n, (kind, _) in self.layout.items()}
        self.world = Boxes(kinds, files, self.tables, self.order)

    def tables(self, db):
        for n in self.names:
            if contains(db, sym(f'dir of {n}')):
                return {'beads': self.rows[n], 'inputs': []}
        raise Inconclusive('database')

    def which(self, t):
        """attribute tuple -> bead id"""
        vals = dict(zip(ATTRS, t.a))
        b = self.ftss.get(vals['freeze_time_str'])
        if b is None:
            raise Inconclusive(f'a bead with freeze time {vals["freeze_time_str"]!r}')
        return b if vals['box_name'] is const(self.beads[b][0]) else f'{b} of another box'

    def run(self, c, chain, multi, single):
        return c.run(self.world.search(chain, multi, describe if single else None and None), **self.world.options(xhooks=typed({}, 'text')))


_memo = {}


def archive(c, bid, box):
    """attribute terms of a valid archive, and the conditions that make it valid"""
    key = (id(c), bid, box)
    if key in _memo:
        return _memo[key]
    names = ('name', 'kind', 'content_id', 'freeze_time_str', 'freeze_time', 'inputs')

    def script(e, st):
        outs = []
        for v, s in e.call(e.lookup_qual(ARCHIVE), [bid if isinstance(bid, T) else sym(bid), const(box)], [], st, None):
            cur = [((), s)]
            for n in names:
                cur = [(got + (e.snap(t, s3),), s3) for got, s2 in cur for t, s3 in e.get_attr(v, n, s2)]
            outs.extend((mk('tuple', *got), s2) for got, s2 in cur)
        return outs
    paths = [p for p in c.run(script, stops={**HASH, FREEZE: 'pure'}, excs=set()) if p.kind == 'return']
    if not paths:
        raise Inconclusive('no archive is valid')
    p = paths[0]
    lits = {}
    for ev in events(p.trace):
        if ev.kind == 'assume':
            lits[ev.fn] = ev.x
    _memo[key] = dict(zip(names, p.value.a)), lits
    return _memo[key]


def expected(sc, chain):
    """-> set of acceptable outcomes: frozenset of bead ids, or 'LookupError'"""
    op, args = chain[-1]
    unique = any(m == 'unique' for m, _ in chain)
    conds = [(m, a[0]) for m, a in chain if m.startswith('by_')]
    beads = sorted((b for b in sc.beads if all(WANTED[v][1] == (sc.beads[b][2] if m == 'by_content_id' else 0) for m, v in conds)), key=lambda b: sc.beads[b][1])
    groups = {}
    for b in beads:
        groups.setdefault(sc.beads[b][2] if unique else b, []).append(b)
    choices = [frozenset(x) for x in itertools.product(*groups.values())]
    if op == 'all':
        return set(choices)
    out = set()
    for ch in choices:
        if op == 'first':
            out.update(frozenset([b]) for b in beads)
            if not beads:
                out.add('LookupError')
            continue
        asc = sorted(sc.beads[b][1] for b in ch)
        if op in ('older', 'newest'):
            asc.reverse()
        n = {'oldest': 0, 'newest': 0}.get(op)
        if n is None:
            n = cval(args[0]) if args else 1
        if n >= len(asc):
            out.add('LookupError')
        else:
            out.update(frozenset([b]) for b in ch if sc.beads[b][1] == asc[n])
    return out


def has_loop(c, site):
    """rows might be read in several portions"""
    for tree in c.a.trees.values():
        for fn in ast.walk(tree):
            if isinstance(fn, ast.FunctionDef) and fn.name == str(site.func).split('.')[-1] and fn.lineno <= site.line <= fn.end_lineno:
                return any(isinstance(x, ast.While) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'iter' for x in ast.walk(fn))
    return True


def judge(c, sc, chain, multi, title):
    label = '.'.join(f'{m}({", ".join(repr(x) if x.op == "sym" else repr(cval(x)) for x in a)})' for m, a in chain)
    what = f'{label} in {title}'
    want = expected(sc, chain)
    cuts = sc.world.sql.cuts
    cuts.clear()
    paths = c.run(sc.world.search(chain, multi), **sc.world.options(xhooks=typed({}, 'text')))
    if chain[-1][0] == 'all' and cuts:
        site, n = next(iter(cuts.items()))
        if has_loop(c, site):
            raise Inconclusive(f'{n} rows at a time at {site}')
        c.violation(what, f'never gives more than {n} beads of a box ({site})', paths[0].trace)
        return
    for p in paths:
        if sc.order.undecided and any(ev.kind == 'query' and str(ev.fn).startswith('builtins.') for ev in events(p.trace)):
            raise Inconclusive(f'order of {sc.order.undecided[0]}'[:200])
        open_ = [ev.fn for ev in events(p.trace) if ev.kind == 'assume']
        if p.kind == 'raise':
            name = p.value.a[0]
            got = 'LookupError' if c.a.exc_matches(p.value, 'LookupError') is True else str(name)
        elif p.value is NONE:
            got = 'None'
        else:
            items = [p.value] if p.value.a and p.value.a[0].op != 'tuple' else list(p.value.a)
            ids = [sc.which(t) for t in items]
            if len(ids) != len(set(ids)):
                got = ids
            else:
                got = frozenset(ids)
            if chain[-1][0] != 'all' and (not p.value.a or p.value.a[0].op == 'tuple'):
                got = ('list', got)
        if isinstance(got, list) or got not in want:
            if open_:
                raise Inconclusive(f'{what}: {open_[0]!r}'[:200])
            show = lambda x: x if isinstance(x, str) else f'list {sorted(x[1])}' if isinstance(x, tuple) else ', '.join(sorted(x)) or 'nothing'
            c.violation(what, f'gives {show(got)} instead of {" / ".join(sorted(show(w) for w in want))[:200]}', p.trace)
        else:
            c.ok()


def chains(n):
    ops = [('oldest', []), ('newest', []), ('first', []), ('all', []), ('newer', []), ('older', [])]
    for i in range(n + 2):
        ops += [('newer', [const(i)]), ('older', [const(i)])]
    for op in ops:
        yield [op]
        yield [('unique', []), op]


def layouts(thorough):
    """(title, layout, multi)"""
    for kind in ('raw', 'index'):
        name = 'an indexed box' if kind == 'index' else 'a box'
        yield f'an empty {name[2:].strip()}', [(kind, [])], False
        yield f'{name} with one bead', [(kind, [('x1', 1, 'c1')])], False
        for perm in itertools.permutations((1, 2, 3)):
            beads = [(f'x{i + 1}', t, f'c{i + 1}') for i, t in enumerate(perm)]
            yield f'{name} with beads of times {perm}', [(kind, beads)], False
        yield f'{name} with a tie', [(kind, [('x1', 2, 'c1'), ('x2', 1, 'c2'), ('x3', 2, 'c3')])], False
        yield f'{name} with a copy', [(kind, [('x1', 2, 'c1'), ('x2', 1, 'c2'), ('x3', 2, 'c1')])], False
    mixes = [('raw', 'raw'), ('index', 'raw'), ('index', 'index')] if not thorough else list(itertools.product(('raw', 'index'), repeat=2))
    for a, b in mixes:
        t = f'boxes ({a}, {b})'
        yield f'empty {t}', [(a, []), (b, [])], True
        yield f'{t}, first one empty', [(a, []), (b, [('y1', 2, 'c1'), ('y2', 1, 'c2')])], True
        yield f'{t}, second one empty', [(a, [('x1', 1, 'c1'), ('x2', 2, 'c2')]), (b, [])], True
        for i, perm in enumerate(itertools.permutations((1, 2, 3))):
            if thorough or i % 2 == (a == b):
                yield f'{t} with times {perm[:2]}, {perm[2:]}', [(a, [('x1', perm[0], 'c1'), ('x2', perm[1], 'c2')]), (b, [('y1', perm[2], 'c3')])], True
        yield f'{t} with a copy in both', [(a, [('x1', 1, 'c1'), ('x2', 3, 'c2')]), (b, [('y1', 1, 'c1'), ('y2', 2, 'c3')])], True
        yield f'{t} with equal times', [(a, [('x1', 2, 'c1')]), (b, [('y1', 2, 'c2'), ('y2', 1, 'c3')])], True
    yield 'no box', [], True
    yield 'three boxes', [('raw', [('x1', 2, 'c1')]), ('index', [('y1', 3, 'c2')]), ('raw', [('z1', 1, 'c1')])], True


def terminals(c, multi):
    for title, layout, m in layouts(c.thorough):
        if m != multi:
            continue
        sc = Scenario(c, layout)
        for chain in chains(len(sc.beads)):
            judge(c, sc, chain, m, title)
        for conds in CONDITIONS if len(sc.beads) > 2 or c.thorough else ():
            for op in ('oldest', 'newest', 'first', 'all'):
                judge(c, sc, conds + [(op, [])], m, title)
            judge(c, sc, conds + [('unique', []), ('all', [])], m, title)


def check(c):
    c.rule('one box', 'results of searches in one box', terminals, args=(c, False))
    c.rule('several boxes', 'results of searches in several boxes', terminals, args=(c, True))
