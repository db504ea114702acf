"""Scenario interpretation of the graph filters.  Small graphs of beads with known
names, contents and relative freeze times are built by the repository's own code
and restricted by its filter, heads and set operations; wherever the code takes
elements out of a set every element is considered.  The beads, connections,
remaining inputs and freshness of the result are compared with what the
specification gives for the graph: branches, chains of clusters connected through
different versions, several named clusters, unknown names, beads which are not
known, and connections leaving the kept part."""
from ..engine import AnchorLost, Inconclusive
from ..graphs import Graph, SKETCH, judge, STATES
from ..std import *
from ..terms import *
from ..terms import T

SK = 'bead_cli.web.sketch'
COMMANDS = 'bead_cli.web.commands'
GRAPHS = [
    'A1 B2<A1', 'B2<A1 A1',
    'A1 B2<A1 C3<B2', 'C3<B2 B2<A1 A1',
    'A1 B2<A1 C3<B2 D4<C3', 'D4<C3 C3<B2 B2<A1 A1',
    'A1 B2<A1 B3 C4<B3',
    'A1 B2 C3<A1 D4<B2 E5<C3+D4',
    'A1 B2<A1 C3<A1 D4<B2 E5<C3',
    'A1 A4 B2<A1 B5<A4 C3<B2',
    'A1 B2<A1+X1 C3<B2', 'B2<X1 C3<X1',
    'A1:U B2<A1:O C3<B2:S A4:P', 'A1 a2<A1 B3<a2',
    'A1 B2<A1 B3<B2 C4<B3', 'A3<A2 A2<A1 A1 B4<A3',
    '= A1 C1 B2<A1 D3<C1', '= A1 B2<A1 C2<A1 D3<B2',
]
NAMES = [('A',), ('B',), ('C',), ('A', 'C'), ('B', 'Z'), ('X',), ('D',), ('a',), (' A',)]
HEADS = [
    'A1', 'A1 A2', 'A2 A1', 'A2 A1 A3', 'A1 B2<A1', 'A1 A3 B2<A1', 'A1 A3 B2<A1 B4<A3', 'A1 A3 B2<A1 C4<B2',
    'A1 A5 B2<A1 B3<A1 C4<B2', 'B2<X1', 'A1 A2:P B3<A1', 'A1 A2:P B3<A2', 'A2:P A1', 'A1 A2<A1 A3<A2', 'A1:U A3:U B2<A1:O B4<A3:U',
    '= D0 A1<D0 B1<D0 B2<D0', '= D0 B1<D0 B2<D0 A1<D0 C3<A1', '= A1 B1 A2', '= A1 B1 B2 C3<B1',
    'A1 B2<A5', 'A1<X1 A3', 'A1 A4 B2<A6 B3<A1', 'A1<X1+Y2 A3<Y4', 'a1 A2 A3<a1', 'a3 A1<a3 A2<a1',
]


def prune(g, beads, edges, optional=()):
    """check that exactly these beads and connections remain"""
    def check(got, ed, uses):
        for i in sorted(beads - set(got)):
            return f'{i} is lost'
        for i in sorted(set(got) - beads - set(optional)):
            return f'{i} is kept'
        for x, y in sorted(edges - set(ed)):
            return f'the connection from {x} to {y} is lost'
        for x, y in sorted(set(ed) - edges):
            return f'the connection from {x} to {y} is kept'
        for i in sorted(got):
            want = [u for u in g.all[i].uses if (u, i) in edges]
            if sorted(uses[i]) != sorted(want):
                return f'{i} has inputs {list(uses[i])} instead of {want}'
            if got[i] != g.all[i].state:
                return f'{i} is turned from {g.all[i].state} into {got[i]}'
    return check


def kept(g, *filters):
    names = set(g.clusters())
    optional = set()
    edges = g.edges()
    cur = Graph(g.text)
    for given, down in filters:
        if given is None:
            continue
        pairs = {(s[0], d[0]) for s, d in edges}
        reach = {n for n in given if n in names}
        while True:
            more = {(d if down else s) for s, d in pairs if (s if down else d) in reach} - reach
            if not more:
                break
            reach |= more
        edges = {(s, d) for s, d in edges if s[0] in reach and d[0] in reach}
        linked = {x[0] for e in edges for x in e}
        # a named cluster without any connection may be left out
        optional = {i for i, b in g.all.items() if b.name in reach - linked and b.name in names}
        names = reach & linked
    return {i for i, b in g.all.items() if b.name in names}, edges, optional


def restrict(fn, names):
    def then(e, sk, st):
        given = e.new_container('set', [('item', const(n)) for n in names], st)
        return e.call(e.lookup_qual(fn), [sk, given], [], st, None)
    return then


def command(word, words):
    """the sub-command of bead web with the words after it"""
    def then(e, sk, st):
        table, st = e.get_attr(mk('mod', COMMANDS), 'SUBCOMMANDS', st)[0]
        cls, st = e.subscript(table, const(word), st, None)[0]
        rest = e.new_container('list', [('item', const(w)) for w in reversed(words)], st)
        out = []
        for cmd, s in e.call(cls, [rest], [], st, None):
            if e.finite_list(rest, s):
                raise Inconclusive('words are left over')
            out += e.call(cmd, [sk], [], s, None)
        return out
    return then


def sides(c, fn, down):
    for i, text in enumerate(GRAPHS):
        g = Graph(text)
        for names in NAMES:
            if not c.thorough and names[0] not in g.clusters():
                continue
            judge(c, '', g, g.run(c, restrict(fn, names), not c.thorough), prune(g, *kept(g, (names, down))), f'{fn} of {"+".join(names)}')
            c.cov['graphs'] += 1


def whole(c):
    for text, sources, sinks in [
            ('A1 B2<A1 C3<B2 D4<C3', 'B', 'C'), ('A1 B2<A1 C3<A1 D4<B2 E5<C3', 'A', 'D'), ('A1 B2<A1 C3<B2 D4<C3', '', 'B'),
            ('A1 B2<A1 C3<B2 D4<C3', 'C', ''), ('A1 B2 C3<A1 D4<B2 E5<C3+D4', 'AB', 'E'), ('A1 B2<A1 C3<B2', '', ''),
            ('A1 B2 C3<A1+B2 D4<B2', 'A', 'C'), ('A1 B2<A1 C3<B2 D4<B2', 'B', 'CD'),
            ('A1 B2<A1 C3<B2', (' A',), ''), ('A1 B2<A1 C3<B2', 'A', ('C ',))]:
        g = Graph(text)
        words = [*sources, '..', *sinks, '/']
        want = prune(g, *kept(g, (sources or None, True), (sinks or None, False)))
        judge(c, '', g, g.run(c, command('/', words), not c.thorough), want, f'{COMMANDS} / {" ".join(words)}')
        c.cov['graphs'] += 1


def heads(c):
    for text in HEADS:
        g = Graph(text)
        hs = {b.id for b in g.heads().values()} | {bs[-1].id for bs in g.clusters().values() if all(b.state == 'PHANTOM' for b in bs)}
        edges = {(u, i) for i in hs for u in g.all[i].uses}
        judge(c, '', g, g.run(c, command('heads', []), not c.thorough), prune(g, hs | {u for u, _ in edges}, edges), f'{COMMANDS} heads')
        c.cov['graphs'] += 1


def check(c):
    for q in (SK + '.set_sources', SK + '.set_sinks'):
        if c.a.lookup_qual(q) is None:
            raise AnchorLost(q)
    c.rule('sources', 'restricting to sources keeps the named clusters, those using them directly or indirectly, and all '
           'connections among these', lambda c: sides(c, SK + '.set_sources', True))
    c.rule('sinks', 'restricting to sinks keeps the named clusters, those used by them directly or indirectly, and all '
           'connections among these', lambda c: sides(c, SK + '.set_sinks', False))
    c.rule('filter', "the filter command of 'bead web' restricts to its sources, then to its sinks", whole)
    c.rule('heads', "the heads command of 'bead web' keeps the latest known bead of every name and the beads these use", heads)
    c.assumptions += ['beads of one name have different freeze times', 'small graphs stand for all: clusters and connections are treated alike',
                      'a named cluster which has no connection at all may be kept or dropped']
