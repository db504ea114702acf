"""Scenario interpretation of building and drawing bead graphs.  Graphs are built by the
repository's own code from small lists of beads - unused, shared and unknown inputs,
older versions, beads which are found in more than one box - and compared with the
specification: every bead once, a phantom for every unknown input, one connection for
every input.  The drawing of each graph, with every freshness of its beads, is computed
as text from the source, parsed as DOT, and its nodes, rows and connections (followed
through the helper nodes) are compared with the graph."""
import itertools

from ..dot import BadDot, Drawn, render
from ..engine import AnchorLost, Inconclusive
from ..flow import events
from ..graphs import DUMMY, SKETCH, STATES, TIME, Graph, undecided
from ..std import *
from ..terms import *
from .. import boxsearch

GRAPHS = ['', 'A1', 'A1 a2', 'a1 A1<a1 B2<a1', 'A1 a1 B2<A1+a1', 'A1 A2', 'A2 A1', 'A1 B2', 'A1 B2<A1', 'B2<A1 A1', 'B2<A1', 'B2<A1 C3<A1', 'A1 A4 B2<A1', 'A1 B2<A1 B3<A1', 'A1 A4 B2<A1 B3<A4',
          'A1 B2<A1 C3<A1+B2', 'C3<A1+B2 B2<A1 A1', 'C3<A1+B2', 'A1 B2<A1 C3<B2 D4<C3+A1', 'D9<A1+B2+C3', 'A3<A1 A1', 'A3<A1', 'A1 C5<A1+B2 D6<B2+A4', 'A1 A3 A5 A7']
DOUBLES = ['A1 A1', 'A1 A1 B2<A1', 'B2<A1 B2<A1', 'B2<A1 A1 B2<A1 A1', 'B2<A1+C3 C3 B2<A1+C3', 'A1 B2<A1 B2<A1 B2<A1', 'A1 A2 A1 A2']
COLOURED = ['A1:P', 'A1:S', 'A1:U', 'A1:O', 'A1:U B2<A1:O', 'A1:S A4:U B2<A1:O', 'A1:S B2<A1:S B3<A1:U', 'A1:O B2<A1:U', 'A4:U B2<A1:S B3<A4+C2:O', 'A1:U B2<A1',
            'B1:U A2<B1:S A3<B1:O C4<A3+B1:U']


class G(Graph):
    CONTENT = 'c0ffee' * 20


def time_of(b):
    return f't{b.time})'


# ------------------------------------------------------------------ building
def compare(g, got_beads, got_edges):
    ids = [i for i, _ in got_beads]
    for i in g.all:
        if ids.count(i) != 1:
            return f'bead {i} is there {ids.count(i)} times'
    for i, f in got_beads:
        if i not in g.all:
            return f'bead {i} is made up'
        if (f == 'PHANTOM') != (g.all[i].state == 'PHANTOM'):
            return f'the {"known" if g.all[i].state != "PHANTOM" else "unknown"} bead {i} is {f}'
    for s, d in g.edges():
        n = got_edges.count((s, d, s[0]))
        if n != 1:
            return f'the connection from {s} to {d} is there {n} times' if n else f'the connection from {s} to {d}, labelled by the input, is missing'
    more = [x for x in got_edges if x[:2] not in g.edges()]
    if more:
        return f'there is a connection from {more[0][0]} to {more[0][1]}'


def built(c):
    for text in GRAPHS + DOUBLES:
        g = G(text)

        def script(e, st, g=g):
            out = []
            for sk, s in g.sketch(e, st):
                beads = [(g.bead_id(e, b, s), g.one(e, b, 'freshness', s)[0].a[1]) for b in g.items(e, g.one(e, sk, 'beads', s)[0], s)]
                edges = []
                for x in g.items(e, g.one(e, sk, 'edges', s)[0], s):
                    label = g.one(e, x, 'label', s)[0]
                    edges.append(tuple(g.bead_id(e, g.one(e, x, d, s)[0], s) for d in ('src', 'dest')) + (cval(label) if is_const(label) else repr(label),))
                out.append((const((tuple(beads), tuple(edges))), s))
            return out
        ps = c.run(script, excs=set(), max_recursion=12, unroll=64, **g.order(c).options())
        report(c, f'graph of the beads "{text}"', ps, lambda p, g=g: compare(g, list(cval(p.value)[0]), list(cval(p.value)[1])), SKETCH + '.from_beads')


def report(c, what, ps, check, construct):
    c.cov['scenarios'] += 1
    bad = unsure = None
    good = 0
    for p in ps:
        if p.kind == 'raise':
            why = f'fails with {p.value!r}'[:160]
        else:
            why = check(p)
        if not why:
            good += 1
        elif undecided(p):
            unsure = why
        else:
            bad = bad or (why, p)
    if bad:
        c.violation(construct, f'{what}: {bad[0]}'[:300], bad[1].trace)
    elif unsure or not good:
        c.inconclusive(construct, f'{what}: {unsure or "no path returns"}'[:200])
    else:
        c.ok(1, what)


# ------------------------------------------------------------------ drawing
def draw(c, g):
    def script(e, st):
        out = []
        for sk, s in g.sketch(e, st):
            f, s = g.one(e, sk, 'as_dot', s)
            out += [(e.snap(v, s2), s2) for v, s2 in e.call(f, [], [], s, None)]
        return out
    return c.run(script, excs=set(), max_recursion=12, unroll=64, set_orders=(1,), stops={TIME: 'pure'}, **g.order(c).options())


def same_picture(g, text, colours):
    """complaint about the drawing of a graph; colours: freshness -> colour, learnt on the way"""
    try:
        d = Drawn(text)
        return picture(g, d, colours)
    except BadDot as ex:
        return f'not a DOT graph: {ex}'


def picture(g, d, colours):
    port_of = {}
    boxes = {n: d.rows(n) for n in d.nodes}
    boxes = {n: r for n, r in boxes.items() if r}
    by_cluster = {}
    for n, rows in boxes.items():
        named = [t for r in rows for t in r[1] if t in g.clusters()]
        if len(set(named)) != 1 or len(d.nodes[n]) != 1:
            return f'the node {n} is drawn for {", ".join(named) or "nothing"}'
        if named[0] in by_cluster:
            return f'{named[0]} is drawn as two nodes'
        by_cluster[named[0]] = n
    for name, beads in g.clusters().items():
        if name not in by_cluster:
            return f'no node has the name {name}'
        n = by_cluster[name]
        rows = [r for r in boxes[n] if any('time_from_timestamp(' in t for t in r[1])]
        want = [time_of(b) for b in reversed(beads)]
        got = [next(t for t in r[1] if 'time_from_timestamp(' in t).strip('«»').rsplit('(', 1)[1] for r in rows]
        if sorted(got) != sorted(want):
            return f'{name} has rows for the times {", ".join(got)} instead of {", ".join(want)}'
        if got != want:
            return f'the versions of {name} are drawn in the order {", ".join(got)}'
        for r, b in zip(rows, reversed(beads)):
            for p in r[0]:
                if (n, p) in port_of:
                    return f'the port {p} of {name} is there twice'
                port_of[n, p] = b.id
            state = b.state
            if not r[2] or len(set(r[2])) != 1 or colours.setdefault(state, r[2][0]) != r[2][0]:
                return f'{b.id}, which is {state}, is drawn as {", ".join(r[2]) or "nothing"}' + (f' and elsewhere as {colours[state]}' if state in colours else '')
    found = []
    for s, t, labels in d.connections():
        if s not in port_of or t not in port_of:
            return f'a connection leads from {s} to {t}'
        found.append((port_of[s], port_of[t], [x for x, _ in labels]))
    for s, t in g.edges():
        here = [x for x in found if x[:2] == (s, t)]
        if len(here) != 1:
            return f'the connection from {s} to {t} is drawn {len(here)} times'
        if here[0][2] != [s[0]]:
            return f'the connection from {s} to {t} has the labels {here[0][2]}'
    more = [x for x in found if x[:2] not in g.edges()]
    if more:
        return f'a connection from {more[0][0]} to {more[0][1]} is drawn'


def drawn(c):
    colours = {}
    for text in GRAPHS[1:] + DOUBLES + COLOURED:
        g = G(text)
        report(c, f'drawing of "{text}"', draw(c, g), lambda p, g=g: same_picture(g, render(p.value), colours), SKETCH + '.as_dot')
    for a, b in itertools.combinations(STATES, 2):
        if a in colours and b in colours:
            c.require(colours[a] != colours[b], SKETCH + '.as_dot', f'{a} and {b} beads are both drawn as {colours[a]}')
    if len(colours) < len(STATES):
        c.inconclusive(f'colours seen: {colours}')


# ------------------------------------------------------------------ taking beads into the graph
def taken(c):
    """the bead of the graph has what the bead of the box has"""
    def script(e, st):
        f, st = Graph.one(None, e, e.lookup_qual(DUMMY), 'from_bead', st)
        out = []
        for d, s in e.call(f, [sym('bead')], [], st, None):
            vals = [e.snap(Graph.one(None, e, d, n, s)[0], s) for n in FIELDS]
            out.append((mk('tuple', *vals), s))
        return out
    for p in c.run(script, excs=set(), types={sym('bead'): 'bead.bead.Bead'}):
        if p.kind != 'return' or p.value.op != 'tuple':
            if p.kind == 'raise' and not undecided(p):
                c.violation(DUMMY + '.from_bead', f'fails with {p.value!r}'[:150], p.trace)
            else:
                c.inconclusive(f'bead of the graph {p.value!r}'[:150])
            continue
        for n, v in zip(FIELDS, p.value.a):
            mine = attr(sym('bead'), n)
            if v is mine or n == 'inputs' and contains(v, mine):
                c.ok(1, f'{n} of a bead')
            elif not contains(v, mine) and not undecided(p):
                c.violation(DUMMY + '.from_bead', f'the {n} of a bead in the graph is {v!r}'[:200], p.trace)
            else:
                c.inconclusive(f'{n} of a bead in the graph: {v!r}'[:150])


FIELDS = ('name', 'content_id', 'kind', 'freeze_time_str', 'inputs', 'box_name')


def check(c):
    for q in (SKETCH + '.from_beads', SKETCH + '.as_dot', DUMMY + '.from_bead'):
        if c.a.lookup_qual(q) is None:
            raise AnchorLost(q)
    c.rule('taken', 'a bead in the graph has the data of the bead', taken)
    c.rule('built', 'graphs have every bead once, phantoms for unknown inputs, and one connection for every input', built)
    c.rule('drawn', 'drawings have every cluster, version and connection once, coloured by freshness', drawn)
    c.assumptions += ['small graphs stand for all (the code treats beads alike)', 'an input is that of the bead which has its name and content id (the key of beads in a graph)',
                      'quoting of names is the subject of C27, the freshness itself that of C26']
