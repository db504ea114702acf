"""Scenario interpretation of colouring.  Small graphs of beads with known names,
contents and relative freeze times (the texts of the times are ordered
differently) are built and coloured by interpreting the repository's own code;
wherever the code takes elements out of a set every element is considered, so
the verdict does not depend on an order.  The freshness of every bead is compared
with what the specification gives for the graph: chains, several inputs, old and
unknown inputs, superseded users, unknown latest versions, beads using earlier
versions of themselves, any listing order and any earlier colouring."""
import itertools

from ..engine import AnchorLost, Inconclusive
from ..graphs import Graph, SKETCH, judge
from ..std import *
from ..terms import *
from ..terms import T

CHAINS = [
    'A1',
    'A1 A2', 'A2 A1',
    'A2 A1 A3', 'A1 A2 A3',
    'A1 B2<A1', 'B2<A1 A1',
    'A1 A3 B2<A1', 'B2<A1 A3 A1',
    'A1 B2<A1 C3<B2', 'C3<B2 B2<A1 A1', 'B2<A1 A1 C3<B2',
    'A1 A4 B2<A1 C3<B2', 'C3<B2 B2<A1 A4 A1', 'A4 C3<B2 A1 B2<A1',
    'A1 A2 B3<A2', 'B3<A2 A2 A1',
    'A1 B2<A1 B3<A1', 'A2 B1 B3<A2',
    'A1 A2 B3<A1 B4<A2', 'B4<A2 B3<A1 A2 A1',
]
INPUTS = [
    'A1 B2 C3<A1+B2', 'C3<B2+A1 B2 A1',
    'A1 B2 A4 C3<A1+B2', 'A1 B2 A4 C3<B2+A1', 'B1 A2 B4 C3<A2+B1',
    'A1 B2<A1 C3<A1 D4<B2+C3', 'A1 A5 B2<A1 C3<A5 D4<B2+C3', 'A1 A5 B2<A5 C3<A1 D4<C3+B2',
]
PHANTOMS = [
    'B2<X1', 'B2<X1 C3<B2', 'C3<B2+A4 B2<X1 A4',
    'A1:P A2', 'A1 A2:P', 'A2:P', 'A1 A2:P B3<A1', 'A1 A2:P B3<A2',
    'A1 B2<A1 B3:P', 'B2<X1 B3:P', 'A1 B2<A1 C3<A4', 'B2<A1 C3<A4 A1',
    'A1 A2:P A3', 'A3 A1 A2:P B4<A3',
]
SELF = ['A1 A2<A1', 'A2<A1 A1', 'A1 A2<A1 B3<A2', 'A1 A2<A1 A3<A2', 'A1 A3<A1 A2<A1']
RECOLOUR = [
    'A1:U', 'A1:O', 'A1:U A2:S', 'A1:U A2:U', 'A1:U A2:O', 'A1:U A2:U A3:U', 'A3:U A2:U A1:U A4:U',
    'A1:U B2<A1:O', 'A1:O B2<A1:O', 'A1:S A3:S B2<A1:U', 'A1:U A3:U B2<A1:U C4<B2:U',
    'A1:U A2:P B3<A1:U',
]
GROUPS = dict(
    chains=('beads of a chain: heads, superseded beads, decisions passed on to users', CHAINS),
    inputs=('beads with several inputs', INPUTS),
    phantoms=('unknown beads, as inputs and as latest versions', PHANTOMS),
    versions=('beads using an earlier version of themselves', SELF),
    recolouring=('an earlier colouring does not matter', RECOLOUR),
)


def colour(e, sk, st):
    f, st = e.get_attr(sk, 'color_beads', st)[0]
    return [(sk, s) for _, s in e.call(f, [], [], st, None)]


def command(e, sk, st):
    table, st = e.get_attr(mk('mod', 'bead_cli.web.commands'), 'SUBCOMMANDS', st)[0]
    cls, st = e.subscript(table, const('color'), st, None)[0]
    out = []
    for cmd, s in e.call(cls, [e.new_container('list', [], st)], [], st, None):
        out += e.call(cmd, [sk], [], s, None)
    return out


def compare(g):
    want = g.colours()

    def check(beads, edges, uses):
        for i, w in want.items():
            if beads.get(i) != w:
                return f'{i} is {"lost" if i not in beads else "marked " + beads[i]} instead of {w}'
    return check


def look(c, name, graphs, then, where):
    for text in graphs:
        g = Graph(text)
        judge(c, name, g, g.run(c, then), compare(g), where)
        c.cov['graphs'] += 1


def every(n):
    """all graphs of n beads, one for each time; a bead may use earlier ones"""
    for names in itertools.product('ABC'[:n], repeat=n):
        if list(dict.fromkeys(names)) != sorted(set(names)):
            continue
        ids = [f'{x}{i + 1}' for i, x in enumerate(names)]
        choices = [[u for k in range(i + 1) for u in itertools.combinations(ids[:i], k)] for i in range(n)]
        for uses in itertools.product(*choices):
            words = [i + ('<' + '+'.join(u) if u else '') for i, u in zip(ids, uses)]
            yield ' '.join(words)
            if n > 1:
                yield ' '.join(reversed(words))


def check(c):
    if c.a.lookup_qual(SKETCH) is None or c.a.func(SKETCH + '.color_beads') is None:
        raise AnchorLost(SKETCH + '.color_beads')
    for name, (text, graphs) in GROUPS.items():
        c.rule(name, text, lambda c: look(c, name, graphs, colour, SKETCH + '.color_beads'))
    c.rule('command', "the color command of 'bead web' colours its graph",
           lambda c: look(c, 'command', CHAINS[5:13] + PHANTOMS[:2], command, 'bead_cli.web.commands'))
    if c.thorough:
        c.rule('every small graph', 'all graphs of up to three beads', lambda c: look(
            c, 'small', [t for n in (1, 2, 3) for t in every(n)], colour, SKETCH + '.color_beads'))
    c.assumptions += ['beads of one name have different freeze times', 'input connections have no loops',
                      'small graphs stand for all: beads and clusters are treated alike']
