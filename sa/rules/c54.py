"""Scenario interpretation of where the beads of a box come from.  Boxes are
constructed, searched, resolved in and stored into by the code itself, in every
combination of boxes without an index, with one, and with one that can not be opened
(every attempt to open it fails).  On every path the beads given have to be those of
the archives (no index), of the records of the index, or none; what is done with a
box whose index can not be opened must not fail nor touch the other box's outcome."""
import itertools

from ..boxsearch import Boxes, location
from ..engine import AnchorLost, Inconclusive
from ..flow import events
from ..std import *
from ..terms import *
from ..terms import T
from . import c16

KINDS = ('raw', 'index', 'closed')
FAILURES = ('sqlite3.OperationalError', 'sqlite3.DatabaseError')


class World(Boxes):
    failure = FAILURES[0]

    def indexed(self, t):
        for n, kind in self.boxes.items():
            if contains(t, location(n)):
                return kind != 'raw'

    def options(self, **kw):
        o = super().options(**kw)
        for name in ('sqlite3.connect',):
            inner = o['xhooks'].get(name)

            def connect(e, args, kw, st, node, inner=inner):
                for n, kind in self.boxes.items():
                    if kind == 'closed' and args and contains(e.snap(args[0], st), location(n)):
                        e.raise_(mk('exc', self.failure, ''), st, node)
                        return []
                return inner(e, args, kw, st, node) if inner else None
            o['xhooks'][name] = connect
        return o


def world(kinds, failure=FAILURES[0]):
    kinds = dict(zip('AB', kinds))
    files = {'A': [sym('a1')], 'B': [sym('b1')]}
    rows = {'A': ['a1'], 'B': ['b1']}

    def tables(db):
        for n in kinds:
            if contains(db, location(n)):
                return {'beads': rows[n], 'inputs': []}
        raise Inconclusive('database')
    w = World(kinds, files, tables)
    w.failure = failure
    w.marks = {n: (files[n][0],) if kinds[n] == 'raw' else tuple(sym(f'{rows[n][0]}.{k}') for k in ('name', 'kind', 'content_id', 'freeze_time_str')) if kinds[n] == 'index' else ()
               for n in kinds}
    w.foreign = {n: files[n] if kinds[n] != 'raw' else [sym(f'{rows[n][0]}.{k}') for k in ('name', 'content_id')] for n in kinds}
    return w


def text(w):
    return 'boxes with ' + ' and '.join({'raw': 'no index', 'index': 'an index', 'closed': 'an index that can not be opened'}[k] for k in w.boxes.values())


def unreadable(p):
    """does the path hold only for a file which may not be read?"""
    return any(x.kind == 'assume' and x.x is False and isinstance(t, T) and t.op == 'call' and t.a[0] == 'os.access'
               and (len(t.a[1]) < 2 or t.a[1][1] in (const(4), mk('ext', 'os.R_OK'))) for x in events(p.trace) for t in (x.fn,))


def searched(c):
    for kinds in itertools.product(KINDS, repeat=2):
        for failure in FAILURES if 'closed' in kinds else FAILURES[:1]:
            w = world(kinds, failure)
            what = f'search().all() in {text(w)}'
            n = 0
            best = set()
            for p in c.run(w.search([('all', [])], multi=True), **w.options()):
                if p.kind != 'return':
                    if p.value is not None and p.value.op == 'exc' and p.value.a[0] in FAILURES + ('bead.exceptions.BoxIndexError', 'AttributeError', 'TypeError'):
                        c.violation(what, f'fails with {p.value!r}'[:150], p.trace)
                    continue
                n += 1
                if p.value.op != 'tuple':
                    c.violation(what, f'gives {p.value!r}'[:150], p.trace)
                    continue
                got = set()
                for b in p.value.a:
                    own = [k for k in w.boxes if any(contains(b, m) for m in w.marks[k])]
                    bad = [k for k in w.boxes if any(contains(b, m) for m in w.foreign[k])]
                    if len(own) != 1 or bad:
                        c.violation(what, f'gives {b!r}'[:200], p.trace)
                    got |= set(own)
                best |= got
                for x, k in w.boxes.items():
                    if k == 'index' and x not in got and not unreadable(p):
                        c.violation(what, f'gives no bead of box {x} though its index can be opened', p.trace)
                if any(k == 'closed' and x in got for x, k in w.boxes.items()):
                    c.violation(what, 'gives beads of a box that can not be read', p.trace)
                c.ok()
            if n:
                miss = [x for x, k in w.boxes.items() if k != 'closed' and x not in best]
                c.require(not miss, what, f'no bead of box {", ".join(miss)} is ever given')
            else:
                c.violation(what, 'never ends normally')


def resolved(c):
    for other in KINDS:
        w = world(('closed', other))
        what = f'Box.resolve in {text(w)}'
        ps = c.run(c16.resolving(w, direct=True, box=const('A')), **w.options())
        for p in ps:
            c.require(p.kind == 'raise' and p.value.op == 'exc' and p.value.a[0] in ('LookupError', 'KeyError', 'bead.exceptions.BoxIndexError'), what,
                      f'ends with {p.value!r} instead of a lookup error'[:150], p.trace)


def stored(c):
    ws = sym('workspace')
    for failure in FAILURES:
        w = world(('closed', 'raw'), failure)
        what = f'storing into the first of {text(w)}'

        def script(e, st):
            outs = []
            for bs, s in w.make(e, st, list(w.boxes)):
                st_ = s
                st_.overlay[attr(ws, 'name')] = const('n')
                outs += w.method(e, bs[0], 'store', [ws, sym('freeze time')], st_)
            return outs
        n = 0
        yes = lambda e, r, args, kw, st, node: w.exists(e, r, args, kw, st, node) or [(TRUE, st)]
        for p in c.run(script, types={ws: WORKSPACE}, **w.options(stops={WORKSPACE + '.pack': 'stop', WORKSPACE + '.name': 'pure'}, mhooks={'exists': yes, 'is_dir': yes, 'is_file': yes})):
            packed = any(x.fn == WORKSPACE + '.pack' for x in events(p.trace))
            if not packed:
                continue
            n += 1
            c.require(p.kind == 'return' and p.value is not NONE, what, f'ends with {p.value!r} after the archive is made'[:150], p.trace)
        if not n:
            raise Inconclusive('storing')


def check(c):
    c.rule('searched', 'beads of a box are those of its archives without an index, of its index if that can be opened, none if it can not', searched)
    c.rule('resolved', 'resolving in a box with an index that can not be opened is a lookup error', resolved)
    c.rule('stored', 'storing into a box with an index that can not be opened works', stored)
    c.assumptions += ['an index can not be opened when connecting to the database fails', 'two boxes stand for all']
