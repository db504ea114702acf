"""Interprets searching, looking up and indexing on a box holding good archives
and one junk file for which every single operation (opening, reading metadata,
any field of it, its manifest, its freeze time, its name) may fail with any
exception.  Exception-flow analysis: no failure may escape, every good bead is
still found / indexed, and after a failure the junk file is not reported."""
from ..boxsearch import Boxes, typed, location, FREEZE, INDEX_NAME
from ..engine import Ev, Inconclusive
from ..flow import events
from ..ordering import Order
from ..sqlworld import Insert
from ..std import *
from ..terms import *
from ..terms import T
from .c15 import archive, Scenario
from .c16 import resolving, N, C, B

J = sym('junk')
CHAINS = [
    [('all', [])], [('first', [])], [('newest', [])], [('oldest', [])],
    [('by_name', [N]), ('all', [])], [('by_kind', [sym('kind')]), ('all', [])], [('by_content_id', [C]), ('first', [])],
    [('at_or_older', [sym('time')]), ('newest', [])], [('newer_than', [sym('time')]), ('all', [])], [('unique', []), ('all', [])],
]


ARITHMETIC = {'relative_to', 'with_name', 'with_suffix', 'joinpath', 'as_posix', 'is_relative_to', 'name', 'stem', 'parent', 'suffix',
              # text and patterns
              'sub', 'match', 'fullmatch', 'search', 'group', 'groups', 'groupdict', 'rsplit', 'split', 'partition', 'rpartition', 'strip',
              'find', 'rfind', 'count', 'isalpha', 'isdigit', 'isalnum', 'isidentifier', 'isprintable', 'lstrip', 'rstrip', 'title', 'encode',
              'lower', 'upper', 'casefold', 'startswith', 'endswith', 'removesuffix', 'removeprefix', 'replace', 'format', 'join'}


def faulty(j):
    def faults(kinds, origin):
        if origin.op == 'mcall' and origin.a[1] in ARITHMETIC:
            return ()   # nothing is read
        if contains(origin, j):
            return sorted(set(kinds) | {'OtherError'})
        return ()
    return faults


def freeze(j):
    """reading a timestamp fails on junk"""
    def stop(e, qual, sargs, st, node):
        t = mk('call', FREEZE, tuple(e.snap(x, st) for x in sargs), ())
        e.may_raise(('ValueError',), st, node, t)
        return [(t, st)]
    return stop


def hashing(j):
    def stop(e, qual, sargs, st, node):
        t = mk('call', qual, tuple(e.snap(x, st) for x in sargs), ())
        e.may_raise(('OSError',), st, node, t)
        return [(t, st)]
    return stop


def scenario(c, good, j='junk'):
    """values and facts of the good archives: they match every condition used"""
    values = {N: ('name', 'n'), C: ('content id', 'c1'), B: ('box', 'A'), sym('kind'): ('kind', 'k')}
    facts = {}
    terms = {}
    for i, g in enumerate([*good, j]):
        t, lits = archive(c, g, 'A')
        if g is not j:
            terms[g] = t
            facts.update(lits)
        values[t['freeze_time']] = ('time', 1 + i)
        values[t['freeze_time_str']] = ('text', 1 + i)
        values[t['content_id']] = ('content id', f'c{i + 1}')
        values[t['name']] = ('name', 'n')
        values[t['kind']] = ('kind', 'k')
    return Order(values, facts), terms


def options(w, order, **kw):
    o = w.options(xhooks=typed({sym('time'): 'time'}, 'text'))
    o['stops'].update({FREEZE: freeze(J), SECUREHASH + '.file': hashing(J)})
    o.update(exc_all=True, excs=None, faults=faulty(J))
    o.update(kw)
    return o


def failed_on_junk(trace):
    return [ev for ev in events(trace) if ev.kind == 'raise' and isinstance(ev.x, T) and ev.x.op == 'exc'
            and (isinstance(ev.x.a[1], T) and contains(ev.x.a[1], J) or 'InvalidArchive' in str(ev.x.a[0]) or 'ValueError' in str(ev.x.a[0]))]


def searching(c):
    for files in (['junk', 'g1'], ['g1', 'junk'], ['g1', 'junk', 'g2'], ['junk']):
        good = [f for f in files if f != 'junk']
        order, terms = scenario(c, good)
        times = {('g1', True): 1}
        for multi in (False, True):
            for chain in CHAINS:
                if multi and chain[-1][0] not in ('all', 'first'):
                    continue
                label = '.'.join(m for m, _ in chain)
                what = f'search {label} in a box with {files}{" (several boxes)" if multi else ""}'
                order.values[sym('time')] = ('time', 3 if 'older' in label else 0)
                w = Boxes({'A': 'raw'}, {'A': [sym(f) for f in files]}, order=order)
                paths = c.run(w.search(chain, multi), **options(w, order))
                want = {f for f in good if chain[0][0] != 'by_content_id' or f == 'g1'}
                for p in paths:
                    verdict(c, what, p, chain, want, terms)


def verdict(c, what, p, chain, want, terms):
    fts = {t['freeze_time_str']: g for g, t in terms.items()}
    failed = failed_on_junk(p.trace)
    if p.kind == 'raise':
        origin = p.value.a[1]
        if c.a.exc_matches(p.value, 'LookupError') is True and not want and not (isinstance(origin, T) and contains(origin, J)):
            c.ok()
        else:
            c.violation(what, f'the search fails: {p.value!r}'[:300], p.trace)
        return
    if p.value is NONE:
        raise Inconclusive('no result')
    rows = [p.value] if p.value.a and p.value.a[0].op != 'tuple' else list(p.value.a)
    got = set()
    for r in rows:
        f = fts.get(r.a[3])
        got.add(f if f is not None else 'junk' if contains(r, J) else '?')
    if '?' in got:
        raise Inconclusive(f'result {rows!r}'[:200])
    if chain[-1][0] == 'all':
        c.require(want <= got, what, f'beads are left out because of the junk file: {sorted(want - got)}', p.trace)
    else:
        c.require(bool(got), what, 'nothing is found because of the junk file', p.trace)
    if failed:
        c.require('junk' not in got, what, f'a file that is not readable ({failed[0].x!r}) is reported as a bead'[:300], p.trace)
    else:
        c.ok()


def lookup(c):
    for files in (['junk', 'g1'], ['g1', 'junk'], ['junk', 'g1', 'g2']):
        good = [f for f in files if f != 'junk']
        for before in ((), (('all_beads', []),)):
            order, terms = scenario(c, good)
            order.values[const('A')] = ('box', 'A')
            # the junk file is another bead if it is readable at all
            w = Boxes({'A': 'raw'}, {'A': [sym(f) for f in files]}, order=order)
            exists = lambda e, recv, args, kw, st, node: w.exists(e, recv, args, kw, st, node) or [(TRUE, st)]
            o = options(w, order)
            o['mhooks'] = {**o['mhooks'], 'exists': exists, 'is_file': exists}
            what = f'resolving in a box with {files}{" after a search" if before else ""}'
            paths = c.run(resolving(w, before, box=const('A')), **o)
            for p in paths:
                if failed_on_junk(p.trace):
                    ok = p.kind == 'return' and any(contains(p.value.a[0], sym(g)) for g in good)
                    c.require(ok, what, f'fails because of the junk file: {p.value!r}'[:300], p.trace)
                elif p.kind == 'raise' and isinstance(p.value.a[1], T) and contains(p.value.a[1], J):
                    c.violation(what, f'fails because of the junk file: {p.value!r}'[:300], p.trace)
                else:
                    c.ok()


def index(c):
    q = 'bead.box_index.BoxIndex'
    for op in ('rebuild', 'sync'):
        for files in (['junk', 'g1'], ['g1', 'junk']):
            def script(e, st):
                outs = []
                for b, s in e.call(e.lookup_qual(q), [location('A')], [], st, None):
                    s.emit(Ev('call', '@start', ()))
                    outs.extend(Boxes.method(e, b, op, [], s))
                return outs
            js = path((location('A'), J))
            gs = path((location('A'), sym('g1')))
            order, terms = scenario(c, [gs])
            w = Boxes({'A': 'index'}, {'A': [js if f == 'junk' else gs for f in files]}, {'beads': [], 'inputs': []}, order)
            o = options(w, order)

            def validate(e, qual, sargs, st, node):
                t = mk('call', '@validate', (archive_key(e, sargs[0], st),), ())
                e.may_raise(('bead.exceptions.InvalidArchive',), st, node, t)
                return [(NONE, st)]
            o['stops'][ARCHIVE + '.validate'] = validate
            o['merge_limit'] = 300
            what = f'{op} of the index of a box with {files}'
            for p in c.run(script, **o):
                if p.kind == 'raise':
                    c.violation(what, f'fails: {p.value!r}'[:300], p.trace)
                    continue
                inserted = [ev for ev in events(p.trace) if ev.fn == '@sql' and isinstance(ev.x, Insert) and ev.x.table == 'beads']
                good = [ev for ev in inserted if any(contains(t, sym('g1')) for r in ev.x.rows for t in r)]
                junk = [ev for ev in inserted if any(contains(t, J) for r in ev.x.rows for t in r)]
                c.require(good, what, 'a good archive is not indexed because of the junk file', p.trace)
                committed = any(ev.fn == '@commit' for ev in events(p.trace))
                if any('@validate' in repr(ev.x.a[1]) for ev in failed_on_junk(p.trace) if isinstance(ev.x.a[1], T)):
                    c.require(not junk, what, 'an archive that does not verify is indexed', p.trace)


def check(c):
    c.rule('searching', 'searching skips what is not readable and finds everything else', searching)
    c.rule('lookup', 'looking up a bead skips what is not readable', lookup)
    c.rule('index', 'indexing skips what is not readable', index)
