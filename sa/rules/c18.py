"""Interprets the operations of the index (rebuild, sync, adding and removing
one file) on scenarios of known shape: which zip files are in the box, which of
them verify, which records the index holds.  The SQL statements of each path are
replayed with their transactions on symbolic rows; the committed content of the
index must be the content the specification gives.  In a second pass every
operation on the archive or the database may fail: the committed content must
then be the content before or after, never something in between."""
import itertools

from ..boxsearch import Boxes, typed, location, FREEZE
from ..engine import Ev, Inconclusive
from ..flow import events
from ..indexstate import IndexWorld, row
from ..ordering import Order
from ..std import *
from ..terms import *
from ..terms import T
from .c15 import archive

Q = 'bead.box_index.BoxIndex'
A = location('A')


def file(f):
    return path((A, sym(f)))


class Case:
    """files: {file: (key, valid)}; prior: [(row id, key, file)]"""

    def __init__(self, c, files, prior=(), failing=False, differ='both'):
        self.differ = differ        # in what beads 1, 2, 3 differ
        self.c, self.files, self.prior = c, dict(files), list(prior)
        self.failing = failing
        self.values, self.facts = {}, {}
        self.key_of = {}
        for f, (k, _) in self.files.items():
            self.known(f, k)
        for r, k, f in self.prior:
            self.values[sym(f'{r}.name')] = ('name', k if differ != 'content' else 1)
            self.values[sym(f'{r}.content_id')] = ('content id', k if differ != 'name' else 1)
            self.values.setdefault(self.file_path(f), ('file path', f))
        self.order = Order(self.values, self.facts)

    def known(self, f, k):
        t, lits = archive(self.c, file(f), '')
        self.facts.update(lits)
        self.values[t['name']] = ('name', k if self.differ != 'content' else 1)
        self.values[t['content_id']] = ('content id', k if self.differ != 'name' else 1)
        self.values[t['kind']] = ('kind', 'k')
        self.values[t['freeze_time_str']] = ('text', f)
        self.values[t['freeze_time']] = ('time', f)
        self.values.setdefault(self.file_path(f), ('file path', f))

    def file_path(self, f):
        """what the index stores as the place of file f"""
        r, = reference(self.c, f)['beads']
        return dict(r)['file_path']

    def rows(self):
        beads = [self.prior_row(r, f) for r, _, f in self.prior]
        inputs = [self.prior_input(r) for r, _, _ in self.prior]
        return {'beads': beads, 'inputs': inputs}

    def prior_row(self, r, f):
        cols = {k: sym(f'{r}.{k}') for k in dict(reference(self.c, f)['beads'][0])}
        cols['file_path'] = self.file_path(f)
        return row(**cols)

    def prior_input(self, r):
        ref = reference(self.c, 'f')['inputs']
        cols = {k: sym(f'{r}.input.{k}') for k in (dict(ref[0]) if ref else ('bead_name', 'bead_content_id'))}
        cols.update(bead_name=sym(f'{r}.name'), bead_content_id=sym(f'{r}.content_id'))
        return row(**cols)

    def run(self, op, args=()):
        w = IndexWorld([file(f) for f in self.files], self.rows(), self.order, ('all',) if self.failing else ())
        self.world = w

        def script(e, st):
            outs = []
            for b, s in e.call(e.lookup_qual(Q), [A], [], st, None):
                s.emit(Ev('call', '@start', ()))
                outs.extend(Boxes.method(e, b, op, args, s))
            return outs

        def validate(e, qual, sargs, st, node):
            k = archive_key(e, sargs[0], st)
            for f, (_, valid) in self.files.items():
                if k is file(f):
                    if valid:
                        return [(NONE, st)]
                    e.raise_(mk('exc', 'bead.exceptions.InvalidArchive', k), st, node)
                    return []
            raise Inconclusive(f'validation of {k!r}'[:150])
        o = w.options(xhooks=typed({}, 'text'))
        o['stops'][ARCHIVE + '.validate'] = validate
        o['merge_limit'] = 2000
        if self.failing:
            o.update(exc_all=True, excs=None, faults=anything)
        else:
            o.update(excs=set())
        return self.c.run(script, **o)

    def what(self, op):
        files = ', '.join(f'{f} (bead {k}{"" if v else ", does not verify"})' for f, (k, v) in self.files.items()) or 'no file'
        prior = ', '.join(f'bead {k} in {f}' for _, k, f in self.prior) or 'nothing'
        same = {'both': '', 'content': ' (all beads have the same name)', 'name': ' (all beads have the same content)'}[self.differ]
        return f'{op}, box with {files}; index with {prior}{same}'

    # -------------------------------------------------------------- content
    def label(self, rows):
        """rows of the index -> {key: {labels}} , {(key, label) of inputs}"""
        beads, inputs = [], []
        mine = {self.prior_row(r, f): ('record', r) for r, _, f in self.prior}
        min_ = {self.prior_input(r): ('record', r) for r, _, _ in self.prior}
        for f in self.files:
            ref = reference(self.c, f)
            mine.update({r: ('file', f) for r in ref['beads']})
            min_.update({r: ('file', f) for r in ref['inputs']})
        for r in rows['beads']:
            if r not in mine:
                raise Inconclusive(f'a record with {[v for _, v in r]!r}'[:250])
            beads.append(mine[r])
        for r in rows['inputs']:
            if any(n == '#loop' for n, _ in r):
                inputs.append(('part', '?'))
                continue
            if r not in min_:
                raise Inconclusive(f'an input record with {[v for _, v in r]!r}'[:250])
            inputs.append(min_[r])
        return sorted(beads), sorted(inputs)

    def key(self, label):
        kind, x = label
        return self.files[x][0] if kind == 'file' else next(k for r, k, _ in self.prior if r == x)


def anything(kinds, origin):
    if any(x.op == 'call' and x.a[0] in ('@sql', '@db', '@sql:commit', 'zipfile.ZipFile') for x in walk(origin)):
        return ['OtherError']
    return ()


_ref = {}
_traces = []


def reference(c, f):
    """records which indexing file f alone produces"""
    k = (id(c), 'f')
    if k not in _ref:
        _ref[k] = None
        case = Case.__new__(Case)
        case.c, case.files, case.prior, case.failing, case.differ = c, {'f': (1, True)}, [], False, 'both'
        t, lits = archive(c, file('f'), '')
        case.order = Order({t['name']: ('name', 1), t['content_id']: ('content id', 1), t['kind']: ('kind', 'k'), t['freeze_time_str']: ('text', 1),
                            t['freeze_time']: ('time', 1)}, dict(lits))
        case.rows = dict         # (a new index)
        got = []
        for p in case.run('index_archive_file', [file('f')]):
            if p.kind == 'return':
                got.append(case.world.final(p.trace))
                got[-1]['trace'] = p.trace
        _ref[k] = got
        for g in got:
            _traces.append((g, g.pop('trace')))
    got = _ref[k]
    if not got or any(len(g['beads']) != 1 for g in got) or any(g != got[0] for g in got):
        raise Inconclusive('what indexing an archive stores')
    if f == 'f':
        return got[0]
    return {t: [tuple((n, subst(v, {sym('f'): sym(f)})) for n, v in r) for r in rows] for t, rows in got[0].items()}


# ------------------------------------------------------------------ specification

def acceptable(case, start, added, gone):
    """-> {key: (set of acceptable labels, may be absent)}; start: the prior
    records count, added: files that have to be considered"""
    res = {}
    keys = {k for k, _ in case.files.values()} | {k for _, k, _ in case.prior}
    for k in keys:
        new = {('file', f) for f in added if case.files[f] == (k, True)}
        old = set()
        for r, kk, f in case.prior:
            if start and kk == k and f not in gone:
                old |= {('record', r)}
                if f in case.files and case.files[f] == (k, True):
                    old |= {('file', f)}
        res[k] = (new | old, not (new or old))
    return res


def judge(case, op, p, want, partial=False):
    what = case.what(op)
    if p.kind == 'raise':
        case.c.violation(what, f'fails: {p.value!r}'[:200], p.trace)
        return
    beads, inputs = case.label(case.world.final(p.trace))
    c = case.c
    seen = {}
    for b in beads:
        seen.setdefault(case.key(b), []).append(b)
    for k, (labels, absent) in want.items():
        got = seen.pop(k, [])
        if not got:
            c.require(absent or partial, what, f'bead {k} is not in the index afterwards', p.trace)
        else:
            c.require(len(got) == 1 and got[0] in labels, what, f'the index holds {describe(got)} for bead {k}, acceptable: {describe(labels)}', p.trace)
    c.require(not seen, what, f'the index holds {seen}', p.trace)
    expect = sorted(b for b in beads if b[0] == 'record' or reference(c, b[1])['inputs'])
    c.require(sorted(set(inputs)) == expect, what, f'the index holds beads {describe(beads)} but inputs {describe(inputs)}', p.trace)
    prior_inputs = [i for i in inputs if i[0] == 'record']
    c.require(len(set(prior_inputs)) == len(prior_inputs), what, 'inputs are duplicated', p.trace)


def describe(labels):
    return ', '.join('part of a bead' if k == 'part' else f'the {"previous record" if k == "record" else "record of file"} {x}' for k, x in sorted(labels)) or 'nothing'


V, X = True, False
BOXES = [
    ({}, []),
    ({'f': (1, V)}, []),
    ({'f': (1, V), 'g': (2, V)}, []),
    ({'f': (1, V), 'g': (1, V)}, []),
    ({'f': (1, X), 'g': (2, V)}, []),
    ({'f': (1, V), 'g': (2, X)}, []),
    ({}, [('r', 1, 'f')]),
    ({'f': (1, V)}, [('r', 1, 'f')]),
    ({'f': (1, V), 'g': (2, V)}, [('r', 1, 'f')]),
    ({'f': (1, V), 'g': (2, V)}, [('r', 2, 'g')]),
    ({'g': (2, V)}, [('r', 1, 'f')]),
    ({'g': (1, V)}, [('r', 1, 'f')]),
    ({'g': (1, V), 'f': (1, V)}, [('r', 1, 'f')]),
    ({'f': (1, V)}, [('r', 1, 'f'), ('s', 2, 'g')]),
    ({}, [('r', 1, 'f'), ('s', 2, 'g')]),
    ({'f': (1, V), 'g': (2, V)}, [('r', 1, 'f'), ('s', 2, 'g')]),
    ({'f': (1, X)}, [('s', 2, 'g')]),
    ({'f': (1, X)}, [('r', 1, 'f')]),
    ({'f': (1, V), 'h': (3, V)}, [('s', 2, 'g'), ('r', 1, 'f')]),
    ({'f': (1, V), 'g': (2, V), 'h': (3, V)}, [('r', 2, 'g')]),
]


def boxes():
    for files, prior in BOXES:
        for differ in ('both', 'content', 'name') if len({k for k, _ in files.values()} | {k for _, k, _ in prior}) > 1 else ('both',):
            yield files, prior, differ


def rebuild(c):
    for files, prior, differ in boxes():
        case = Case(c, files, prior, differ=differ)
        want = acceptable(case, False, list(files), ())
        for p in case.run('rebuild'):
            judge(case, 'rebuild', p, want)


def sync(c):
    for files, prior, differ in boxes():
        case = Case(c, files, prior, differ=differ)
        recorded = {f for _, _, f in prior}
        want = acceptable(case, True, [f for f in files if f not in recorded], recorded - set(files))
        for p in case.run('sync'):
            judge(case, 'sync', p, want)


def adds(c):
    try:
        reference(c, 'f')
    except Inconclusive:
        if not _traces:
            raise
    for g, trace in _traces:
        c.require(g['beads'], 'adding an archive that verifies to a new index', 'the bead is not in the index', trace)
        c.require(g['inputs'] or not g['beads'], 'adding an archive that verifies to a new index', 'the inputs of the bead are not in the index', trace)


def single(c):
    case = Case(c, {'f': (1, V)})
    for p in case.run('index_archive_file', [file('f')]):
        if p.kind == 'return':
            rows = case.world.final(p.trace)
            c.require(rows['beads'], case.what('adding file f'), 'the bead is not in the index', p.trace)
            c.require(rows['inputs'], case.what('adding file f'), 'the inputs of the bead are not in the index', p.trace)
    prior = [[], [('r', 1, 'f')], [('r', 1, 'old')], [('r', 2, 'f')], [('r', 2, 'other')], [('r', 1, 'old'), ('s', 2, 'other')]]
    for rows, valid, differ in itertools.product(prior, (V, X), ('both', 'content', 'name')):
        case = Case(c, {'f': (1, valid)}, rows, differ=differ)
        want = acceptable(case, True, ['f'], ())
        if valid:
            want[1] = ({('file', 'f')}, False)
        for p in case.run('index_archive_file', [file('f')]):
            judge(case, 'adding file f', p, want)
    for rows, differ in itertools.product(prior + [[('r', 1, 'f'), ('s', 2, 'f')], [('r', 1, 'f'), ('s', 2, 'other')]], ('both', 'content', 'name')):
        case = Case(c, {'f': (1, V)}, rows, differ=differ)
        want = acceptable(case, True, [], {'f'})
        for p in case.run('unindex_archive_file', [file('f')]):
            judge(case, 'removing file f', p, want)


def atomic(c):
    for rows in ([], [('r', 1, 'f')], [('r', 1, 'old')], [('r', 1, 'old'), ('s', 2, 'other')]):
        case = Case(c, {'f': (1, V)}, rows, failing=True)
        before = sorted(('record', r) for r, _, _ in rows)
        after = sorted([('record', r) for r, k, _ in rows if k != 1] + [('file', 'f')])
        part(case, 'adding file f', case.run('index_archive_file', [file('f')]), (before, after))
        case = Case(c, {'f': (1, V)}, rows, failing=True)
        after = sorted(('record', r) for r, _, f in rows if f != 'f')
        part(case, 'removing file f', case.run('unindex_archive_file', [file('f')]), (before, after))


def part(case, op, paths, allowed):
    what = case.what(op) + '; an operation may fail'
    c = case.c
    for p in paths:
        if p.kind == 'raise' and not any(ev.fn == '@start' for ev in events(p.trace)):
            continue
        beads, inputs = case.label(case.world.final(p.trace))
        expect = sorted(b for b in beads if b[0] == 'record' or reference(c, b[1])['inputs'])
        c.require(any(beads == x for x in allowed) and sorted(set(inputs)) == expect, what,
                  f'the index is left with beads {describe(beads)} and inputs of {describe(inputs)}', p.trace)


def storing(c):
    from ..engine import Ev
    w = IndexWorld([], {'beads': [], 'inputs': []}, None)
    pack = lambda e, qual, sargs, st, node: [(NONE, st)]

    def index(e, qual, sargs, st, node):
        st.emit(Ev('call', '@indexed', (e.snap(sargs[1], st),), site=e.site(node)))
        return [(NONE, st)]

    def script(e, st):
        outs = []
        for bs, s in w.make(e, st, ['A']):
            outs.extend(Boxes.method(e, bs[0], 'store', [sym('workspace'), sym('freeze time')], s))
        return outs
    o = Boxes({'A': 'index'}).options(xhooks=typed({}, 'text'))
    o['stops'].update({WORKSPACE + '.pack': pack, Q + '.index_archive_file': index})
    n = 0
    for p in c.run(script, types={sym('workspace'): WORKSPACE}, **o):
        if p.kind != 'return':
            continue
        n += 1
        got = [ev.args[0] for ev in events(p.trace) if ev.fn == '@indexed']
        v = p.value
        if not isinstance(v, T) or v.op == 'obj':
            raise Inconclusive('what store returns')
        c.require(v in got, 'storing a bead in a box with index', f'{v!r} is not added to the index ({got!r})'[:250], p.trace)
    if not n:
        raise Inconclusive('storing')


def check(c):
    c.rule('adding', 'an archive that verifies gets into a new index, with its inputs', adds)
    c.rule('rebuild', 'rebuilding gives an index of exactly the archives of the box', rebuild)
    c.rule('sync', 'synchronising adds what is new, removes what is gone and nothing else', sync)
    c.rule('single file', 'adding and removing a file changes exactly the records of its bead', single)
    c.rule('atomic', 'a failing operation leaves no partial change', atomic)
    c.rule('storing', 'storing a bead in a box with an index adds it to the index', storing)
