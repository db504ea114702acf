"""Interprets searches of a box from construction to result, on a box holding
one unknown archive (no index) and on an index holding one unknown record: the
SQL text is parsed and evaluated on symbolic columns.  For every condition and
every pair of conditions, the path conditions under which the bead is found
must be exactly the relation asked for (sign analysis: less / equal / greater),
and columns must be filled from the archive attribute they are read back as."""
import itertools

from ..boxsearch import Boxes, reference, inserted, typed, ATTRS, SPEC, FREEZE
from ..engine import Inconclusive
from ..flow import events
from ..instants import micros, instant
from ..sqlworld import Insert, Delete, affinity, Create
from ..std import *
from ..terms import *
from ..terms import T

LT, EQ, GT = 'less', 'equal', 'greater'
ALL = frozenset((LT, EQ, GT))
CONDITIONS = {
    'by_name': ('name', {EQ}), 'by_kind': ('kind', {EQ}), 'by_content_id': ('content_id', {EQ}),
    'at_time': ('freeze_time', {EQ}), 'newer_than': ('freeze_time', {GT}), 'older_than': ('freeze_time', {LT}),
    'at_or_newer': ('freeze_time', {GT, EQ}), 'at_or_older': ('freeze_time', {LT, EQ}),
}
P = sym('archive file')
LOSSY = ('lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith',
         'replace', 'date', 'time', 'split', 'partition', 'rpartition', 'isoformat', 'strftime', 'total_seconds', 'timestamp')
LOSSY_FN = ('builtins.int', 'builtins.round', 'builtins.len', 'math.floor', 'math.ceil', 'builtins.float', 're.match', 're.search',
            're.fullmatch', 'fnmatch.fnmatch', 'fnmatch.fnmatchcase', '@sql:like', '@sql:glob', '@sql:lower', '@sql:upper',
            '@sql:collate nocase', '@sql:collate rtrim', '@sql:trim', '@sql:substr', '@sql:not like')


def lossy(t, r, v):
    """Does t see r or v only through something that forgets part of it?"""
    def go(x, y):
        # -> every occurrence of y below x is under a forgetful operation
        if x is y:
            return False
        if not contains(x, y):
            return True
        if x.op == 'mcall' and x.a[1] in LOSSY or x.op == 'call' and x.a[0] in LOSSY_FN:
            return True
        if x.op in ('slice', 'idx'):
            return True
        return all(go(z, y) for z in parts(x))
    return go(t, r) or go(t, v)


def parts(t):
    out = []

    def add(x):
        if isinstance(x, T):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                add(y)
    for x in t.a:
        add(x)
    return out


class Relation:
    """What the literals of a path say about bead value R against V."""

    def __init__(self, rs, v, texts=(), enc=None):
        self.rs = rs                # terms that are the bead's value
        self.v = v
        self.texts = texts          # textual forms of the value (comparison is not meaningful)
        self.enc = enc              # column symbol -> 'exact' microseconds of the value

    def sides(self, a, b):
        """a, b compare the bead's value with V?  -> (kind, flipped)"""
        for x, y, flip in ((a, b, False), (b, a, True)):
            for r in self.rs:
                if x is r and y is self.v or instant_pair(x, r, y, self.v):
                    return 'exact', flip
                if x is not r and contains(x, r) and not contains(x, self.v) and subst(x, {r: self.v}) is y:
                    if micros(x, r)[0] == 'exact':
                        return 'exact', flip
                    return 'function', flip
            if self.enc is not None and x is self.enc:
                m, why = micros(y, self.v)
                if m == 'exact':
                    return 'exact', flip
                if m == 'lossy':
                    return 'inexact', flip
        return None, False

    def relevant(self, t):
        return any(contains(t, r) for r in self.rs) or contains(t, self.v) or any(contains(t, x) for x in self.texts) or \
            self.enc is not None and contains(t, self.enc)

    def read(self, lits):
        """-> (possible relations, [(literal, why it does not help)], unknown literals)"""
        signs, useless, unknown = ALL, [], []
        for t, val in lits.items():
            if not self.relevant(t) or t is self.v:
                continue
            if t.op == 'cmp' and t.a[0] in ('==', '<'):
                kind, flip = self.sides(t.a[1], t.a[2])
                if kind == 'exact':
                    s = {EQ} if t.a[0] == '==' else {GT} if flip else {LT}
                    signs = signs & (frozenset(s) if val else ALL - s)
                    continue
                if kind == 'function' and t.a[0] == '==':
                    if not val:
                        signs = signs - {EQ}
                        continue
                if kind == 'inexact':
                    useless.append((t, 'inexact'))
                    continue
                if any(contains(t, x) for x in self.texts) and not any(contains(t, r) for r in self.rs) and contains(t, self.v):
                    useless.append((t, 'text comparison'))
                    continue
            if t.op == 'cmp' and t.a[0] == 'in' and not any(contains(t.a[2], x) for x in self.rs + [self.v]):
                continue                                        # well-formedness of a name
            if t.op == 'cmp' and t.a[0] == 'in' and is_const(t.a[1]):
                continue
            if not contains(t, self.v):
                if t.op == 'call' and t.a[0] in ('builtins.isinstance', 'builtins.hasattr'):
                    continue
                if is_row_link(t):
                    continue
                useless.append((t, 'not a condition on the value searched for'))
                continue
            if not any(contains(t, r) for r in self.rs) and not (self.enc is not None and contains(t, self.enc)):
                continue                                        # about the value searched for only
            if any(lossy(t, r, self.v) for r in self.rs) or t.op == 'cmp' and t.a[0] == 'in' and t.a[2] in self.rs + [self.v]:
                useless.append((t, 'looser or stricter than asked'))
                continue
            unknown.append(t)
        return signs, useless, unknown


def instant_pair(x, r, y, v):
    return x is not r and instant(x, r) and instant(y, v) or y is not v and instant(y, v) and instant(x, r)


def is_row_link(t):
    """conditions connecting the records of beads and inputs"""
    return t.op == 'cmp' and all(x.op == 'sym' for x in t.a[1:])


def literals(trace):
    out = {}
    for ev in events(trace):
        if ev.kind == 'assume':
            out[ev.fn] = ev.x
    return out


def relation(name, v, text, ref, kind, timecol):
    prop, expect = CONDITIONS[name]
    if prop == 'freeze_time':
        v = mk('call', FREEZE, (v,), ()) if text else v
    if kind == 'raw':
        texts = sorted(ref['freeze_time_str'], key=lambda t: t.n) if prop == 'freeze_time' else []
        return Relation(sorted(ref[prop], key=lambda t: t.n), v, texts), expect
    if prop == 'freeze_time':
        fts = sym('b1.freeze_time_str')
        return Relation([mk('call', FREEZE, (fts,), ())], v, [fts], sym(f'b1.{timecol}')), expect
    return Relation([sym(f'b1.{prop}')], v), expect


def judge(c, what, conds, kind, paths, ref, timecol):
    """conds: [(method, V symbol, given as text?)]"""
    rels = [relation(n, v, text, ref, kind, timecol) for n, v, text in conds]
    found_some = False
    for p in paths:
        if p.kind == 'raise':
            continue
        found = len(p.value.a)
        lits = literals(p.trace)
        if found > 1:
            c.violation(what, f'one bead is found {found} times', p.trace)
            continue
        got = [(r.read(lits), expect) for r, expect in rels]
        bad = None
        if found:
            found_some = True
            for (signs, useless, unknown), expect in got:
                if not signs <= expect:
                    bad = f'a bead whose value is {" or ".join(sorted(signs - expect))} is found', useless, unknown
        else:
            if any(ev.kind == 'catch' and 'InvalidArchive' in str(ev.fn) for ev in events(p.trace)):
                continue
            if not any(signs <= ALL - expect for (signs, _, _), expect in got) and not contradicting(conds, rels, lits):
                allu = [u for (_, us, _), _ in got for u in us]
                bad = 'a bead for which all conditions hold is left out', allu, [u for (_, _, un), _ in got for u in un]
        if bad is None:
            c.ok()
            continue
        msg, useless, unknown = bad
        if unknown:
            raise Inconclusive(f'{what}: condition {unknown[0]!r}'[:200])
        because = f', by {useless[0][0]!r} ({useless[0][1]})' if useless else ''
        c.violation(what, (msg + because)[:600], p.trace)
    c.require(found_some, what, 'a bead is never found', paths[0].trace)


def contradicting(conds, rels, lits):
    """Two required values of one property which differ."""
    for (n1, v1, _), (n2, v2, _) in itertools.combinations(conds, 2):
        if n1 == n2 and CONDITIONS[n1][1] == {EQ}:
            for t, val in lits.items():
                if t.op == 'cmp' and t.a[0] == '==' and not val and set(t.a[1:]) == {v1, v2}:
                    return True
    return False


def rename_equal(conds, p):
    return p


def search(c, kind, conds, multi=False):
    values = {v: 'text' if text or CONDITIONS[n][0] != 'freeze_time' else 'time' for n, v, text in conds}
    w = Boxes({'box': kind}, {'box': [P]}, {'beads': ['b1'], 'inputs': []})
    opts = w.options(merge_limit=500, xhooks=typed(values))
    return w, c.run(w.search([(n, [v]) for n, v, _ in conds] + [('all', [])], multi), **opts)


def forms(name, i):
    v = sym(f'value {i}')
    return [(name, v, text) for text in ((False, True) if CONDITIONS[name][0] == 'freeze_time' else (False,))]


def time_column(c):
    """the column holding the instant as a number (what searches compare)"""
    st = stored(c)
    cols = [n for n, t in st['beads'].items() if micros_form(t, st['fts'])]
    return cols[0] if len(cols) == 1 else 'freeze_time_unix'


def micros_form(t, ftss):
    return any(contains(t, mk('call', FREEZE, (f,), ())) for f in ftss)


def stored(c):
    p, w, paths = inserted(c)
    ref = reference(c, p, '')
    out = {'fts': ref['freeze_time_str'], 'ref': ref, 'beads': {}, 'inputs': {}, 'world': w, 'paths': paths, 'file': p, 'bead stmts': [], 'input stmts': []}
    for q in paths:
        for ev in events(q.trace):
            if ev.fn == '@sql' and isinstance(ev.x, Insert):
                ins = ev.x
                cols = ins.columns or w.schema.get(ins.table)
                if cols is None or len(ins.rows) != 1 or len(cols) != len(ins.rows[0]):
                    raise Inconclusive('INSERT')
                out[ins.table].update(zip(cols, ins.rows[0]))
                out['bead stmts' if ins.table == 'beads' else 'input stmts'].append((ev, q))
    if not out['beads'] or not out['inputs']:
        c.violation('BoxIndex.index_archive_file', 'beads and their inputs are not stored in the index', paths[0].trace)
        raise Inconclusive('nothing is stored')
    return out


def single(c, kind, names=tuple(CONDITIONS)):
    ref = reference(c, P, 'box')
    timecol = time_column(c) if kind == 'index' else None
    for name in names:
        for cond in forms(name, 1):
            for multi in (False, True):
                what = f'{name}({"text" if cond[2] else "value"}) on {"an indexed" if kind == "index" else "a not indexed"} box{" (search in several boxes)" if multi else ""}'
                w, paths = search(c, kind, [cond], multi)
                judge(c, what, [cond], kind, paths, ref, timecol)


def pairs(c, kind):
    ref = reference(c, P, 'box')
    timecol = time_column(c) if kind == 'index' else None
    for a, b in itertools.combinations_with_replacement(CONDITIONS, 2):
        for x, y in ((a, b), (b, a)) if a != b else ((a, b),):
            conds = [(x, sym('value 1'), False), (y, sym('value 2'), False)]
            for multi in (False, True) if c.thorough else (x > y,):
                w, paths = search(c, kind, conds, multi)
                judge(c, f'{x} and {y} on {"an indexed" if kind == "index" else "a not indexed"} box{" (search in several boxes)" if multi else ""}', conds, kind, paths, ref, timecol)


# errors of the program, not of the data
CERTAIN = ('TypeError', 'AttributeError', 'NameError', 'UnboundLocalError', 'ProgrammingError', 'OperationalError')


def attributes(c):
    """column by column: what is stored, what is read back"""
    s = stored(c)
    w = Boxes({'box': 'index'}, {}, {'beads': ['b1'], 'inputs': ['i1']})
    paths = c.run(w.search([('all', [])]), **w.options(merge_limit=500))
    what = 'beads read from the index'
    n = 0
    for p in paths:
        if p.kind == 'raise' and any(x.op == 'exc' and str(x.a[0]).split('.')[-1] in CERTAIN for x in walk(p.value)):
            c.violation(what, f'reading fails with {p.value!r}'[:200], p.trace)
        if p.kind != 'return' or not p.value.a:
            continue
        n += 1
        vals = dict(zip(ATTRS + ('inputs',), p.value.a[0].a))
        c.require(vals['box_name'] is const('box'), what, f'box name is {vals["box_name"]!r}', p.trace)
        for name in ATTRS[:-1]:
            match(c, what, name, vals[name], 'b1', s['beads'], s['ref'][name], p.trace)
        lits = literals(p.trace)
        linked = [(t, v) for t, v in lits.items() if any(x.op == 'sym' and str(x.a[0]).startswith('i1.') for x in walk(t)) and is_row_link(t)]
        ins = vals['inputs']
        if ins.op == 'attr' and ins.a[0].op == 'obj' or is_const(ins):
            c.violation(what, 'inputs are not set', p.trace)
            continue
        if ins.op != 'tuple':
            raise Inconclusive(f'inputs {ins!r}')
        if ins.a:
            want = {(col, 'name') for col in owner_columns(s, 'name')} and owner_columns(s, 'name'), owner_columns(s, 'content_id')
            for attr_, cols in zip(('name', 'content_id'), want):
                ok = any(v and t.a[0] == '==' and {x.a[0] for x in t.a[1:]} == {f'i1.{col}', f'b1.{bc}'} for t, v in linked for col in cols for bc in own_columns(s, attr_))
                c.require(ok, what, f'inputs of a bead with another {attr_} are listed as its inputs', p.trace)
            for rec in ins.a:
                if rec.op != 'tuple':
                    raise Inconclusive(f'input {rec!r}')
                for name, t in zip(SPEC, rec.a):
                    match_input(c, what, name, t, s, p.trace)
        else:
            c.require(any(not v for t, v in linked), what, 'inputs of a bead are left out', p.trace)
    c.require(n, what, 'no bead is read', paths[0].trace)
    # types of the columns: text must stay text
    for st in s['world'].statements:
        if isinstance(st, Create) and st.what == 'table':
            for col, decl in st.columns.items():
                numeric = st.name == 'beads' and micros_form(s['beads'].get(col, const(0)), s['fts'])
                aff = affinity(decl)
                if numeric:
                    c.require(aff in ('INTEGER', 'NUMERIC', 'BLOB'), 'schema of the index', f'{st.name}.{col} has type {aff}: numbers do not compare as numbers')
                else:
                    c.require(aff in ('TEXT', 'BLOB'), 'schema of the index', f'{st.name}.{col} has type {aff}: text that looks like a number is changed')
                c.require('nocase' not in decl and 'rtrim' not in decl, 'schema of the index', f'{st.name}.{col} is compared with collation {" ".join(decl)}')


def own_columns(s, name):
    return [c for c, t in s['beads'].items() if t in s['ref'][name]]


def owner_columns(s, name):
    """columns of table inputs that name the bead the input belongs to"""
    return [c for c, t in s['inputs'].items() if t in s['ref'][name]]


def match(c, what, name, t, row, stored_, ref, trace):
    if t.op == 'sym' and str(t.a[0]).startswith(row + '.'):
        col = t.a[0].split('.', 1)[1]
        v = stored_.get(col)
        if v is None:
            raise Inconclusive(f'column {col} is not stored')
        c.require(v in ref, what, f'{name} is read from column {col}, which stores {v!r}', trace)
    elif any(x.op == 'sym' and str(x.a[0]).startswith(row + '.') for x in walk(t)):
        if t.op == 'const' or lossy(t, *[x for x in walk(t) if x.op == 'sym'][:1] * 2):
            c.violation(what, f'{name} is {t!r}', trace)
        else:
            raise Inconclusive(f'{name} is {t!r}')
    else:
        c.violation(what, f'{name} is {t!r}, not what was stored', trace)


def match_input(c, what, name, t, s, trace):
    """the column must be filled with attribute `name` of the archive's input"""
    if not (t.op == 'sym' and str(t.a[0]).startswith('i1.')):
        if t.op == 'const':
            c.violation(what, f'{name} of an input is {t!r}', trace)
            return
        raise Inconclusive(f'{name} of an input is {t!r}')
    col = t.a[0].split('.', 1)[1]
    v = s['inputs'].get(col)
    if v is None:
        raise Inconclusive(f'column {col} is not stored')
    # which attribute of the input specifications of the archive is this?
    spec = input_attrs(c, s)
    if v in spec[name]:
        c.ok()
    elif any(v in spec[n] for n in SPEC) or any(v in s['ref'][n] for n in ATTRS):
        c.violation(what, f'{name} of an input is read from column {col}, which stores {v!r}', trace)
    else:
        raise Inconclusive(f'column {col} stores {v!r}')


def input_attrs(c, s):
    """terms of the attributes of an element of the archive's inputs"""
    if 'spec' not in s:
        def script(e, st):
            outs = []
            for a, s1 in e.call(e.lookup_qual(ARCHIVE), [s['file'], const('')], [], st, None):
                for ins, s2 in e.get_attr(a, 'inputs', s1):
                    res = []

                    def body(x, s3):
                        for n in SPEC:
                            for t, _ in e.get_attr(x, n, s3):
                                res.append((n, e.snap(t, s3)))
                        return [('next', None, s3)]
                    e.iterate(ins, s2, body, None)
                    outs.append((mk('tuple', *[mk('tuple', const(n), t) for n, t in res]), s2))
            return outs
        spec = {n: set() for n in SPEC}
        for q in c.run(script, stops={**HASH, FREEZE: 'pure'}, excs=set()):
            if q.kind == 'return':
                for x in q.value.a:
                    spec[cval(x.a[0])].add(x.a[1])
        s['spec'] = spec
    return s['spec']


def check(c):
    for kind, text in (('raw', 'without index'), ('index', 'with index')):
        c.rule(f'single {kind}', f'each condition, {text}: a bead is found exactly when the relation holds', single, args=(c, kind))
        c.rule(f'pairs {kind}', f'each pair of conditions, {text}: a bead is found exactly when both relations hold', pairs, args=(c, kind))
    c.rule('attributes', 'attributes and inputs of beads read from the index are what was stored for the archive', attributes)
