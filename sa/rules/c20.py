"""Freeze times as instants.  Term analysis: what the strict timestamp reader
computes from each character of the text (fields, sign and size of the zone
offset), that every freeze_time is this reader's result, that the number stored
in the index and the number searched for are exactly the microseconds since the
epoch.  Scenario interpretation: searches by time and newest/oldest with
timestamps whose text order contradicts the order of the instants.  Syntax
query: no comparison or sort anywhere orders timestamp text."""
import ast

from ..boxsearch import Boxes, inserted, reference, typed, location, FREEZE
from ..engine import Inconclusive
from ..flow import events
from ..instants import micros
from ..ordering import Order
from ..sqlworld import Insert
from ..std import *
from ..terms import *
from ..terms import T
from ..timeformat import Slots, BASIC, NAMES
from . import c14, c15

TIMES = tuple(n for n, (prop, _) in c14.CONDITIONS.items() if prop == 'freeze_time')
TEXT = sym('timestamp text')


def replaced(v):
    """moment.replace(field=...) -> the moment having the new fields"""
    if not (v.op == 'mcall' and v.a[1] == 'replace' and not v.a[2] and set(dict(v.a[3])) <= set(NAMES)):
        return v
    m, new = replaced(v.a[0]), dict(v.a[3])
    if not (m.op == 'call' and m.a[0] == 'datetime.datetime' and len(m.a[1]) >= 7):
        new = {k: t for k, t in new.items() if t is not attr(v.a[0], k) and t is not attr(m, k)}
        return v if new else m
    def old(t):
        if t.op == 'attr' and t.a[1] in NAMES and (t.a[0] is v.a[0] or t.a[0] is m):
            return m.a[1][NAMES.index(t.a[1])]
        if t.op == 'bin':
            return mk('bin', t.a[0], old(t.a[1]), old(t.a[2]))
        return t
    fields = [old(new[n]) if n in new else t for n, t in zip(NAMES, m.a[1])]
    return mk('call', m.a[0], tuple(fields) + m.a[1][7:], m.a[2])


def reading(c):
    """text -> instant"""
    def script(e, st):
        outs = []
        for v, s in e.call(e.lookup_qual(FREEZE), [TEXT], [], st, None):
            v = replaced(v)
            if v.op == 'call' and v.a[0] == 'datetime.datetime' and len(v.a[1]) + len(dict(v.a[2])) >= 8:
                tz = dict(v.a[2]).get('tzinfo') or v.a[1][7]
                h = e.hobj(tz, s)
                if h is not None and h.kind == 'inst':
                    for off, s2 in Boxes.method(e, tz, 'utcoffset', [sym('moment')], s):
                        outs.append((mk('tuple', const('fields'), mk('tuple', *v.a[1][:7]), e.snap(off, s2)), s2))
                    continue
                if tz.op == 'call' and tz.a[0] == 'datetime.timezone':
                    outs.append((mk('tuple', const('fields'), mk('tuple', *v.a[1][:7]), tz.a[1][0]), s))
                    continue
            outs.append((v, s))
        return outs
    paths = [p for p in c.run(script, excs=set(), no_stop=[FREEZE]) if p.kind == 'return']
    if not paths:
        raise Inconclusive('reading timestamps')
    what = 'time_from_timestamp'
    for p in paths:
        v = p.value
        if v.op == 'call' and v.a[0] == 'datetime.datetime.strptime' and len(v.a[1]) == 2 and v.a[1][0] is TEXT and is_const(v.a[1][1]):
            c.require(cval(v.a[1][1]) == '%Y%m%dT%H%M%S%f%z', what, f'the text is read by format {cval(v.a[1][1])!r}', p.trace)
            continue
        if v.op != 'tuple' or not v.a or v.a[0] is not const('fields'):
            if v.op == 'call' and v.a[0] == 'datetime.datetime':
                c.violation(what, 'the moment has no zone', p.trace)
                continue
            if v.op == 'mcall' and v.a[1] == 'replace' and v.a[0].op == 'call' and v.a[0].a[0] == 'datetime.datetime.strptime':
                c.violation(what, f'{", ".join(dict(v.a[3]))} of the moment is not as read', p.trace)
                continue
            raise Inconclusive(f'result {v!r}'[:200])
        sl = Slots(TEXT)
        for name, t in zip(NAMES, v.a[1].a):
            f = sl.linear(t)
            c.require(f == {BASIC[name]: 1}, what, f'{name} is {show_form(f)} of the text instead of {show_form({BASIC[name]: 1})}', p.trace)
        if len(v.a[1].a) < 7:
            c.violation(what, f'{NAMES[len(v.a[1].a)]} is not read', p.trace)
        off = sl.delta(v.a[2])
        sign, where = sl.sign(c14.literals(p.trace))
        if sign is None:
            c.violation(what, 'the sign of the zone is not looked at', p.trace)
            continue
        c.require(where == BASIC['sign'], what, 'sign of the zone', p.trace)
        want = {BASIC['tzhour']: sign * 3600 * 10**6, BASIC['tzminute']: sign * 60 * 10**6}
        c.require(off == want, what, f'for zones with sign {"+" if sign > 0 else "-"} the offset in microseconds is {show_form(off)} instead of {show_form(want)}', p.trace)


def show_form(f):
    return ' + '.join(f'{k} * characters {s}' if s != 1 else str(k) for s, k in f.items()) or '0'


def instants(c):
    """every freeze_time is the instant of its freeze_time_str"""
    for qual in ('bead.bead.Bead', ARCHIVE, 'bead.meta.InputSpec', 'bead_cli.web.dummy.Dummy'):
        if c.a.classes.get(qual) is None or c.a.class_lookup(qual, 'freeze_time')[1] is None:
            raise Inconclusive(f'{qual}.freeze_time')
        x = sym('x')

        def script(e, st):
            outs = []
            for t, s in e.get_attr(x, 'freeze_time', st):
                for u, s2 in e.get_attr(x, 'freeze_time_str', s):
                    outs.append((mk('tuple', e.snap(t, s2), e.snap(u, s2)), s2))
            return outs
        paths = c.run(script, types={x: qual}, stops={FREEZE: 'pure'}, excs=set())
        for p in paths:
            if p.kind != 'return':
                continue
            t, u = p.value.a
            if t is mk('call', FREEZE, (u,), ()):
                c.ok(what=f'{qual}.freeze_time')
            elif contains(t, mk('call', FREEZE, (u,), ())):
                c.violation(f'{qual}.freeze_time', f'is {t!r}'[:200], p.trace)
            elif t.op in ('call', 'mcall') and contains(t, u):
                raise Inconclusive(f'{qual}.freeze_time is {t!r}'[:200])
            else:
                c.violation(f'{qual}.freeze_time', f'is {t!r}, not the moment of {u!r}'[:300], p.trace)


def number(c):
    """the number stored is exactly the microseconds of the instant"""
    s = c14.stored(c)
    cols = [n for n, t in s['beads'].items() if t not in s['fts'] and any(contains(t, f) for f in s['fts'])]
    if len(cols) != 1:
        raise Inconclusive(f'columns computed from the freeze time: {cols}')
    for ev, q in s['bead stmts']:
        ins = ev.x
        t = dict(zip(ins.columns or s['world'].schema[ins.table], ins.rows[0]))[cols[0]]
        for f in s['fts']:
            if not contains(t, f):
                continue
            m, why = micros(t, mk('call', FREEZE, (f,), ()))
            if m == 'unknown':
                raise Inconclusive(f'{cols[0]} is {t!r}'[:200])
            c.require(m == 'exact', 'the number stored in the index', f'is not the exact microseconds since the epoch: {why}'[:300], q.trace)


def order(c):
    for title, layout, multi in c15.layouts(False):
        beads = [b for _, bs in layout for b in bs]
        if not 2 <= len(beads) <= 3:
            continue
        sc = c15.Scenario(c, layout)
        for chain in ([('oldest', [])], [('newest', [])], [('newer', [])], [('older', [])]):
            c15.judge(c, sc, chain, multi, title)


def clusters(c):
    """versions of a bead on the web page: most recent first, by instants"""
    q, d = 'bead_cli.web.cluster.Cluster', 'bead_cli.web.dummy.Dummy'
    if c.a.classes.get(q) is None or c.a.classes.get(d) is None:
        raise Inconclusive('Cluster')
    import itertools
    for times in itertools.permutations((1, 2, 3)):
        values = {}
        for i, t in enumerate(times):
            f = sym(f'd{i}.fts')
            values[f] = ('text', (i * 7 + 2) % 3)
            values[mk('call', FREEZE, (f,), ())] = ('time', t)
            values[sym(f'd{i}.cid')] = ('content id', i)
        values[mk('call', FREEZE, (const('20000101T000000000000+0000'),), ())] = ('time', 0)
        values[const('20000101T000000000000+0000')] = ('text', 9)
        values[sym('n')] = ('name', 'n')
        values[sym('k')] = ('kind', 'k')
        order = Order(values)

        def script(e, st):
            outs = []
            for cl, s in e.call(e.lookup_qual(q), [sym('n')], [], st, None):
                cur = [(None, s)]
                for i in range(3):
                    nxt = []
                    for _, s2 in cur:
                        kw = [('name', sym('n')), ('content_id', sym(f'd{i}.cid')), ('kind', sym('k')), ('freeze_time_str', sym(f'd{i}.fts'))]
                        for x, s3 in e.call(e.lookup_qual(d), [], kw, s2, None):
                            nxt += [r for r in Boxes.method(e, cl, 'add', [x], s3)]
                    cur = nxt
                for _, s2 in cur:
                    for h, s3 in e.get_attr(cl, 'head', s2):
                        for b, s4 in Boxes.method(e, cl, 'beads', [], s3):
                            items = e.finite_list(b, s4)
                            if items is None:
                                raise Inconclusive('beads of a cluster')
                            outs.append((mk('tuple', *[e.get_attr(x, 'freeze_time_str', s4)[0][0] for x in [h] + items]), s4))
            return outs
        o = order.options()
        paths = c.run(script, stops={FREEZE: 'pure'}, excs=set(), decide=o['decide'], ohooks=o['ohooks'], xhooks=o['xhooks'], merge_limit=300)
        want = [sym(f'd{i}.fts') for i in sorted(range(3), key=lambda i: -times[i])]
        n = 0
        for p in paths:
            if p.kind != 'return':
                continue
            n += 1
            got = list(p.value.a)
            if got[0] not in want or sorted(got[1:], key=repr) != sorted(want, key=repr):
                raise Inconclusive(f'cluster {got!r}'[:200])
            c.require(got == want[:1] + want, f'versions of a bead of times {times}', f'head {got[0]!r}, versions {got[1:]!r}; expected {want!r}', p.trace)
        if not n:
            raise Inconclusive('clusters')


# ------------------------------------------------------------------ syntax query

ORDERING = ('sorted', 'min', 'max', 'sort', 'nsmallest', 'nlargest', 'insort', 'bisect', 'bisect_left', 'bisect_right', 'merge', 'groupby')
READERS = ('time_from_timestamp', 'parse_iso8601', 'time_from_user', 'strptime', 'fromisoformat', 'timestamp_to_unix_utc_microseconds', 'normalize_timestamp_value')
FIELDS = ('freeze_time_str',)


def textual(n, names, readers):
    """first subexpression that is timestamp text (not passed to a function that reads it)"""
    if isinstance(n, ast.Attribute) and n.attr in FIELDS:
        return n
    if isinstance(n, ast.Name) and n.id in names:
        return n
    if isinstance(n, ast.Subscript):
        k = n.slice
        if isinstance(k, ast.Constant) and k.value in ('freeze_time', 'freeze_time_str') or isinstance(k, (ast.Name, ast.Attribute)) and \
                (k.id if isinstance(k, ast.Name) else k.attr) in ('FREEZE_TIME', 'INPUT_FREEZE_TIME'):
            return n
    if isinstance(n, ast.Call):
        f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
        if f in ('str', 'tuple', 'list', 'repr'):
            return next((x for a in n.args if (x := textual(a, names, readers))), None)
        if isinstance(n.func, ast.Attribute) and f in ('lower', 'upper', 'strip', 'replace', 'encode', 'split'):
            return textual(n.func.value, names, readers)
        return None
    if isinstance(n, (ast.Lambda, ast.FunctionDef, ast.AsyncFunctionDef)):
        return None
    for x in ast.iter_child_nodes(n):
        r = textual(x, names, readers)
        if r is not None:
            return r


def scan(tree):
    """[(node, why)] orderings of timestamp text; number of orderings looked at"""
    found, n = [], 0
    scopes = [tree] + [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]
    local = {x.name: x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)}
    for sc in scopes:
        names = set()
        for x in ast.walk(sc):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and sc is not tree:
                v = x.value
                if isinstance(v, ast.Attribute) and v.attr in FIELDS:
                    names.add(x.targets[0].id)
        for x in own(sc):
            if isinstance(x, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in x.ops):
                n += 1
                t = textual(x, names, READERS)
                if t is not None:
                    found.append((x, 'compares timestamp text'))
            if isinstance(x, ast.Call):
                f = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ''
                if f not in ORDERING:
                    continue
                n += 1
                key = next((k.value for k in x.keywords if k.arg == 'key'), None)
                if isinstance(key, ast.Lambda):
                    t = textual(key.body, names, READERS)
                elif isinstance(key, ast.Name) and key.id in local:
                    t = next((y for r in ast.walk(local[key.id]) if isinstance(r, ast.Return) and r.value is not None for y in [textual(r.value, set(), READERS)] if y), None)
                elif isinstance(key, ast.Call) and any(isinstance(a, ast.Constant) and a.value in ('freeze_time_str', 'freeze_time') and
                                                       (a.value == 'freeze_time_str' or 'itemgetter' in ast.dump(key.func)) for a in key.args):
                    t = key
                elif key is None:
                    t = next((y for a in x.args for e in [a.elt if isinstance(a, (ast.GeneratorExp, ast.ListComp, ast.SetComp)) else a] for y in [textual(e, names, READERS)] if y), None)
                else:
                    t = None
                if t is not None:
                    found.append((x, 'orders by timestamp text'))
    return found, n


def own(sc):
    """nodes of a scope without nested functions"""
    todo = list(ast.iter_child_nodes(sc))
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        yield x
        todo.extend(ast.iter_child_nodes(x))


BAD = """
def f(beads): return sorted(beads, key=lambda b: b.freeze_time_str)
def g(a, b): return a.freeze_time_str < b.freeze_time_str
def h(beads):
    def k(b): return (b.name, b.freeze_time_str)
    return max(beads, key=k)
def i(beads): return min(b.freeze_time_str for b in beads)
def j(beads): return sorted(beads, key=attrgetter('freeze_time_str'))
def l(a, b):
    x = a.freeze_time_str
    return b >= x
"""
GOOD = """
def f(beads): return sorted(beads, key=lambda b: b.freeze_time)
def g(a, b): return time_from_timestamp(a.freeze_time_str) < b.freeze_time
def h(b): return len(b.freeze_time_str) > 3
"""


def syntax(c):
    n_bad = len(scan(ast.parse(BAD))[0])
    c.require(n_bad == 6 and not scan(ast.parse(GOOD))[0], 'self-test', f'the query finds {n_bad} of 6 planted orderings of text')
    total = 0
    for mod, tree in c.a.trees.items():
        found, n = scan(tree)
        total += n
        for node, why in found:
            c.violation(f'{c.a.files[mod][1]}', f'line {node.lineno}: {why}: {ast.unparse(node)}'[:200])
        c.ok(n)
    c.cov['orderings looked at'] = total


def check(c):
    c.rule('reading', 'the strict timestamp reader gives the instant the text denotes', reading)
    c.rule('instants', 'freeze_time is the instant of freeze_time_str everywhere', instants)
    c.rule('number', 'the index stores exact microseconds since the epoch', number)
    for kind in ('raw', 'index'):
        c.rule(f'conditions {kind}', 'conditions on time compare instants, in the index by the exact microseconds', c14.single, args=(c, kind, TIMES))
    c.rule('order', 'newest, oldest, newer, older go by instants', order)
    c.rule('clusters', 'versions on the web page are ordered by instants', clusters)
    c.rule('syntax', 'no comparison or sort orders timestamp text', syntax)
