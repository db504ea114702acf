"""Interprets resolving a bead in a list of boxes (with and without index, fresh
and after earlier searches) to every outcome.  On each path that returns, the
conditions passed must include that name and content id read from the returned
file itself equal the bead's, its box is the bead's, and nothing of another box
was touched (must-pass-through); with two candidates in the box exactly the one
with both the name and the content id is returned."""
import itertools

from ..boxsearch import Boxes, typed, location, FREEZE
from ..engine import Ev, Inconclusive
from ..flow import events
from ..ordering import Order
from ..std import *
from ..terms import *
from ..terms import T
from .c15 import archive

N, C, B = sym('bead name'), sym('bead content id'), sym('bead box')


def bead(e, st, box=B):
    outs = e.call(e.lookup_qual('bead.bead.Bead'), [], [], st, None)
    (b, st), = outs
    for n, v in (('name', N), ('content_id', C), ('box_name', box), ('kind', sym('bead kind')), ('freeze_time_str', sym('bead time'))):
        st, = e.setattr(b, n, v, st, None)
    return b, st


def resolving(w, before=(), direct=False, box=B):
    """-> tuple(file, box name, name, content id) of the archive"""
    def script(e, st):
        outs = []
        for bs, s in w.make(e, st, list(w.boxes)):
            b, s = bead(e, s, box)
            cur = [(None, s)]
            for m, args in before:
                cur = [r for _, s2 in cur for r in w.method(e, bs[0], m, args, s2)]
            for _, s2 in cur:
                s2.emit(Ev('call', '@start', ()))
                if direct:
                    res = w.method(e, bs[0], 'resolve', [b], s2)
                else:
                    res = e.call(e.lookup_qual('bead.box.resolve'), [e.new_container('list', [('item', x) for x in bs], s2), b], [], s2, None)
                for a, s3 in res:
                    outs.extend(facts(e, a, s3))
        return outs
    return script


def facts(e, a, st):
    h = e.hobj(a, st)
    if h is None or h.kind != 'inst':
        return [(mk('tuple', e.snap(a, st)), st)]
    st.emit(Ev('call', '@end', ()))
    f = archive_key(e, a, st)
    (bn, st), = e.get_attr(a, 'box_name', st)
    outs = []
    for fresh, s in e.call(e.lookup_qual(ARCHIVE), [f, bn], [], st, None):
        for n, s2 in e.get_attr(fresh, 'name', s):
            for c, s3 in e.get_attr(fresh, 'content_id', s2):
                outs.append((mk('tuple', f, e.snap(bn, s3), e.snap(n, s3), e.snap(c, s3)), s3))
    return outs


def between(trace):
    on, out = False, []
    for ev in events(trace):
        if ev.fn == '@start':
            on = True
        elif ev.fn == '@end':
            on = False
        elif on:
            out.append(ev)
    return out


def lits_of(trace):
    return {ev.fn: ev.x for ev in events(trace) if ev.kind == 'assume'}


def equal(c, lits, a, b):
    return a is b or lits.get(c.a.eq_term(a, b)) is True


KINDS = list(itertools.product(('raw', 'index'), repeat=2))


def world(kinds, order=None, names='AB'):
    kinds = dict(zip(names, kinds))
    a, b = names
    rows = {a: ['a1', 'a2'], b: ['b1']}
    files = {a: [sym('a1'), sym('a2')], b: [sym('b1')]}

    def tables(db):
        for n in kinds:
            if contains(db, location(n)):
                return {'beads': rows[n], 'inputs': []}
        raise Inconclusive('database')
    w = Boxes(kinds, {k: v if order else v[:1] for k, v in files.items()}, tables, order)
    if not order:
        rows[a] = rows[a][:1]
    w.owned = {n: [location(n)] + files[n] + [sym(f'{r}.{col}') for r in rows[n] for col in ('name', 'content_id', 'file_path')] for n in kinds}
    return w


def identity(c):
    for kinds in KINDS:
        for before in ((), (('all_beads', []),)):
            w = world(kinds)
            what = f'resolve in boxes ({", ".join(kinds)}){" after a search" if before else ""}'
            paths = c.run(resolving(w, before), **w.options(xhooks=typed({}, 'text')))
            one(c, what, w, paths)
    for kind in ('raw', 'index'):
        w = world((kind, kind))
        what = f'Box.resolve in a box ({kind})'
        paths = c.run(resolving(w, direct=True), **w.options(xhooks=typed({}, 'text')))
        one(c, what, w, paths)


def one(c, what, w, paths):
    n = 0
    for p in paths:
        lits = lits_of(p.trace)
        if p.kind != 'return':
            continue
        if len(p.value.a) != 4:
            c.violation(what, f'{p.value.a[0]!r} is returned, not an archive', p.trace)
            continue
        n += 1
        f, box, name, cid = p.value.a
        owner = next((k for k, own in w.owned.items() if any(contains(f, x) for x in own)), None)
        if owner is None:
            raise Inconclusive(f'file {f!r}')
        c.require(equal(c, lits, B, const(owner)), what, f'a file of box {owner} is returned although the bead may be from another box', p.trace)
        c.require(equal(c, lits, box, B) or box is const(owner) and equal(c, lits, B, box), what, f'the archive is said to be from box {box!r}', p.trace)
        for label, a, b in (('name', name, N), ('content id', cid, C)):
            c.require(equal(c, lits, a, b), what, f'an archive is returned without its {label} being compared to that of the bead', p.trace)
        foreign = [x for k, own in w.owned.items() if k != owner for x in own]
        for ev in between(p.trace):
            if ev.kind in ('call', 'mcall', 'query') and any(isinstance(t, T) and contains(t, x) for t in ev.args for x in foreign):
                c.violation(what, f'another box is accessed: {ev!r}'[:300], p.trace)
                break
        else:
            c.ok()
    c.require(n, what, f'no archive is ever returned ({paths[0].value!r})'[:200], paths[0].trace)


def choice(c):
    """two archives in the box: one has name and content id, the other only one of them"""
    for kind in ('raw', 'index'):
        for good in ('a1', 'a2'):
            other = 'a2' if good == 'a1' else 'a1'
            for differs in ('content_id', 'name'):
                for before in ((), (('all_beads', []),)):
                    values, facts_ = {N: ('name', 'n'), C: ('content id', 'c'), B: ('box', 'A'), const('A'): ('box', 'A'), const('B'): ('box', 'B')}, {}
                    w = world((kind, 'raw'), Order(values, facts_))
                    for x in ('a1', 'a2', 'b1'):
                        if kind == 'raw' or x == 'b1':
                            terms, lits = archive(c, x, 'A')
                            facts_.update(lits)
                            todo = [terms]
                        else:
                            # the record in the index, and the file it names
                            p = path((location('A'), sym(f'{x}.file_path')))
                            terms, lits = archive(c, p, 'A')
                            facts_.update(lits)
                            todo = [terms, {n: sym(f'{x}.{n}') for n in ('name', 'content_id')}]
                            values[sym(f'{x}.freeze_time_unix')] = ('time number', 1)
                            values[sym(f'{x}.file_path')] = ('file', x)
                        for t in todo:
                            values[t['name']] = ('name', 'n' if x == good or differs != 'name' else 'm')
                            values[t['content_id']] = ('content id', 'c' if x == good or differs != 'content_id' else 'd')
                    what = f'resolve in a box ({kind}) with another archive of {"the same name" if differs != "name" else "the same content"}{" after a search" if before else ""}'
                    def exists(e, recv, args, kw, st, node):
                        r = w.exists(e, recv, args, kw, st, node)
                        return r if r is not None else [(TRUE, st)]
                    paths = c.run(resolving(w, before, box=const('A')), **w.options(xhooks=typed({}, 'text'), mhooks={'exists': exists, 'is_file': exists}))
                    for p in paths:
                        open_ = lits_of(p.trace)
                        if p.kind == 'raise' and open_:
                            raise Inconclusive(f'{what}: {list(open_)[0]!r}'[:200])
                        if p.kind == 'raise':
                            c.violation(what, f'fails: {p.value!r}', p.trace)
                            continue
                        f = p.value.a[0]
                        c.require(any(contains(f, x) for x in (sym(good), sym(f'{good}.file_path'))), what, f'{f!r} is returned', p.trace)


SIMILAR = [('b', 'B'), ('BB', 'B'), ('B', 'BB'), ('B ', 'B'), ('b_B', 'b_b')]


def second(c, names='AB'):
    """the box of the bead is not the first one"""
    first, second = names
    for kinds in KINDS:
        values, facts_ = {N: ('name', 'n'), C: ('content id', 'c'), B: ('box', second), const(first): ('box', first), const(second): ('box', second)}, {}
        w = world(kinds, Order(values, facts_), names)
        for x, n in (('a1', first), ('a2', first), ('b1', second)):
            p = sym(x)
            todo = []
            if kinds[names.index(n)] == 'index':
                p = path((location(n), sym(f'{x}.file_path')))
                todo = [{k: sym(f'{x}.{k}') for k in ('name', 'content_id')}]
                values[sym(f'{x}.freeze_time_unix')] = ('time number', 1)
                values[sym(f'{x}.file_path')] = ('file', x)
            terms, lits = archive(c, p if todo else x, n)
            facts_.update(lits)
            for t in [terms] + todo:
                values[t['name']] = ('name', 'n')
                values[t['content_id']] = ('content id', 'c')
        what = f'resolve in the second of two boxes {names} ({", ".join(kinds)})'

        def exists(e, recv, args, kw, st, node):
            r = w.exists(e, recv, args, kw, st, node)
            return r if r is not None else [(TRUE, st)]
        paths = c.run(resolving(w, box=const(second)), **w.options(xhooks=typed({}, 'text'), mhooks={'exists': exists, 'is_file': exists}))
        for p in paths:
            open_ = lits_of(p.trace)
            if p.kind == 'raise' and open_:
                raise Inconclusive(f'{what}: {list(open_)[0]!r}'[:200])
            if p.kind == 'raise':
                c.violation(what, f'fails: {p.value!r}', p.trace)
                continue
            f = p.value.a[0]
            c.require(any(contains(f, x) for x in (sym('b1'), sym('b1.file_path'))), what, f'{f!r} is returned', p.trace)


def check(c):
    c.rule('identity', 'a returned archive has been compared with the bead in name and content id, and is from the box of the bead', identity)
    c.rule('second box', 'a bead of another than the first box is found in its box', second)
    for names in SIMILAR:
        c.rule(f'boxes {names}', 'a bead of the second box is found there, whatever the name of the first', second, args=(c, names))
    c.rule('choice', 'the archive with both the name and the content id is found', choice)
