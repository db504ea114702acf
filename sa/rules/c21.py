"""Timestamps, file names and their readers.  The texts and patterns are found
by interpretation of the writer, the reader, saving, searching and opening of
archives; that every text written is read back is decided as inclusion of
regular languages (automata of the strftime format, of the regular expression,
of the glob pattern), for every moment, zone and valid name.  Positions of
fields and the sign of the zone by term analysis (shared with C20)."""
from ..boxsearch import Boxes, FREEZE, typed
from ..engine import Ev, Inconclusive
from ..filename import Text, Wrong, text_of, glob_matches
from ..flow import events
from ..instants import kwargs
from ..language import regex, strftime, missing
from ..std import *
from ..terms import *
from ..terms import T
from ..timeformat import BASIC, Slots, pattern_of
from ..cli import run_command, WS
from . import c14, c20

STAMP = 'bead.tech.timestamp.timestamp'


def formatted(v):
    """(moment, format) of a text made by strftime"""
    if v.op == 'mcall' and v.a[1] == 'strftime' and len(v.a[2]) == 1 and is_const(v.a[2][0]):
        return v.a[0], cval(v.a[2][0])
    if v.op == 'call' and v.a[0] in ('builtins.format', 'datetime.datetime.strftime') and len(v.a[1]) == 2 and is_const(v.a[1][1]):
        return v.a[1][0], cval(v.a[1][1])
    raise Inconclusive(f'timestamp {v!r}'[:200])


def moment(m):
    """-> (zone term or 'local' or None if naive, problems)"""
    problems = []
    while True:
        if m.op == 'mcall' and m.a[1] == 'astimezone':
            args = m.a[2] or tuple(kwargs(m).values())
            zone = args[0] if args and args[0] is not NONE else 'local'
            inner, p = moment(m.a[0])
            if inner is None and m.a[0].op == 'call' and m.a[0].a[0] == 'datetime.datetime.utcnow':
                p = p + ['UTC is taken for local time']
            return zone, problems + p
        if m.op == 'mcall' and m.a[1] == 'replace':
            kw = kwargs(m)
            if m.a[2] or set(kw) - {'tzinfo', 'microsecond', 'fold'}:
                raise Inconclusive(f'moment {m!r}'[:200])
            if 'microsecond' in kw:
                problems.append('microseconds are not those of the moment')
            if 'tzinfo' in kw:
                base = m.a[0]
                name = base.a[0] if base.op == 'call' else ''
                zone = kw['tzinfo']
                if name == 'datetime.datetime.utcnow' and zone.op == 'ext' and zone.a[0] in ('datetime.timezone.utc', 'datetime.UTC'):
                    return zone, problems
                if zone is NONE:
                    return None, problems
                before, p = moment(base)
                if before is not None and before is not zone:
                    problems = problems + p + ['the zone is exchanged without converting the moment']
                    return zone, problems
                if name == 'datetime.datetime.now':
                    return zone, problems + p
                raise Inconclusive(f'zone of {m!r}'[:200])
            m = m.a[0]
            continue
        if m.op == 'call' and m.a[0] == 'datetime.datetime.now':
            args = m.a[1] or tuple(kwargs(m).values())
            return (args[0] if args and args[0] is not NONE else None), problems
        if m.op == 'call' and m.a[0] in ('datetime.datetime.utcnow', 'datetime.datetime.today'):
            return None, problems
        raise Inconclusive(f'moment {m!r}'[:200])


def written(c):
    """[(pattern, path)] the language of timestamps"""
    out = []
    for p in c.run(STAMP, [], no_stop=[STAMP], excs=set()):
        if p.kind == 'return':
            m, fmt = formatted(p.value)
            zone, problems = moment(m)
            pattern, slots = strftime(fmt)
            out.append((pattern, slots, zone, problems, p, fmt))
    if not out:
        raise Inconclusive('the timestamp writer')
    return out


def writer(c):
    for pattern, slots, zone, problems, p, fmt in written(c):
        what = 'timestamp()'
        for why in problems:
            c.violation(what, why, p.trace)
        c.require(zone is not None, what, 'the moment has no zone: the zone offset is missing from the text', p.trace)
        want = {k: v for k, v in BASIC.items() if k not in ('sign', 'tzhour', 'tzminute')}
        want['zone'] = (BASIC['sign'][0], BASIC['tzminute'][1])
        for k, pos in want.items():
            c.require(slots.get(k) == pos, what, f'{k} is at {slots.get(k)} of the text instead of {pos} (format {fmt!r})', p.trace)


def shifts(offset, trace):
    """-> does the offset of a zone object depend on the wall clock time only,
    which is the same for two moments when clocks are turned back"""
    m = sym('moment')
    used = [t for t in [offset] + list(c14.literals(trace)) if contains(t, m)]
    return bool(used) and not any(y.op == 'attr' and y.a[1] == 'fold' and y.a[0] is m for t in used for y in walk(t))


STANDARD = const('zone of the standard library')


def zone(c):
    """the zone the writer uses is that of the place, at that moment"""
    def script(e, st):
        outs = []
        for v, s in e.call(e.lookup_qual(STAMP), [], [], st, None):
            z, _ = moment(formatted(v)[0])
            h = e.hobj(z, s) if isinstance(z, T) else None
            if h is None or h.kind != 'inst':
                outs.append((STANDARD, s))
                continue
            for off, s2 in Boxes.method(e, z, 'utcoffset', [sym('moment')], s):
                outs.append((e.snap(off, s2), s2))
        return outs
    n = 0
    for p in c.run(script, no_stop=[STAMP], excs=set()):
        if p.kind != 'return':
            continue
        v = p.value
        if v is STANDARD:
            c.ok(what=STANDARD.a[1] if isinstance(STANDARD.a[1], str) else 'zone of the standard library')
            continue
        if shifts(v, p.trace):
            c.violation('the zone of this place', 'the offset is computed from the time of the clock, which is the same for two moments when clocks are turned back', p.trace)
            continue
        dst = None
        for t, b in c14.literals(p.trace).items():
            if t.op == 'cmp' and any(x.op == 'attr' and x.a[1] == 'tm_isdst' for x in t.a[1:]):
                x, y = t.a[1:]
                if t.a[0] == '<' and is_const(x) and cval(x) == 0:
                    dst = b
                elif t.a[0] == '==' and any(is_const(q) and cval(q) == 1 for q in (x, y)):
                    dst = b
                elif t.a[0] == '==' and any(is_const(q) and cval(q) == 0 for q in (x, y)):
                    dst = not b
            elif t.op == 'attr' and t.a[1] == 'tm_isdst':
                dst = b
        if dst is None:
            raise Inconclusive('daylight saving')
        got = seconds(v)
        if got is None:
            raise Inconclusive(f'offset {v!r}'[:200])
        want = mk('ext', 'time.altzone') if dst else mk('ext', 'time.timezone')
        n += 1
        c.require(got == {want: -1}, 'the zone of this place', f'{"with" if dst else "without"} daylight saving the offset in seconds is {show(got)} instead of -{want!r}', p.trace)

def show(f):
    return ' + '.join(f'{k}*{t!r}' for t, k in f.items())


def seconds(t):
    """timedelta term -> {term: factor} in seconds"""
    if t.op == 'un' and t.a[0] in ('-', 'USub'):
        r = seconds(t.a[1])
        return r and {k: -v for k, v in r.items()}
    if t.op == 'call' and t.a[0] == 'datetime.timedelta':
        kw = kwargs(t)
        if set(kw) <= {'seconds', 'minutes', 'hours'} and len(kw) == 1 and not t.a[1]:
            (k, v), = kw.items()
            r = linear(v)
            return r and {x: f * dict(seconds=1, minutes=60, hours=3600)[k] for x, f in r.items()}
        if not kw and len(t.a[1]) == 2 and is_const(t.a[1][0]) and cval(t.a[1][0]) == 0:
            return linear(t.a[1][1])
    return None


def linear(t):
    if t.op == 'un' and t.a[0] in ('-', 'USub'):
        r = linear(t.a[1])
        return r and {k: -v for k, v in r.items()}
    if t.op == 'bin' and t.a[0] == '*':
        for x, y in (t.a[1:], t.a[:0:-1]):
            if is_const(y) and type(cval(y)) in (int, float):
                r = linear(x)
                return r and {k: v * cval(y) for k, v in r.items()}
    if t.op == 'bin' and t.a[0] in ('/', '//') and is_const(t.a[2]) and cval(t.a[2]):
        r = linear(t.a[1])
        return r and {k: v / cval(t.a[2]) for k, v in r.items()}
    if t.op == 'bin' and t.a[0] in '+-':
        a, b = linear(t.a[1]), linear(t.a[2])
        if a is None or b is None:
            return None
        for k, v in b.items():
            a[k] = a.get(k, 0) + (v if t.a[0] == '+' else -v)
        return {k: v for k, v in a.items() if v}
    if is_const(t) and type(cval(t)) in (int, float):
        return {'1': cval(t)}
    if t.op == 'ext':
        return {t: 1}
    return None


def accepted(c):
    """every timestamp written is accepted by the strict reader"""
    langs = written(c)
    n = 0
    for p in c.run(FREEZE, [c20.TEXT], no_stop=[FREEZE], excs=set()):
        if p.kind == 'return':
            v = p.value
            if v is NONE:
                why = 'gives nothing'
            else:
                if v.op == 'call' and v.a[0] == 'datetime.datetime.strptime' and is_const(v.a[1][1]):
                    n += 1
                    for pattern, *_, q, fmt in langs:
                        c.require(cval(v.a[1][1]) == fmt, 'time_from_timestamp', f'reads format {cval(v.a[1][1])!r}, {fmt!r} is written', q.trace)
                n += 1
                continue
        elif p.kind == 'raise':
            why = f'refuses it: {p.value!r}'[:120]
        else:
            continue
        # such a path must be one on which the text is not a timestamp
        excluded = known = False
        for t, b in c14.literals(p.trace).items():
            m = match_literal(t, b)
            if m is None:
                continue
            (pat, method, flags), positive = m
            known = True
            if flags:
                raise Inconclusive(f'flags of {pat!r}')
            if not positive:
                w = [missing(regex(pattern), regex(pat, method)) for pattern, *_ in langs]
                n += 1
                if not any(w):
                    excluded = True
                else:
                    c.violation('time_from_timestamp', f'a timestamp like {next(x for x in w if x)!r} does not match {pat!r}', p.trace)
                    excluded = True
        if not excluded:
            if not known:
                raise Inconclusive(f'time_from_timestamp {why}')
            c.violation('time_from_timestamp', f'a timestamp: {why}', p.trace)
    if not n:
        raise Inconclusive('reading timestamps')
    c.ok(what='time_from_timestamp')


def match_literal(t, b):
    """literal -> ((pattern, method, flags), does it say that the text matches)"""
    m = pattern_of(t, c20.TEXT)
    if m:
        return m, b
    if t.op == 'cmp' and t.a[0] in ('is', '=='):
        for x, y in (t.a[1:], t.a[:0:-1]):
            if y is NONE and pattern_of(x, c20.TEXT):
                return pattern_of(x, c20.TEXT), not b
    return None


# ------------------------------------------------------------------ file names

NAME = sym('bead name')
STAMPED = sym('freeze time')


def stored(c):
    """the file names given to saved beads"""
    w = sym('workspace')

    def pack(e, qual, sargs, st, node):
        kw = {}
        st.emit(Ev('call', '@pack', tuple(sargs), site=e.site(node)))
        return [(NONE, st)]

    out = []
    for kind in ('raw', 'index'):
        bx = Boxes({'B': kind})

        def script(e, st):
            outs = []
            for bs, s in bx.make(e, st, ['B']):
                for n, s2 in e.get_attr(w, 'name', s):
                    s2.emit(Ev('call', '@name', (e.snap(n, s2),), site='script'))
                    outs.extend(Boxes.method(e, bs[0], 'store', [w, STAMPED], s2))
            return outs
        o = bx.options(types={w: WORKSPACE}, stops={WORKSPACE + '.pack': pack, 'bead.box_index.BoxIndex.index_archive_file': 'stop'})
        for p in c.run(script, **o):
            if p.kind != 'return':
                continue
            name = [ev.args[0] for ev in events(p.trace) if ev.fn == '@name']
            packs = [ev.args for ev in events(p.trace) if ev.fn == '@pack']
            if len(packs) != 1 or len(packs[0]) < 3:
                raise Inconclusive('storing')
            out.append((name[-1], packs[0][1], packs[0][2], p))
    if not out:
        raise Inconclusive('storing')
    return out


def names(c):
    """[(rest of the file name as pattern, path)]"""
    langs = written(c)
    out = {}
    for name, target, ft, p in stored(c):
        c.require(ft is STAMPED, 'storing', f'the freeze time of the file is {ft!r}', p.trace)
        for pattern, *_ in langs:
            t = text_of(target, name, {STAMPED: pattern})
            if t is None:
                raise Inconclusive(f'file name {target!r}'[:200])
            out.setdefault(t.rest, (target, name, pattern, p))
    return out


def searched(c):
    n = 0
    for rest, (target, name, pattern, _) in names(c).items():
        for chain, what in (([('by_name', [NAME])], 'search by name'), ([], 'search of all')):
            bx = Boxes({'B': 'raw'})
            for p in c.run(bx.search(chain + [('all', [])]), **bx.options(xhooks=typed({NAME: 'text'}))):
                if p.kind != 'return':
                    continue
                globs = [ev for ev in events(p.trace) if ev.fn == '@glob']
                if not globs:
                    raise Inconclusive('files of a box are found without glob')
                for ev in globs:
                    n += 1
                    why = glob_matches(ev.args[1], NAME, rest)
                    c.require(why is None, what, f'pattern {ev.args[1]!r}: of the files of saved beads {why}', p.trace)
    if not n:
        raise Inconclusive('searching')


def read_back(c):
    ok = wellformed(c)
    n = 0
    for rest, (target, name, pattern, _) in names(c).items():
        file = subst(target, {name: NAME})

        def script(e, st):
            outs = []
            for a, s in e.call(e.lookup_qual(ARCHIVE), [file, const('B')], [], st, None):
                for v, s2 in e.get_attr(a, 'name', s):
                    outs.append((e.snap(v, s2), s2))
            return outs
        for p in c.run(script, stops={'bead.zipopener.open': 'pure', PERSIST + '.file_load': 'pure', PERSIST + '.zip_load': 'pure'},
                       excs={'ValueError', 'bead.exceptions.InvalidArchive'}):
            if p.kind == 'return':
                n += 1
                try:
                    t = text_of(p.value, NAME, {STAMPED: pattern})
                except Wrong as e:
                    c.violation('name of an archive', f'{p.value!r}: {e}'[:300], p.trace)
                    continue
                if t is None:
                    raise Inconclusive(f'name of an archive {p.value!r}'[:200])
                c.require(t == Text(NAME, ''), 'name of an archive', f'the name read from the file is {t}', p.trace)
            elif p.kind == 'raise':
                lits = {}
                for t, b in c14.literals(p.trace).items():
                    lits[normal(t, NAME, pattern)] = b
                # refused: only if the name is not a valid one
                if all(any(k in lits and lits[k] != b for k, b in path.items()) for path in ok):
                    c.ok(what='name of an archive')
                    continue
                if not lits:
                    c.violation('name of an archive', f'is refused: {p.value!r}'[:200], p.trace)
                else:
                    known = set().union(*[set(x) for x in ok])
                    if any(k not in known for k in lits):
                        raise Inconclusive(f'refusing archives by {list(lits)!r}'[:200])
                    c.violation('name of an archive', f'archives with valid names are refused ({list(lits)!r})'[:300], p.trace)
    if not n:
        raise Inconclusive('names of archives')


def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, T):
        return tuple(subst(x, m) for x in t) if isinstance(t, tuple) else t
    if not t.a or t.op in ('const', 'sym'):
        return t
    return mk(t.op, *[subst(x, m) if isinstance(x, (T, tuple)) else x for x in t.a])


def normal(t, name, pattern):
    """the term with what is known to be the name replaced by the name"""
    if isinstance(t, T) and t.op in ('call', 'idx', 'attr', 'mcall', 'slice'):
        try:
            x = text_of(t, name, {STAMPED: pattern})
            if x == Text(name, ''):
                return name
        except (Wrong, Inconclusive):
            pass
    if not isinstance(t, T):
        return tuple(normal(x, name, pattern) for x in t) if isinstance(t, tuple) else t
    if t.op in ('const', 'sym'):
        return t
    return mk(t.op, *[normal(x, name, pattern) if isinstance(x, (T, tuple)) else x for x in t.a])


def wellformed(c):
    """[{literal: value}] the conditions under which a text is a valid name"""
    out = []
    for p in c.run('bead.meta.BeadName.is_wellformed', [NAME], selfT=mk('cls', 'bead.meta.BeadName'), excs=set()):
        if p.kind == 'return' and not (is_const(p.value) and not cval(p.value)):
            lits = dict(c14.literals(p.trace))
            if not is_const(p.value):
                t, b = p.value, True
                while t.op == 'not':
                    t, b = t.a[0], not b
                lits[t] = b
            out.append(lits)
    if not out:
        raise Inconclusive('valid names')
    return out


def saved(c):
    """the save command passes a timestamp just made"""
    def store(e, qual, sargs, st, node):
        st.emit(Ev('call', '@store', tuple(sargs), site=e.site(node)))
        return [(sym('location'), st)]
    n = 0
    for p in run_command(c, 'save', stops={BOX + '.store': store, STAMP: 'pure'}, excs=set()):
        for ev in events(p.trace):
            if ev.fn == '@store':
                n += 1
                t = ev.args[2]
                c.require(t is mk('call', STAMP, (), ()), 'save', f'the freeze time is {t!r}', p.trace)
    if not n:
        raise Inconclusive('save')


def check(c):
    c.rule('writer', 'a timestamp has its fields, microseconds and zone offset at fixed positions', writer)
    c.rule('zone', 'the zone offset written is that of this place at the moment', zone)
    c.rule('accepted', 'every timestamp written is accepted by the strict reader', accepted)
    c.rule('reading', 'each field is read from its own position, the offset with its sign', c20.reading)
    c.rule('save', 'beads are saved with a timestamp just made', saved)
    c.rule('searched', 'the patterns used to find beads match the file name of every saved bead', searched)
    c.rule('name', 'the name read from the file of a saved bead is the name it was saved with', read_back)
    c.assumptions = ['years have four digits', 'zone offsets are whole minutes', 'letters outside ASCII are represented by a few samples in the automata']
