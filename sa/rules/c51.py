"""Times given by the user.  The function that the options for times are converted by
is interpreted for a text of each understood layout (and each sign of a zone): its
conditions on the text are decided by comparing regular languages (automata), and the
moment it gives back is traced, field by field, to positions of the text.  For sums of
amounts the pattern that takes the text apart is compared with the language of one
amount, and the result is compared with now plus amount times unit.  Automata also
decide that on every path which gives a moment back, the text is of a known layout."""
import re
try:
    import re._parser as sre
except ImportError:                                  # pragma: no cover
    import sre_parse as sre

from ..api import trace_list
from ..boxsearch import Boxes
from ..commandline import declarations, destination
from ..engine import AnchorLost, Inconclusive
from ..flow import events
from ..language import Conditions, common, missing, regex
from ..std import *
from ..terms import *
from ..timeformat import Slots, groups, pattern_of, NAMES
from . import c14

TEXT = sym('time text')
LAYOUTS = ('Y', 'Ym', 'Y-m', 'Ymd', 'Y-m-d', 'YmdTHMSz', 'Y-m-dTH:M:Sz', 'YmdTHMSfz', 'Y-m-dTH:M:S.fz')
WIDTH = dict(Y=4, m=2, d=2, H=2, M=2, S=2, f=6)
FIELD = dict(Y='year', m='month', d='day', H='hour', M='minute', S='second', f='microsecond')
FIRST = dict(month=1, day=1, hour=0, minute=0, second=0, microsecond=0)
UNITS = dict(w=7 * 86400 * 10**6, d=86400 * 10**6, H=3600 * 10**6, M=60 * 10**6, S=10**6)
AMOUNT = r'[+-]?[0-9]+'
FUNCTION = 'bead.tech.timestamp.time_from_user'
EXC = {'ValueError'}


def layout(l, sign):
    """-> (pattern, {field: (start, end)})"""
    pat, pos, at = '', 0, {}
    for ch in l:
        if ch == 'z':
            at.update(sign=(pos, pos + 1), tzhour=(pos + 1, pos + 3), tzminute=(pos + 3, pos + 5))
            pat += re.escape(sign) + '[0-9]{4}'
            pos += 5
        elif ch in WIDTH:
            at[FIELD[ch]] = (pos, pos + WIDTH[ch])
            pat += '[0-9]{%d}' % WIDTH[ch]
            pos += WIDTH[ch]
        else:
            pat += re.escape(ch)
            pos += 1
    return pat, at


KNOWN = '|'.join([layout(l, '+')[0].replace(re.escape('+') + '[0-9]{4}', '[-+][0-9]{4}') for l in LAYOUTS] + [r'(?:[+-]?[0-9]+[wdHMS])*'])
# (digits of other scripts and any letter before microseconds do no harm; a newline at the end is not part of the text of an argument)
KNOWN = '(?:' + KNOWN.replace('[0-9]', r'\d').replace(re.escape('.'), '(?:.|\n)') + r')\n?'


class Given:
    """a text of a given language, in the interpretation"""

    def __init__(self, lang, sign=None, sign_at=None):
        self.lang = regex(lang)
        self.sign, self.sign_at = sign, sign_at
        self.slots = Pieces(TEXT)
        self.conds = Conditions(TEXT)
        self.amounts = []

    def groups(self, m):
        p = pattern_of(m, TEXT)
        return None if p is None else groups(p[0])

    def decide(self, e, t, st):
        while t.op == 'mcall' and t.a[1] == 'group' and not t.a[2]:
            t = t.a[0]
        if t.op == 'cmp' and t.a[0] in ('==', 'in'):
            a, b = t.a[1:]
            if t.a[0] == '==':
                for x, y in ((a, b), (b, a)):
                    if is_const(y) and x.op != 'const':
                        try:
                            s = self.slots.slot(x)
                        except Inconclusive:
                            s = None
                        if s is not None and s == self.sign_at:
                            return cval(y) == self.sign
            got = self.has_group(e, t, st)
            if got is not None:
                return got
            if t.a[0] == 'in' and self.slots.safe(a) == self.sign_at is not None and is_const(b) and isinstance(cval(b), str):
                return self.sign in cval(b)
        if t.op == 'mcall' and t.a[1] == 'startswith' and self.slots.safe(t.a[0]) == self.sign_at is not None and is_const(t.a[2][0]):
            return self.sign.startswith(cval(t.a[2][0]))
        s = self.slots.safe(t)
        if s is not None:
            return s[1] > s[0]
        neg = False
        while t.op == 'not':
            t, neg = t.a[0], not neg
        if t.op == 'cmp' and t.a[0] in ('is', '==') and t.a[2] is NONE:
            t, neg = t.a[1], not neg
        if not contains(t, TEXT):
            return None
        n = self.conds.atom(t)
        if n is None:
            return None
        if common(self.lang, n) is None:
            return neg
        if missing(self.lang, n) is None:
            return not neg
        return None

    def has_group(self, e, t, st):
        if t.op == 'cmp' and t.a[0] == 'in' and is_const(t.a[1]) and t.a[2].op == 'mcall' and t.a[2].a[1] == 'groupdict':
            g = self.groups(t.a[2].a[0])
            return None if g is None else cval(t.a[1]) in g
        return None

    def get(self, e, recv, args, kw, st, node):
        """values of groups which the pattern does not have"""
        if recv.op == 'mcall' and recv.a[1] == 'groupdict' and args and is_const(args[0]):
            g = self.groups(recv.a[0])
            if g is not None and cval(args[0]) not in g:
                return [(args[1] if len(args) > 1 else NONE, st)]
        return None

    def parts(self, pattern):
        """the numbers of the groups (amount, unit) if the pattern finds exactly the pieces"""
        if not isinstance(pattern, str):
            raise Inconclusive('pattern of amounts')
        tree = sre.parse(pattern)
        got = []
        src = pattern_groups(pattern)
        for op, av in tree:
            if str(op) != 'SUBPATTERN':
                raise Inconclusive(f'pattern {pattern}')
            got.append(av[0])
        if len(got) != 2 or None in got:
            raise Inconclusive(f'pattern {pattern}')
        amount, unit = regex(src[got[0]]), regex(src[got[1]])
        for a, b in ((amount, regex(r'[+-]?\d+')), (regex(AMOUNT), amount)):
            if missing(a, b) is not None:
                raise Inconclusive(f'amounts {src[got[0]]}')
        for u in dict.fromkeys(u for _, u in self.amounts):
            if missing(regex(u), unit) is not None:
                raise Inconclusive(f'units {src[got[1]]}')
        if common(unit, regex('..+|[-+0-9]?', 'fullmatch', re.DOTALL)) is not None:
            raise Inconclusive(f'units {src[got[1]]}')
        names = {n: g for n, g in tree.state.groupdict.items()}
        return got, names

    def pieces(self, pattern):
        (ga, gu), names = self.parts(pattern)
        return [{ga: a, gu: const(u), 'names': names, 'order': sorted((ga, gu))} for a, u in self.amounts]

    def findall(self, pattern, e, st):
        items = [mk('tuple', *(p[g] for g in p['order'])) for p in self.pieces(pattern)]
        return [(e.new_container('list', [('item', x) for x in items], st), st)]

    def finditer(self, pattern, e, st):
        return [(e.new_container('list', [('item', mk('@piece', const(pattern), const(i))) for i, _ in enumerate(self.amounts)], st), st)]

    def group(self, e, recv, args, kw, st, node):
        if recv.op != '@piece':
            return None
        p = self.pieces(cval(recv.a[0]))[cval(recv.a[1])]
        one = lambda k: p.get(p['names'].get(cval(k), cval(k)))
        vs = [one(a) for a in args]
        if not vs or None in vs:
            raise Inconclusive('group of an amount')
        return [(vs[0] if len(vs) == 1 else mk('tuple', *vs), st)]

    def all_groups(self, e, recv, args, kw, st, node):
        if recv.op != '@piece':
            return None
        p = self.pieces(cval(recv.a[0]))[cval(recv.a[1])]
        return [(mk('tuple', *(p[g] for g in p['order'])), st)]

    def options(self):
        def x(f):
            def hook(e, args, kw, st, node):
                if len(args) == 2 and args[1] is TEXT and is_const(args[0]):
                    return f(cval(args[0]), e, st)
            return hook

        def m(f):
            def hook(e, recv, args, kw, st, node):
                if len(args) == 1 and args[0] is TEXT and recv.op == 'call' and recv.a[0] == 're.compile' and len(recv.a[1]) == 1 and is_const(recv.a[1][0]):
                    return f(cval(recv.a[1][0]), e, st)
            return hook
        out = dict(decide=self.decide, mhooks={'get': self.get})
        if self.amounts:
            out['xhooks'] = {'re.findall': x(self.findall), 're.finditer': x(self.finditer)}
            out['mhooks'].update(findall=m(self.findall), finditer=m(self.finditer), group=self.group, groups=self.all_groups)
        return out


class Pieces(Slots):
    def safe(self, t):
        try:
            return self.slot(t)
        except Inconclusive:
            return None

    def slot(self, t):
        if t.op == '@amount':
            return t
        return super().slot(t)

    def linear(self, t):
        if t.op == 'call' and t.a[0] == 'builtins.int' and len(t.a[1]) == 1 and is_const(t.a[1][0]):
            v = cval(t.a[1][0])
            try:
                return {1: int(v)} if int(v) else {}
            except (TypeError, ValueError):
                raise Inconclusive(f'number {t!r}')
        if t.op == 'call' and t.a[0] == 'builtins.abs' and any(x.op == '@amount' for x in walk(t)):
            return {f'absolute value of {self.linear(t.a[1][0])}': 1}
        if is_const(t) and isinstance(cval(t), str):
            raise Inconclusive(f'number {t!r}')
        return super().linear(t)

    def delta(self, t):
        if t.op == 'bin' and t.a[0] in '+-' and len(t.a[0]) == 1:
            out = dict(self.delta(t.a[1]))
            for k, v in self.delta(t.a[2]).items():
                out[k] = out.get(k, 0) + (v if t.a[0] == '+' else -v)
            return {k: v for k, v in out.items() if v}
        if t.op == 'bin' and t.a[0] == '*':
            for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                try:
                    n = self.linear(b)
                except Inconclusive:
                    continue
                d = self.delta(a)
                if set(d) <= {1}:
                    return {k: v * d.get(1, 0) for k, v in n.items()}
        if t.op == 'call' and t.a[0] == 'builtins.sum' and len(t.a[1]) in (1, 2) and t.a[1][0].op in ('list', 'tuple'):
            out = self.delta(t.a[1][1]) if len(t.a[1]) == 2 else {}
            for x in t.a[1][0].a:
                for k, v in self.delta(x.a[0] if x.op == 'item' else x).items():
                    out[k] = out.get(k, 0) + v
            return out
        return super().delta(t)


def pattern_groups(pattern):
    """text of the (not nested) groups of a pattern"""
    out, stack, n, i, in_set = {}, [], 0, 0, False
    while i < len(pattern):
        ch = pattern[i]
        if ch == '\\':
            i += 2
            continue
        if in_set:
            in_set = ch != ']'
        elif ch == '[':
            in_set = True
            if pattern[i + 1:i + 2] == ']':
                i += 1
        elif ch == '(':
            named = re.match(r'\(\?P<\w+>', pattern[i:])
            if named or not pattern.startswith('(?', i):
                n += 1
                stack.append((n, i + (named.end() if named else 1)))
            else:
                stack.append((None, i))
        elif ch == ')':
            g, at = stack.pop()
            if g:
                out[g] = pattern[at:i]
        i += 1
    return out


def moment(e, c, v, st):
    """datetime term -> [(fields, offset term or None, state)]"""
    if not (v.op == 'call' and v.a[0] == 'datetime.datetime'):
        raise Inconclusive(f'moment {v!r}'[:200])
    kw = dict(v.a[2])
    names = NAMES + ('tzinfo',)
    f = dict(zip(names, v.a[1]))
    f.update({k: x for k, x in kw.items() if k in names})
    tz = f.pop('tzinfo', None)
    if tz is None or tz is NONE:
        return [(f, None, st)]
    h = e.hobj(tz, st)
    if h is not None and h.kind == 'inst':
        return [(f, e.snap(o, s), s) for o, s in Boxes.method(e, tz, 'utcoffset', [sym('moment')], st)]
    if tz.op == 'call' and tz.a[0] == 'datetime.timezone':
        return [(f, tz.a[1][0], st)]
    if tz.op == 'ext' and tz.a[0].endswith(('timezone.utc', 'datetime.UTC')):
        return [(f, mk('call', 'datetime.timedelta', (), ()), st)]
    raise Inconclusive(f'zone {tz!r}'[:200])


def reader(c):
    """the functions that options for times are converted by"""
    found = {}

    def script(e, st):
        for q in sorted(c.a.classes):
            if q.startswith('bead_cli.') and c.a.class_lookup(q, 'declare')[1] is not None:
                try:
                    args, cmd, s = declarations(e, q, st)
                except Inconclusive:
                    continue
                for flags, kw in args:
                    if '--time' in flags or '-t' in flags:
                        found.setdefault(kw.get('type'), []).append(q)
        return [(NONE, st)]
    c.run(script, excs=set())
    return found


def converted(c):
    fs = reader(c)
    if not fs:
        raise AnchorLost('no option -t or --time')
    out = set()
    for t, where in fs.items():
        if t is None:
            c.violation('-t, --time', f'the text is not converted to a moment (in {", ".join(where)})')
            continue
        f = t.a[0] if t.op in ('func', 'fn') else None
        if f is None:
            raise Inconclusive(f'conversion by {t!r}'[:200])
        c.ok(len(where), what=f'{", ".join(where)}: converted by {t!r}')
        out.add(t)
    return out


def run(c, f, given=None, excs=EXC):
    def script(e, st):
        outs = []
        for v, s in e.call(f if not isinstance(f, str) else e.lookup_qual(f), [TEXT], [], st, None):
            outs.append((v, s))
        return outs
    opts = given.options() if given else {}
    return c.run(script, types={TEXT: 'str'}, excs=excs, no_stop=NO_STOP, **(opts or dict(mhooks={'get': Given('.*').get}, decide=Given('.*').has_group)))


NO_STOP = [FUNCTION] + ['bead.tech.timestamp.' + n for n in ('parse_iso8601', 'parse_timedelta', 'time_from_timestamp')]


def ask(c, f, given, judge, what):
    """judge(engine, value, state) for every way the interpretation can end"""
    def script(e, st):
        outs = []
        for v, s in e.call(f, [TEXT], [], st, None):
            try:
                judge(e, v, s)
            except Inconclusive as x:
                c.inconclusive(f'{what}: {x}')
            outs.append((v, s))
        return outs
    n = 0
    for p in c.run(script, types={TEXT: 'str'}, excs=set(), no_stop=NO_STOP, **given.options()):
        unsure = [t for t in c14.literals(p.trace) if contains(t, TEXT)]
        if p.kind == 'return':
            n += 1
        elif unsure:
            c.inconclusive(f'{what}: {unsure[0]!r}'[:200])
        else:
            c.violation(what, 'is not understood', p.trace)
    return n


def layouts(c):
    for f in converted(c):
        for l in LAYOUTS:
            for sign in '+-' if 'z' in l else '+':
                pat, at = layout(l, sign)
                g = Given(pat, sign, at.get('sign'))
                what = f'time {l.replace("z", sign + "hhmm")}'

                def judge(e, v, st):
                    for fields, off, s in moment(e, c, v, st):
                        for name in NAMES:
                            t = fields.get(name)
                            got = g.slots.linear(t) if t is not None else {}
                            if name in at:
                                want = {at[name]: 1}
                            else:
                                want = {1: FIRST[name]} if FIRST[name] else {}
                            c.require(got == want, what, f'{name} is {show(got)} instead of {show(want)}', trace_list(s.trace), what=f'{what}: {name}')
                        if off is None:
                            c.violation(what, 'the moment is without zone', trace_list(s.trace))
                            continue
                        k = -1 if sign == '-' else 1
                        want = {at['tzhour']: k * 3600 * 10**6, at['tzminute']: k * 60 * 10**6} if 'tzhour' in at else {}
                        got = g.slots.delta(off)
                        c.require(got == want, what, f'the offset of the zone in microseconds is {show(got)} instead of {show(want)}', trace_list(s.trace), what=f'{what}: zone')
                ask(c, f, g, judge, what)


def show(f):
    return ' + '.join((f'{k} * characters {s}' if isinstance(s, tuple) else f'{k} * {s}') if s != 1 else str(k) for s, k in f.items()) or '0'


def now_and(v):
    """-> ([now terms], [delta terms])"""
    if v.op == 'bin' and v.a[0] in ('+', '-'):
        for a, b, k in ((v.a[1], v.a[2], v.a[0]),) + (((v.a[2], v.a[1], '+'),) if v.a[0] == '+' else ()):
            got = now_and(a)
            if got:
                n, d = got
                return n, d + [(b, 1 if k == '+' else -1)]
        return None
    t = v
    while t.op == 'mcall' and t.a[1] == 'astimezone':
        t = t.a[0]
    if t.op == 'call' and t.a[0] in ('datetime.datetime.now', 'datetime.datetime.today', 'datetime.datetime.utcnow', 'datetime.datetime.fromtimestamp'):
        return v, []
    return None


def zoned(t):
    if t.op == 'mcall' and t.a[1] == 'astimezone':
        return True
    args = list(t.a[1]) + [x for k, x in t.a[2] if k == 'tz'] if t.op == 'call' else []
    if t.a[0].endswith('fromtimestamp'):
        args = args[1:]
    return bool(args) and args[0] is not NONE


def steady(e, t, st):
    """does the zone of the moment stay the same when a difference is added"""
    if t.op == 'mcall' and t.a[1] == 'astimezone':
        args = list(t.a[2]) + [x for k, x in t.a[3]] if len(t.a) > 3 else list(t.a[2])
    else:
        args = list(t.a[1]) + [x for k, x in t.a[2] if k == 'tz']
        if t.a[0].endswith('fromtimestamp'):
            args = args[1:]
    if not args or args[0] is NONE:
        return True
    z = args[0]
    if z.op == 'call' and z.a[0] == 'datetime.timezone' or z.op == 'ext' and z.a[0].endswith(('timezone.utc', 'datetime.UTC')):
        return True
    if z.op == 'call' and z.a[0] in ('zoneinfo.ZoneInfo', 'dateutil.tz.tzlocal', 'dateutil.tz.gettz'):
        return False
    h = e.hobj(z, st)
    if h is None or h.kind != 'inst':
        raise Inconclusive(f'zone {z!r}'[:200])
    offs = Boxes.method(e, z, 'utcoffset', [sym('moment')], st.fork())
    return len({e.snap(o, s) for o, s in offs}) == 1 and not any(contains(e.snap(o, s), sym('moment')) for o, s in offs)


def differences(c):
    seqs = [(u,) for u in UNITS] + [('w', 'd'), ('d', 'w'), ('H', 'M', 'S'), ('d', 'd')]
    for f in converted(c):
        for seq in seqs:
            g = Given(''.join(AMOUNT + u for u in seq))
            g.amounts = [(mk('@amount', const(i)), u) for i, u in enumerate(seq)]
            what = 'time ' + ''.join('±N' + u for u in seq)
            want = {mk('@amount', const(i)): UNITS[u] for i, u in enumerate(seq)}

            def judge(e, v, st):
                got = now_and(v)
                if got is None:
                    if not any(x.op == '@amount' for x in walk(v)) and not (v.op == 'call' and v.a[0] == 'datetime.datetime'):
                        raise Inconclusive(f'moment {v!r}'[:200])
                    c.violation(what, f'is not counted from now: {v!r}'[:200], trace_list(st.trace))
                    return
                now, ds = got
                c.require(zoned(now), what, f'is counted from a moment without zone: {now!r}'[:200], trace_list(st.trace))
                c.require(not zoned(now) or steady(e, now, st), what, 'is added to the time of a clock that may be turned in between', trace_list(st.trace))
                total = {}
                for d, k in ds:
                    for s, n in g.slots.delta(e.snap(d, st)).items():
                        total[s] = total.get(s, 0) + k * n
                c.require({s: n for s, n in total.items() if n} == want, what, f'is now and {show(total)} microseconds instead of {show(want)}', trace_list(st.trace), what=what)
            ask(c, f, g, judge, what)


def refused(c):
    """what is not of a known layout gives no moment"""
    n = 0
    for f in converted(c):
        for p in run(c, f):
            if p.kind != 'return':
                continue
            n += 1
            conds = Conditions(TEXT)
            given = c14.literals(p.trace)
            pats = [conds.pattern(t) for t in conds.normal(given)]
            known = mk('call', 're.fullmatch', (const(KNOWN), TEXT), ())
            word, skipped = conds.counterexample(given, [{known: True}])
            skipped = [t for t in skipped if Pieces(TEXT).safe(t.a[1] if t.op == 'cmp' else t) is None]
            if word is not None and skipped:
                c.inconclusive(f'condition {skipped[0]!r}'[:200])
                continue
            c.require(word is None, 'time given by the user', f'the text {word!r} is taken for a moment', p.trace, what='paths that give a moment')
    if not n and not c.violations:
        raise AnchorLost('times are never understood')


def accepted(c):
    """every text of a known layout gives a moment"""
    known = {l: layout(l, '+')[0].replace(re.escape('+') + '[0-9]{4}', '[-+][0-9]{4}') for l in LAYOUTS}
    known['difference'] = '(?:' + AMOUNT + '[wdHMS])+'
    for f in converted(c):
        bad = set()
        for p in run(c, f, excs=set()):
            if p.kind == 'return':
                continue
            conds = Conditions(TEXT)
            given = c14.literals(p.trace)
            for l, lang in known.items():
                word, skipped = conds.counterexample({**given, mk('call', 're.fullmatch', (const(lang), TEXT), ()): True}, [])
                skipped = [t for t in skipped if Pieces(TEXT).safe(t.a[1] if t.op == 'cmp' else t) is None]
                if word is None:
                    continue
                bad.add(l)
                if skipped:
                    c.inconclusive(f'condition {skipped[0]!r}'[:200])
                else:
                    c.violation('time given by the user', f'the text {word!r} ({l}) is not understood', p.trace)
        for l in known:
            if l not in bad:
                c.ok(1, f'texts of layout {l} are understood')


def check(c):
    c.assumptions += ['the option for times is -t, --time', 'sums of amounts follow Python\'s arithmetic of moments (wall clock of the zone now is in)',
                      'the text of an argument does not end in a newline']
    c.rule('layouts', 'the fields of a time are those of the text, missing ones the first possible, without zone it is UTC', layouts)
    c.rule('differences', 'signed amounts of weeks, days, hours, minutes and seconds are added to now', differences)
    c.rule('accepted', 'every text of a known layout is understood', accepted)
    c.rule('refused', 'every other text is refused', refused)
