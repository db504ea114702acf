"""What a function that turns timestamp text into a point in time computes,
found by constant propagation: which characters of the text become year, month,
... and the zone offset.  Fixed-width formats only; everything else is unknown."""
import re
try:
    import re._parser as sre
except ImportError:                                  # pragma: no cover
    import sre_parse as sre

from .engine import Inconclusive
from .terms import *
from .terms import T
from .instants import kwargs

BASIC = dict(year=(0, 4), month=(4, 6), day=(6, 8), hour=(9, 11), minute=(11, 13), second=(13, 15), microsecond=(15, 21),
             sign=(21, 22), tzhour=(22, 24), tzminute=(24, 26))
NAMES = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')


def groups(pattern):
    """{group name or number: (start, end)} of a pattern, (_, None) where the width is not fixed"""
    tree = sre.parse(pattern)
    out = {}
    names = {v: k for k, v in tree.state.groupdict.items()}

    def go(items, pos):
        for op, av in items:
            op = str(op)
            if op == 'SUBPATTERN':
                g, _, _, sub = av
                end = go(sub, pos)
                if g is not None:
                    out[g] = (pos, end)
                    if g in names:
                        out[names[g]] = (pos, end)
                pos = end
            elif op in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                lo, hi, sub = av
                if lo != hi:                    # (no positions are known from here on)
                    go(sub, None)
                    pos = None
                    continue
                end = go(sub, pos)
                if pos is not None:
                    pos = None if end is None else pos + (end - pos) * lo
            elif op in ('LITERAL', 'NOT_LITERAL', 'IN', 'ANY'):
                pos = None if pos is None else pos + 1
            elif op == 'AT':
                pass
            else:
                raise Inconclusive(f'pattern {pattern}')
        return pos
    out[0] = (0, go(tree, 0))
    return out


def pattern_of(m, text):
    """match object term -> pattern text (matched against the whole of text)"""
    if m.op == 'mcall' and m.a[1] in ('match', 'fullmatch', 'search') and m.a[0].op == 'call' and m.a[0].a[0] == 're.compile':
        if m.a[2] == (text,) and is_const(m.a[0].a[1][0]):
            return cval(m.a[0].a[1][0]), m.a[1], m.a[0].a[1][1:] + tuple(v for _, v in kwargs(m.a[0]).items())
    if m.op == 'call' and m.a[0] in ('re.match', 're.fullmatch', 're.search') and len(m.a[1]) >= 2 and m.a[1][1] is text and is_const(m.a[1][0]):
        return cval(m.a[1][0]), m.a[0][3:], m.a[1][2:]
    return None


class Slots:
    """terms that are pieces of the text: term -> (start, end)"""

    def __init__(self, text):
        self.text = text
        self.patterns = set()

    def slot(self, t):
        if t.op == 'call' and t.a[0] == 'builtins.str' and len(t.a[1]) == 1:
            return self.slot(t.a[1][0])
        if t.op == 'slice' and t.a[0] is self.text and is_const(t.a[1]) and is_const(t.a[2]):
            lo, hi = cval(t.a[1]) or 0, cval(t.a[2])
            if isinstance(hi, int) and lo >= 0 and hi >= 0 and (len(t.a) < 4 or t.a[3] is NONE):
                return (lo, hi)
            return None
        if t.op == 'idx' and t.a[0] is self.text and is_const(t.a[1]) and isinstance(cval(t.a[1]), int) and cval(t.a[1]) >= 0:
            return (cval(t.a[1]), cval(t.a[1]) + 1)
        key = m = None
        if t.op == 'mcall' and t.a[1] == 'get' and t.a[0].op == 'mcall' and t.a[0].a[1] == 'groupdict':
            m, key = t.a[0].a[0], t.a[2][0]
        elif t.op == 'idx' and t.a[0].op == 'mcall' and t.a[0].a[1] == 'groupdict':
            m, key = t.a[0].a[0], t.a[1]
        elif t.op == 'mcall' and t.a[1] == 'group' and len(t.a[2]) == 1:
            m, key = t.a[0], t.a[2][0]
        elif t.op == 'idx' and t.a[0].op == 'mcall' and t.a[0].a[1] == 'groups' and is_const(t.a[1]):
            m, key = t.a[0].a[0], const(cval(t.a[1]) + 1)
        elif t.op == 'idx':
            m, key = t.a
        if m is None or not is_const(key):
            return None
        p = pattern_of(m, self.text)
        if p is None:
            return None
        self.patterns.add(p)
        got = groups(p[0]).get(cval(key))
        return None if got is None or None in got else got

    def linear(self, t):
        """-> {slot: factor, 1: constant}"""
        if is_const(t):
            v = cval(t)
            if type(v) is not int:
                raise Inconclusive(f'number {t!r}')
            return {1: v} if v else {}
        if t.op == 'call' and t.a[0] == 'builtins.int' and len(t.a[1]) == 1:
            s = self.slot(t.a[1][0])
            if s is None:
                raise Inconclusive(f'number {t!r}'[:200])
            return {s: 1}
        if t.op == 'un' and t.a[0] in ('-', 'USub'):
            return {k: -v for k, v in self.linear(t.a[1]).items()}
        if t.op == 'bin' and t.a[0] in '+-':
            a, b = self.linear(t.a[1]), self.linear(t.a[2])
            out = dict(a)
            for k, v in b.items():
                out[k] = out.get(k, 0) + (v if t.a[0] == '+' else -v)
            return {k: v for k, v in out.items() if v}
        if t.op == 'bin' and t.a[0] == '*':
            a, b = self.linear(t.a[1]), self.linear(t.a[2])
            for p, q in ((a, b), (b, a)):
                if set(q) <= {1}:
                    return {k: v * q.get(1, 0) for k, v in p.items() if v * q.get(1, 0)}
        if t.op == 'bin' and t.a[0] in ('//', '%') and is_const(t.a[2]) and cval(t.a[2]) != 1:
            a = self.linear(t.a[1])
            if set(a) <= set(BASIC.values()):
                return {f'part of {a}': 1}
        if t.op == 'call' and t.a[0] in ('builtins.abs',) and len(t.a[1]) == 1:
            a = self.linear(t.a[1][0])
            return a if all(v >= 0 for v in a.values()) else {f'absolute value of {a}': 1}
        raise Inconclusive(f'number {t!r}'[:200])

    def delta(self, t):
        """timedelta term -> linear form in microseconds"""
        if t.op == 'un' and t.a[0] in ('-', 'USub'):
            return {k: -v for k, v in self.delta(t.a[1]).items()}
        if t.op == 'bin' and t.a[0] == '*':
            for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if is_const(y):
                    return {k: v * cval(y) for k, v in self.delta(x).items()}
        if not (t.op == 'call' and t.a[0] == 'datetime.timedelta'):
            raise Inconclusive(f'offset {t!r}'[:200])
        unit = dict(days=86400 * 10**6, seconds=10**6, microseconds=1, milliseconds=1000, minutes=60 * 10**6, hours=3600 * 10**6, weeks=7 * 86400 * 10**6)
        out = {}
        for name, v in list(zip(unit, t.a[1])) + list(kwargs(t).items()):
            for k, n in self.linear(v).items():     # (slots are never negative)
                out[k] = out.get(k, 0) + n * unit[name]
        return {k: v for k, v in out.items() if v}

    def sign(self, lits):
        """the sign the path is for: 1 / -1 / None"""
        for t, v in lits.items():
            if t.op == 'cmp' and t.a[0] == '==':
                for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                    if is_const(y) and cval(y) in ('-', '+') and self.slot(x) is not None:
                        neg = (cval(y) == '-') == v
                        return (-1 if neg else 1), self.slot(x)
            if t.op == 'mcall' and t.a[1] == 'startswith' and self.slot(t.a[0]) is not None and is_const(t.a[2][0]) and cval(t.a[2][0]) in '+-':
                return (-1 if (cval(t.a[2][0]) == '-') == v else 1), self.slot(t.a[0])
        return None, None
