"""What a number computed from a point in time says about it: arithmetic on
datetime terms as linear forms over days / seconds / microseconds since the
epoch.  'exact': precisely the microseconds since the epoch; 'lossy': another
number, or one that went through floating point or text."""
from fractions import Fraction

from .terms import T, mk, const, is_const, cval, contains, walk, subst

DAY = 86400 * 10**6
TEXT = ('isoformat', 'strftime', 'ctime', 'timetuple', 'date', 'time', 'timetz')


class Lossy(Exception):
    pass


class Unknown(Exception):
    pass


def kwargs(t):
    """keyword arguments of a call / mcall / ocall term"""
    k = t.a[-1]
    return dict(k) if isinstance(k, tuple) and all(isinstance(x, tuple) and len(x) == 2 for x in k) else {}


def is_call(t, *names):
    return t.op == 'call' and t.a[0] in names


def method(t, *names):
    return t.op == 'mcall' and t.a[1] in names


def is_utc(t):
    if t is None:
        return False
    if t.op == 'ext' and t.a[0] in ('datetime.timezone.utc', 'datetime.UTC'):
        return True
    return is_call(t, 'datetime.timezone') and len(t.a[1]) == 1 and is_call(t.a[1][0], 'datetime.timedelta') and \
        all(is_const(x) and cval(x) == 0 for x in t.a[1][0].a[1]) and not kwargs(t.a[1][0])


def is_epoch(t):
    """The epoch as an aware point in time."""
    if is_call(t, 'datetime.datetime'):
        args = [cval(x) if is_const(x) else None for x in t.a[1][:7]]
        kw = kwargs(t)
        tz = kw.get('tzinfo') or (t.a[1][7] if len(t.a[1]) > 7 else None)
        return args + [0] * (7 - len(args)) == [1970, 1, 1, 0, 0, 0, 0] and is_utc(tz)
    if is_call(t, 'datetime.datetime.fromtimestamp'):
        kw = kwargs(t)
        tz = kw.get('tz') or (t.a[1][1] if len(t.a[1]) > 1 else None)
        return is_const(t.a[1][0]) and cval(t.a[1][0]) == 0 and is_utc(tz)
    return False


def micros_of_delta(t):
    """constant timedelta -> microseconds"""
    if not is_call(t, 'datetime.timedelta'):
        return None
    unit = dict(days=DAY, seconds=10**6, microseconds=1, milliseconds=1000, minutes=60 * 10**6, hours=3600 * 10**6, weeks=7 * DAY)
    total = Fraction(0)
    for name, v in list(zip(('days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks'), t.a[1])) + list(kwargs(t).items()):
        if not is_const(v) or name not in unit or not isinstance(cval(v), (int, float)):
            return None
        total += Fraction(cval(v)) * unit[name]
    return total


def instant(t, x):
    """Does t denote the instant x (in whatever zone)?"""
    while t is not x and method(t, 'astimezone'):
        t = t.a[0]
    return t is x


def delta(t, x):
    """t == x - epoch ?"""
    return t.op == 'bin' and t.a[0] == '-' and instant(t.a[1], x) and is_epoch(t.a[2])


def add(a, b, k=1):
    out = dict(a)
    for n, v in b.items():
        out[n] = out.get(n, 0) + k * v
    return {n: v for n, v in out.items() if v}


def linear(t, x):
    if is_const(t):
        if isinstance(cval(t), bool) or not isinstance(cval(t), (int, float)):
            raise Unknown(repr(t))
        if isinstance(cval(t), float):
            raise Lossy(f'floating point: {t!r}')
        return {'1': cval(t)} if cval(t) else {}
    if not contains(t, x):
        raise Unknown(repr(t))
    if t.op == 'bin':
        op, a, b = t.a
        if op == '//' and delta(a, x):
            n = micros_of_delta(b)
            if n == 1:
                return {'us': 1}
            if n == 10**6:
                return {'floor s': 1}
            if n:
                raise Lossy(f'not in microseconds: {t!r}')
        if op == '%' and delta(a, x) and micros_of_delta(b) == 10**6:
            raise Unknown(repr(t))
        if op == '/':
            raise Lossy(f'floating point: {t!r}')
        if op in ('+', '-'):
            return add(linear(a, x), linear(b, x), 1 if op == '+' else -1)
        if op == '*':
            la, lb = linear(a, x), linear(b, x)
            for p, q in ((la, lb), (lb, la)):
                if set(q) <= {'1'}:
                    k = q.get('1', 0)
                    return {n: v * k for n, v in p.items() if v * k}
        if op in ('//', '%'):
            try:
                linear(a, x)
            except Unknown:
                raise
            raise Unknown(repr(t))
        raise Unknown(repr(t))
    if t.op == 'attr':
        b, n = t.a
        if delta(b, x) and n in ('days', 'seconds', 'microseconds'):
            return {'delta ' + n: 1}
        if n == 'microsecond' and instant(b, x):
            return {'microsecond': 1}
        raise Unknown(repr(t))
    if t.op == 'mcall':
        r, name = t.a[:2]
        if name == 'total_seconds':
            raise Lossy(f'floating point: {t!r}')
        if name == 'timestamp':
            if method(r, 'replace') and instant(r.a[0], x) and list(kwargs(r)) == ['microsecond'] \
                    and is_const(kwargs(r)['microsecond']) and cval(kwargs(r)['microsecond']) == 0:
                return {'float s': 1}
            raise Lossy(f'floating point: {t!r}')
        if name in TEXT or name == 'replace':
            raise Lossy(repr(t))
        raise Unknown(repr(t))
    if t.op == 'call':
        name = t.a[0]
        args = t.a[1]
        if name in ('builtins.int', 'builtins.round', 'math.floor') and len(args) == 1:
            got = linear(args[0], x)
            return {{'float s': 'floor s'}.get(n, n): v for n, v in got.items()}
        if name == 'builtins.float':
            raise Lossy(f'floating point: {t!r}')
        if name == 'calendar.timegm' and args and args[0].op == 'mcall':
            r = args[0].a[0]
            if method(args[0], 'utctimetuple') and instant(r, x):
                return {'floor s': 1}
            if method(args[0], 'timetuple') and r is not x and instant(r, x) and r.a[2] and is_utc(r.a[2][0]):
                return {'floor s': 1}
            if method(args[0], 'timetuple'):
                raise Lossy(f'zone ignored: {t!r}')
        if name == 'time.mktime':
            raise Lossy(f'depends on the local zone: {t!r}')
        if name == 'builtins.str':
            raise Lossy(repr(t))
    raise Unknown(repr(t))


EXACT = (
    {'us': 1},
    {'delta days': DAY, 'delta seconds': 10**6, 'delta microseconds': 1},
    {'floor s': 10**6, 'microsecond': 1},
    {'floor s': 10**6, 'delta microseconds': 1},
)


def micros(t, x):
    """-> ('exact' | 'lossy' | 'unknown', why)"""
    try:
        f = linear(t, x)
    except Lossy as e:
        return 'lossy', str(e)
    except Unknown as e:
        return 'unknown', str(e)
    if f in EXACT:
        return 'exact', ''
    return 'lossy', f'another number: {t!r}'
