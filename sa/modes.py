"""File mode expressions as bit functions of the mode before: new = old & A | O."""
from .terms import T, is_const, cval

ALL = 0o7777
OWNER_WRITE = 0o200


def stat_of(t):
    """mode read from the file -> path term"""
    if t.op == 'attr' and t.a[1] == 'st_mode' or t.op == 'idx' and is_const(t.a[1]) and cval(t.a[1]) == 0:
        s = t.a[0]
        if s.op == 'call' and s.a[0] in ('os.stat', 'os.lstat') and s.a[1]:
            return s.a[1][0]
        if s.op == 'mcall' and s.a[1] in ('stat', 'lstat'):
            return s.a[0]
    return None


def known_bits(lits, path):
    """What the literals of a path tell about the mode before -> (A, O)"""
    a, o = ALL, 0
    for l, v in (lits or {}).items():
        neg = False
        if l.op == 'cmp' and l.a[0] == '==' and any(is_const(x) and cval(x) == 0 for x in l.a[1:3]):
            l, neg = (l.a[2] if is_const(l.a[1]) else l.a[1]), True
        if l.op == 'bin' and l.a[0] == '&':
            for x, y in (l.a[1:3], l.a[2:0:-1]):
                m = mode(x, path)
                if is_const(y) and isinstance(cval(y), int) and cval(y) & (cval(y) - 1) == 0 and m and m[0] & cval(y) and not m[1] & cval(y):
                    a &= ~cval(y)
                    if bool(v) != neg:
                        o |= cval(y)
    return a, o


def mode(t, path, lits=None):
    """-> (A, O), or None when it is not such a function of the mode of path"""
    if lits:
        k = known_bits(lits, path)
        return _mode(t, path, k)
    return _mode(t, path, (ALL, 0))


def _mode(t, path, known):
    if is_const(t):
        v = cval(t)
        return (0, v & ALL) if isinstance(v, int) else None
    p = stat_of(t)
    if p is not None:
        return known if p is path else None
    if t.op == 'call' and t.a[0] == 'stat.S_IMODE' and len(t.a[1]) == 1:
        return _mode(t.a[1][0], path, known)
    if t.op == 'bin' and t.a[0] in ('&', '|', '^', '-', '+'):
        x, y = _mode(t.a[1], path, known), _mode(t.a[2], path, known)
        if x is None or y is None:
            return None
        (a, o), (b, q) = x, y
        if t.a[0] == '|':
            # old&a|o | old&b|q
            return (a | b, o | q)
        if t.a[0] == '&':
            if b == 0:
                return (a & q, o & q)
            if a == 0:
                return (b & o, q & o)
            return None
        if t.a[0] == '^' and b == 0:
            if q & a & ~o == 0:
                # flips only bits that do not depend on the old mode
                return (a & ~q, o ^ q)
            return None
    if t.op == 'un' and t.a[0] == 'Invert':
        x = _mode(t.a[1], path, known)
        if x and x[0] == 0:
            return (0, ~x[1] & ALL)
    return None


def effect(f, known=(ALL, 0)):
    """(A, O) -> (clears owner write, sets owner write, keeps all the rest)"""
    a, o = f
    clears = not (a | o) & OWNER_WRITE
    sets = bool(o & OWNER_WRITE)
    # bits with a known value are kept if they get that value
    keeps = all((a | ~known[0]) & b and (bool(o & b) == bool(known[1] & b) if not known[0] & b else not o & b)
                for b in (1 << i for i in range(12)) if b != OWNER_WRITE)
    return clears, sets, keeps
