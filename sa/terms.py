"""Hash-consed provenance terms.

A term says where a value comes from (which parameter, which attribute, which
external call on which arguments).  Two expressions that get the same term are
the same value as far as the analysis is concerned (value numbering).
"""


class T:
    __slots__ = ('op', 'a', 'n')

    def __init__(self, op, a, n):
        self.op = op
        self.a = a
        self.n = n

    def __repr__(self):
        return show(self)

    def __lt__(self, other):
        return self.n < other.n


_table = {}


def mk(op, *a):
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = T(op, a, len(_table))
        _table[key] = t
    return t


def const(v):
    return mk('const', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t.op == 'const'


def cval(t):
    return t.a[1]


def sym(name):
    return mk('sym', name)


def attr(base, name):
    return mk('attr', base, name)


def _flat(items, op):
    for i in items:
        if i.op == op:
            yield from i.a
        else:
            yield i


def cat(parts):
    """String concatenation, flattened, constants merged, '/'-joined atoms
    become a path."""
    out = []
    todo = list(parts)
    while todo:
        p = todo.pop(0)
        if p.op == 'cat':
            todo[:0] = list(p.a)
            continue
        if p.op == 'path':
            exp = []
            for i, x in enumerate(p.a):
                if i:
                    exp.append(const('/'))
                exp.append(x)
            todo[:0] = exp
            continue
        if is_const(p) and isinstance(cval(p), str):
            if cval(p) == '':
                continue
            if out and is_const(out[-1]) and isinstance(cval(out[-1]), str):
                out[-1] = const(cval(out[-1]) + cval(p))
                continue
        out.append(p)
    if not out:
        return const('')
    if len(out) == 1:
        return out[0]
    # split into path components at '/'
    comps = [[]]
    for p in out:
        if is_const(p) and isinstance(cval(p), str) and '/' in cval(p):
            segs = cval(p).split('/')
            if segs[0]:
                comps[-1].append(const(segs[0]))
            for s in segs[1:]:
                comps.append([const(s)] if s else [])
        else:
            comps[-1].append(p)
    if len(comps) > 1 and all(comps):
        return mk('path', *[c[0] if len(c) == 1 else mk('cat', *c) for c in comps])
    return mk('cat', *out)


def path(parts):
    """Join path components."""
    out = []
    for p in parts:
        if p.op == 'path':
            out.extend(p.a)
        elif is_const(p) and isinstance(cval(p), str):
            for s in cval(p).split('/'):
                if s and s != '.':
                    out.append(const(s))
            if cval(p).startswith('/'):
                out = [p]
        else:
            out.append(p.a[0] if p.op == '@rel' else p)
    if not out:
        return const('.')
    if all(is_const(p) and isinstance(cval(p), str) for p in out):
        return const('/'.join(cval(p) for p in out))
    if len(out) == 1:
        return out[0]
    return mk('path', *out)


def walk(t, seen=None):
    """All sub-terms."""
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, T):
            if x in seen:
                continue
            seen.add(x)
            yield x
            stack.extend(x.a)
        elif isinstance(x, (tuple, list, frozenset)):
            stack.extend(x)


_refs = {}


def refs(t):
    """obj / func terms inside t (memoised)"""
    r = _refs.get(t)
    if r is None:
        own = (t,) if t.op in ('obj', 'func') else ()
        acc = list(own)
        todo = list(t.a)
        while todo:
            x = todo.pop()
            if isinstance(x, T):
                acc.extend(refs(x))
            elif isinstance(x, (tuple, list, frozenset)):
                todo.extend(x)
        r = tuple(dict.fromkeys(acc))
        _refs[t] = r
    return r


def contains(t, sub):
    return any(x is sub for x in walk(t))


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    na = tuple(subst(x, m, memo) for x in t.a)
    if na == t.a:
        r = t
    elif t.op == 'cat':
        r = cat(na)
    elif t.op == 'path':
        r = path(na)
    else:
        r = mk(t.op, *na)
    memo[t] = r
    return r


def show(t, depth=0):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth + 1) for x in t) + ')'
    if not isinstance(t, T):
        return repr(t) if isinstance(t, str) else str(t)
    if depth > 7:
        return '…'
    d = depth + 1
    o, a = t.op, t.a
    if o == 'const':
        return repr(a[1])
    if o == 'sym':
        return a[0]
    if o == 'attr':
        return f'{show(a[0], d)}.{a[1]}'
    if o == 'idx':
        return f'{show(a[0], d)}[{show(a[1], d)}]'
    if o in ('call',):
        kw = ''.join(f', {k}={show(v, d)}' for k, v in a[2])
        return f'{a[0].split(":")[-1]}({", ".join(show(x, d) for x in a[1])}{kw})'
    if o == 'mcall':
        kw = ''.join(f', {k}={show(v, d)}' for k, v in a[3])
        return f'{show(a[0], d)}.{a[1]}({", ".join(show(x, d) for x in a[2])}{kw})'
    if o == 'ocall':
        return f'{show(a[0], d)}({", ".join(show(x, d) for x in a[1])})'
    if o == 'cmp':
        return f'({show(a[1], d)} {a[0]} {show(a[2], d)})'
    if o == 'not':
        return f'not {show(a[0], d)}'
    if o == 'cat':
        return '+'.join(show(x, d) for x in a)
    if o == 'path':
        return '/'.join(show(x, d) for x in a)
    if o == 'elem':
        return f'each[{show(a[0], d)}]'
    if o == 'enum':
        return f'{a[0].split(".")[-1]}.{a[1]}'
    if o in ('ext', 'mod', 'cls'):
        return str(a[0])
    if o == 'func':
        return a[0]
    return f'{o}({", ".join(show(x, d) for x in a)})'


# constants of the (POSIX) library
EXT_CONST = {k: const(v) for k, v in {
    'os.sep': '/', 'os.path.sep': '/', 'os.pardir': '..', 'os.path.pardir': '..', 'os.curdir': '.', 'os.path.curdir': '.',
    'os.extsep': '.', 'os.path.extsep': '.', 'os.pathsep': ':', 'os.linesep': '\n',
    'stat.ST_MODE': 0, 'stat.ST_SIZE': 6, 'stat.ST_MTIME': 8,
    'stat.S_IRUSR': 0o400, 'stat.S_IWUSR': 0o200, 'stat.S_IXUSR': 0o100, 'stat.S_IRWXU': 0o700, 'stat.S_IREAD': 0o400,
    'stat.S_IWRITE': 0o200, 'stat.S_IEXEC': 0o100, 'stat.S_IRGRP': 0o40, 'stat.S_IWGRP': 0o20, 'stat.S_IXGRP': 0o10,
    'stat.S_IRWXG': 0o70, 'stat.S_IROTH': 4, 'stat.S_IWOTH': 2, 'stat.S_IXOTH': 1, 'stat.S_IRWXO': 7,
    'stat.S_ISUID': 0o4000, 'stat.S_ISGID': 0o2000, 'stat.S_ISVTX': 0o1000,
    'os.altsep': None, 'os.path.altsep': None,
}.items()}
