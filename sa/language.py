"""Regular languages over a finite alphabet: what a pattern matches, decided by
automata built from the pattern's text (regular expressions, glob patterns,
strftime formats).  Inclusion and disjointness with a witness."""
import re
try:
    import re._parser as sre
except ImportError:                                  # pragma: no cover
    import sre_parse as sre

from .engine import Inconclusive
from .terms import *

# all of ASCII, and some letters, digits and spaces that are not ASCII
ALPHABET = frozenset(map(chr, range(128))) | frozenset('é٣\u2003你ſ')
DIGITS = {False: frozenset(c for c in ALPHABET if c.isdigit()), True: frozenset('0123456789')}
WORD = {False: frozenset(c for c in ALPHABET if c.isalnum() or c == '_'), True: frozenset(c for c in ALPHABET if c < '\x80' and (c.isalnum() or c == '_'))}
SPACE = {False: frozenset(c for c in ALPHABET if c.isspace()), True: frozenset(' \t\n\r\f\v')}


class NFA:
    def __init__(self):
        self.n = 0
        self.eps = {}
        self.trans = {}
        self.start = self.state()
        self.accept = set()

    def state(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, set()).add(b)

    def t(self, a, chars, b):
        self.trans.setdefault(a, []).append((frozenset(chars), b))

    def closure(self, states):
        todo, seen = list(states), set(states)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
        return frozenset(seen)

    def step(self, states, c):
        return self.closure({b for a in states for chars, b in self.trans.get(a, ()) if c in chars})

    def ok(self, states):
        return bool(self.accept & states)


def _flags(flags):
    if flags & ~(re.ASCII | re.UNICODE | re.VERBOSE | re.DOTALL):
        raise Inconclusive(f'flags of a regular expression: {flags}')


def regex(pattern, method='fullmatch', flags=0):
    """language of the texts that re.<method>(pattern, text) accepts"""
    try:
        tree = sre.parse(pattern, flags)
    except re.error as e:
        raise Inconclusive(f'pattern {pattern!r}: {e}')
    flags = tree.state.flags
    _flags(flags)
    n = NFA()
    final, ended = n.state(), n.state()
    n.accept.add(ended)
    if method == 'fullmatch':
        n.e(final, ended)
    elif method in ('match', 'search'):
        rest = n.state()
        n.e(final, rest)
        n.t(rest, ALPHABET, rest)
        n.e(rest, ended)
    else:
        raise Inconclusive(f're.{method}')
    ascii_ = bool(flags & re.ASCII)

    def category(av):
        name = str(av)
        for kind, sets in (('DIGIT', DIGITS), ('WORD', WORD), ('SPACE', SPACE)):
            if name == f'CATEGORY_{kind}':
                return sets[ascii_]
            if name == f'CATEGORY_NOT_{kind}':
                return ALPHABET - sets[ascii_]
        raise Inconclusive(name)

    def charset(items):
        out, neg = set(), False
        for op, av in items:
            op = str(op)
            if op == 'NEGATE':
                neg = True
            elif op == 'LITERAL':
                out.add(chr(av))
            elif op == 'RANGE':
                out |= {c for c in ALPHABET if av[0] <= ord(c) <= av[1]}
            elif op == 'CATEGORY':
                out |= category(av)
            else:
                raise Inconclusive(f'{op} in {pattern!r}')
        return ALPHABET - out if neg else frozenset(out)

    def build(items, k, first):
        """state from which items then state k is matched"""
        items = list(items)
        for i in range(len(items) - 1, -1, -1):
            k = one(items[i], k, first and i == 0)
        return k

    def one(item, k, first):
        op, av = str(item[0]), item[1]
        s = n.state()
        if op == 'LITERAL':
            if chr(av) not in ALPHABET:
                raise Inconclusive(f'letter of {pattern!r}')
            n.t(s, {chr(av)}, k)
        elif op == 'NOT_LITERAL':
            n.t(s, ALPHABET - {chr(av)}, k)
        elif op == 'ANY':
            n.t(s, ALPHABET if flags & re.DOTALL else ALPHABET - {'\n'}, k)
        elif op == 'IN':
            n.t(s, charset(av), k)
        elif op == 'SUBPATTERN':
            _, add, _, sub = av
            if add:
                _flags(add)
            n.e(s, build(sub, k, first))
        elif op == 'ATOMIC_GROUP' or op == 'POSSESSIVE_REPEAT':
            raise Inconclusive(f'{op} in {pattern!r}')
        elif op == 'BRANCH':
            for sub in av[1]:
                n.e(s, build(sub, k, first))
        elif op in ('MAX_REPEAT', 'MIN_REPEAT'):
            lo, hi, sub = av
            if lo > 100 or (str(hi) != 'MAXREPEAT' and hi > 100):
                raise Inconclusive(f'repeats of {pattern!r}')
            if str(hi) == 'MAXREPEAT':
                loop = n.state()
                n.e(loop, k)
                n.e(loop, build(sub, loop, False))
                cur = loop
            else:
                cur = k
                for _ in range(hi - lo):
                    x = n.state()
                    n.e(x, build(sub, cur, False))
                    n.e(x, k)
                    cur = x
            for _ in range(lo):
                cur = build(sub, cur, False)
            n.e(s, cur)
        elif op == 'AT':
            at = str(av)
            if at in ('AT_BEGINNING', 'AT_BEGINNING_STRING') and first:
                begins[0] = True
                n.e(s, k)
            elif at == 'AT_END_STRING' and k == final:
                n.e(s, ended)
            elif at == 'AT_END' and k == final:
                n.e(s, ended)
                if method != 'fullmatch':
                    n.t(s, {'\n'}, ended)
            else:
                raise Inconclusive(f'{at} in {pattern!r}')
        else:
            raise Inconclusive(f'{op} in {pattern!r}')
        return s
    begins = [False]
    start = build(tree, final, True)
    if begins[0] and method == 'search' and '|' in pattern:
        raise Inconclusive(f'pattern {pattern!r}')
    n.e(n.start, start)
    if method == 'search' and not begins[0]:
        n.t(n.start, ALPHABET, n.start)
    return n


def glob(pattern):
    """file names matched by a glob pattern (case sensitive)"""
    out, i = '', 0
    while i < len(pattern):
        c = pattern[i]
        i += 1
        if c == '*':
            out += r'[^/]*'
        elif c == '?':
            out += r'[^/]'
        elif c == '[':
            j = i
            if j < len(pattern) and pattern[j] == '!':
                j += 1
            if j < len(pattern) and pattern[j] == ']':
                j += 1
            while j < len(pattern) and pattern[j] != ']':
                j += 1
            if j >= len(pattern):
                out += r'\['
            else:
                body = pattern[i:j].replace('\\', r'\\').replace('[', r'\[')
                i = j + 1
                neg = body.startswith('!')
                body = body[1:] if neg else body
                body = body.replace('^', r'\^')
                if '-' in body[1:-1]:
                    parts = body.split('-')
                    if any(len(p) == 0 for p in parts[1:-1]):
                        raise Inconclusive(f'glob {pattern!r}')
                body = ('\\' + body if body.startswith(']') or body.startswith('-') else body)
                out += '[' + ('^' if neg else '') + body + ']'
        else:
            out += re.escape(c)
    return out


# field -> (width, text, pattern)
FORMAT = dict(
    Y=(4, 'year', '[0-9]{4}'), m=(2, 'month', '(?:0[1-9]|1[0-2])'), d=(2, 'day', '(?:0[1-9]|[12][0-9]|3[01])'),
    H=(2, 'hour', '(?:[01][0-9]|2[0-3])'), M=(2, 'minute', '[0-5][0-9]'), S=(2, 'second', '[0-5][0-9]'),
    f=(6, 'microsecond', '[0-9]{6}'), z=(5, 'zone', '[-+](?:[01][0-9]|2[0-3])[0-5][0-9]'),
    y=(2, 'year of century', '[0-9]{2}'), j=(3, 'day of year', '[0-3][0-9]{2}'), I=(2, 'hour of half day', '(?:0[1-9]|1[0-2])'),
    U=(2, 'week', '[0-5][0-9]'), W=(2, 'week', '[0-5][0-9]'), V=(2, 'week', '[0-5][0-9]'), G=(4, 'week year', '[0-9]{4}'), w=(1, 'weekday', '[0-6]'),
    p=(2, 'half of day', '[AP]M'), s=(10, 'seconds', '[0-9]{10}'))
SHORT = dict(T='%H:%M:%S', F='%Y-%m-%d', R='%H:%M', D='%m/%d/%y')


def strftime(fmt):
    """-> (pattern of the texts made, {field: (start, end)})"""
    for k, v in SHORT.items():
        fmt = fmt.replace('%' + k, v)
    out, pos, slots, i = '', 0, {}, 0
    while i < len(fmt):
        if fmt[i] != '%':
            out += re.escape(fmt[i])
            pos += 1
            i += 1
            continue
        if fmt[i + 1:i + 2] == '%':
            out += '%'
            pos += 1
            i += 2
            continue
        f = FORMAT.get(fmt[i + 1:i + 2])
        if fmt[i + 1:i + 3] == ':z':
            f = (6, 'zone with colon', '[-+](?:[01][0-9]|2[0-3]):[0-5][0-9]')
            i += 1
        if f is None:
            raise Inconclusive(f'format {fmt!r}')
        slots.setdefault(f[1], (pos, pos + f[0]))
        pos += f[0]
        out += f[2]
        i += 2
    return out, slots


def _explore(machines, found):
    """breadth first over sets of states; -> shortest text for which found(states) holds"""
    start = tuple(m.closure({m.start}) for m in machines)
    todo, seen = [(start, '')], {start}
    while todo:
        nxt = []
        for states, text in todo:
            if found(states):
                return text
            for c in sorted(ALPHABET, key=lambda c: (not c.isalnum(), c)):
                new = tuple(m.step(s, c) for m, s in zip(machines, states))
                if new not in seen and new[0]:
                    seen.add(new)
                    nxt.append((new, text + c))
        if len(seen) > 20000:
            raise Inconclusive('language too large')
        todo = nxt
    return None


def missing(a, b):
    """a text of language a that is not in b, or None"""
    return _explore([a, b], lambda s: a.ok(s[0]) and not b.ok(s[1]))


def common(a, b):
    """a text of both, or None"""
    return _explore([a, b], lambda s: a.ok(s[0]) and b.ok(s[1]))


# ------------------------------------------------------------------ preimages

def strip(n, chars, left=True, right=True):
    """texts whose stripped text is in n"""
    out = NFA()
    chars = frozenset(chars) & ALPHABET
    # phases: 0 leading, 1 inside (last letter not stripped), 2 inside (last letter would be), 3 trailing
    ids = {}

    def at(q, ph):
        if (q, ph) not in ids:
            ids[q, ph] = out.state()
            todo.append((q, ph))
        return ids[q, ph]
    todo = []
    out.e(out.start, at(n.start, 0))
    tail = out.state()
    out.t(tail, chars, tail)
    out.accept.add(tail)
    while todo:
        q, ph = todo.pop()
        s = ids[q, ph]
        for r in n.eps.get(q, ()):
            out.e(s, at(r, ph))
        if q in n.accept and (ph in (0, 1) or not right):
            if right:
                out.e(s, tail)
            else:
                out.accept.add(s)
        if ph == 0 and left and q == n.start:
            out.t(s, chars, s)
        for cs, r in n.trans.get(q, ()):
            if ph == 0 and left:
                if cs - chars:
                    out.t(s, cs - chars, at(r, 1))
            else:
                if cs - chars:
                    out.t(s, cs - chars, at(r, 1))
                if cs & chars:
                    out.t(s, cs & chars, at(r, 2))
    return out


def mapped(n, f):
    """texts whose letters, each replaced by f (text), are in n"""
    out = NFA()
    base = {}

    def at(states):
        if states not in base:
            base[states] = out.state()
            if n.ok(states):
                out.accept.add(base[states])
            todo.append(states)
        return base[states]
    todo = []
    out.e(out.start, at(n.closure({n.start})))
    while todo:
        states = todo.pop()
        for c in ALPHABET:
            cur = states
            for d in f(c):
                cur = n.step(cur, d)
            if cur:
                out.t(base[states], {c}, at(cur))
        if len(base) > 5000:
            raise Inconclusive('language too large')
    return out


def around(n, before, after):
    """texts x with before + x + after in n"""
    out = NFA()
    base = {}

    def at(states):
        if states not in base:
            base[states] = out.state()
            cur = states
            for c in after:
                cur = n.step(cur, c)
            if n.ok(cur):
                out.accept.add(base[states])
            todo.append(states)
        return base[states]
    todo = []
    first = n.closure({n.start})
    for c in before:
        first = n.step(first, c)
    out.e(out.start, at(first))
    while todo:
        states = todo.pop()
        for c in ALPHABET:
            cur = n.step(states, c)
            if cur:
                out.t(base[states], {c}, at(cur))
        if len(base) > 5000:
            raise Inconclusive('language too large')
    return out


# ------------------------------------------------------------------ conditions

EXISTS = ('is_dir', 'is_file', 'exists', 'is_symlink', 'lexists')
EXISTS_FN = ('os.path.exists', 'os.path.isdir', 'os.path.isfile', 'os.path.lexists', 'os.path.islink')


class Conditions:
    """Conjunctions of conditions on one text (term): decided over all texts."""

    def __init__(self, text):
        self.text = text
        self.atoms = {}          # term -> NFA or None

    def atom(self, t):
        if t not in self.atoms:
            p = self.pattern(t)
            self.atoms[t] = self.back(p[0], regex(*p[1:])) if p else None
        return self.atoms[t]

    def const(self, t):
        if is_const(t) and isinstance(cval(t), str):
            return cval(t)
        if t.op == 'ext' and t.a[0] in ('os.sep', 'os.path.sep', 'posixpath.sep'):
            return '/'

    def text_expr(self, t):
        """is the term computed from the text by functions understood"""
        if t is self.text:
            return True
        if t.op == 'call' and t.a[0] in ('builtins.str', 'sys.intern') and len(t.a[1]) == 1:
            return self.text_expr(t.a[1][0])
        if t.op in ('strof', 'str'):
            return self.text_expr(t.a[0])
        if t.op == 'mcall' and self.text_expr(t.a[0]):
            args = t.a[2]
            if t.a[1] in ('lower', 'upper', 'casefold') and not args:
                return True
            if t.a[1] in ('strip', 'lstrip', 'rstrip') and all(self.const(x) is not None for x in args):
                return True
            if t.a[1] == 'replace' and len(args) == 2 and all(self.const(x) is not None for x in args) and len(self.const(args[0])) == 1:
                return True
        if t.op == 'cat':
            texts = [x for x in t.a if self.const(x) is None]
            return len(texts) == 1 and self.text_expr(texts[0])
        return False

    def back(self, t, n):
        """language of the texts for which the expression is in n"""
        if t is self.text:
            return n
        if t.op == 'call':
            return self.back(t.a[1][0], n)
        if t.op in ('strof', 'str'):
            return self.back(t.a[0], n)
        if t.op == 'cat':
            k = next(i for i, x in enumerate(t.a) if self.const(x) is None)
            return self.back(t.a[k], around(n, ''.join(map(self.const, t.a[:k])), ''.join(map(self.const, t.a[k + 1:]))))
        m, args = t.a[1], [self.const(x) for x in t.a[2]]
        if m in ('lower', 'upper', 'casefold'):
            n = mapped(n, lambda c: ''.join(x for x in getattr(c, m)() if x in ALPHABET) or c)
        elif m == 'replace':
            n = mapped(n, lambda c: args[1] if c == args[0] else c)
        else:
            n = strip(n, args[0] if args else SPACE[False], m != 'rstrip', m != 'lstrip')
        return self.back(t.a[0], n)

    def pattern(self, t):
        """(expression, pattern, method, flags) equivalent to the term being true"""
        k, same = self.const, self.text_expr
        if same(t):
            return t, '.+', 'fullmatch', re.DOTALL
        if t.op == 'cmp':
            op, a, b = t.a
            if op == 'in' and same(b) and k(a) is not None:
                return b, '.*' + re.escape(k(a)) + '.*', 'fullmatch', re.DOTALL
            if op == 'in' and same(a) and b.op in ('tuple', 'list', 'set'):
                items = [x.a[0] if x.op == 'item' else x for x in b.a]
                if all(k(x) is not None for x in items):
                    return a, '|'.join('(?:' + re.escape(k(x)) + ')' for x in items), 'fullmatch', re.DOTALL
            if op == '==':
                for x, y in ((a, b), (b, a)):
                    if same(x) and k(y) is not None:
                        return x, re.escape(k(y)), 'fullmatch', re.DOTALL
                    if k(y) is not None and x.op == 'idx' and same(x.a[0]) and is_const(x.a[1]) and cval(x.a[1]) in (0, -1) and len(k(y)) == 1:
                        return x.a[0], (re.escape(k(y)) + '.*') if cval(x.a[1]) == 0 else ('.*' + re.escape(k(y))), 'fullmatch', re.DOTALL
                    if is_const(y) and cval(y) in (0, -1) and x.op == 'mcall' and x.a[1] == ('count' if cval(y) == 0 else 'find') and \
                            same(x.a[0]) and len(x.a[2]) == 1 and k(x.a[2][0]):
                        c = k(x.a[2][0])
                        return x.a[0], without(c), 'fullmatch', re.DOTALL
                    if is_const(y) and type(cval(y)) is int and x.op == 'call' and x.a[0] == 'builtins.len' and same(x.a[1][0]):
                        return x.a[1][0], '.{%d}' % cval(y), 'fullmatch', re.DOTALL
            if op == '<':
                if is_const(b) and cval(b) == 0 and a.op == 'mcall' and a.a[1] in ('find', 'rfind') and same(a.a[0]) and len(a.a[2]) == 1 and k(a.a[2][0]):
                    return a.a[0], without(k(a.a[2][0])), 'fullmatch', re.DOTALL
                for x, y, less in ((a, b, True), (b, a, False)):
                    if x.op == 'call' and x.a[0] == 'builtins.len' and same(x.a[1][0]) and is_const(y) and type(cval(y)) is int:
                        if less and cval(y) <= 0:
                            return None
                        return x.a[1][0], ('.{0,%d}' % (cval(y) - 1)) if less else ('.{%d}.*' % (cval(y) + 1)), 'fullmatch', re.DOTALL
        if t.op == 'mcall' and same(t.a[0]) and t.a[1] in ('startswith', 'endswith') and len(t.a[2]) == 1:
            xs = t.a[2][0].a if t.a[2][0].op == 'tuple' else (t.a[2][0],)
            if all(k(x) is not None for x in xs):
                one = '(?:' + '|'.join(re.escape(k(x)) for x in xs) + ')'
                return t.a[0], (one + '.*' if t.a[1] == 'startswith' else '.*' + one), 'fullmatch', re.DOTALL
        if t.op == 'mcall' and same(t.a[0]) and not t.a[2]:
            one = dict(isalnum='[^\\W_]+', isdigit='\\d+', isidentifier='[^\\W0-9]\\w*').get(t.a[1])
            if one:
                return t.a[0], one, 'fullmatch', 0
        if t.op == 'mcall' and t.a[1] in ('match', 'fullmatch', 'search') and len(t.a[2]) == 1 and same(t.a[2][0]) and t.a[0].op == 'call' and \
                t.a[0].a[0] == 're.compile' and len(t.a[0].a[1]) == 1 and k(t.a[0].a[1][0]) is not None and not dict(t.a[0].a[2]):
            return t.a[2][0], k(t.a[0].a[1][0]), t.a[1], 0
        if t.op == 'call' and t.a[0] in ('re.match', 're.fullmatch', 're.search') and len(t.a[1]) == 2 and same(t.a[1][1]) and k(t.a[1][0]) is not None:
            return t.a[1][1], k(t.a[1][0]), t.a[0][3:], 0
        return None

    def free(self, t):
        """conditions on the world that can go either way for every text"""
        if t.op == 'mcall' and t.a[1] in EXISTS or t.op == 'call' and t.a[0] in EXISTS_FN:
            return True
        if t.op == 'cmp' and t.a[0] in ('is', '==') and any(x.op == 'obj' for x in t.a[1:]):
            return True
        if t.op == 'cmp' and t.a[0] == 'in' and any(x.op in ('call', 'idx') and not self.text_expr(x) for x in t.a[2:]):
            return not contains(t.a[2], self.text)
        return False

    def normal(self, lits):
        """literals with negation and 'is None' resolved"""
        out = {}
        for t, b in lits.items():
            while t.op == 'not':
                t, b = t.a[0], not b
            if t.op == 'cmp' and t.a[0] in ('is', '==') and t.a[2] is NONE and self.pattern(t.a[1]):
                t, b = t.a[1], not b
            out[t] = b
        return out

    def counterexample(self, given, wanted):
        """a text for which all literals of given hold and no conjunction of
        wanted does; None if there is none.  given: literals not understood are
        left out (-> the second result lists those that mention the text)."""
        given = self.normal(given)
        wanted = [self.normal(w) for w in wanted]
        skipped = []
        g = []
        for t, b in given.items():
            if not contains(t, self.text):
                continue
            m = self.atom(t)
            if m is not None:
                g.append((t, b))
            elif not self.free(t):
                skipped.append(t)
        for w in wanted:
            for t in w:
                if contains(t, self.text) and self.atom(t) is None:
                    raise Inconclusive(f'condition {t!r}'[:200])
        terms = list(dict.fromkeys([t for t, _ in g] + [t for w in wanted for t in w if contains(t, self.text)]))
        any_ = regex('.*', 'fullmatch', re.DOTALL)
        machines = [any_] + [self.atom(t) for t in terms]
        ix = {t: i + 1 for i, t in enumerate(terms)}

        def found(states):
            v = {t: machines[i].ok(states[i]) for t, i in ix.items()}
            return all(v[t] == b for t, b in g) and not any(all(v[t] == b for t, b in w.items() if t in v) for w in wanted)
        return _explore(machines, found), skipped


def without(c):
    if len(c) != 1:
        raise Inconclusive(f'texts without {c!r}')
    return '[^' + ('\\' + c if c in '\\^]-' else c) + ']*'
