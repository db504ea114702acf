"""Texts made of an unknown bead name followed by text of a known regular
language: what glob patterns match of them and what is left of them after
pieces are cut off."""
import re

from .engine import Inconclusive
from .language import regex, glob, missing, common
from .terms import *
from .terms import T

NAME_END = r'[^/\0]*'


def width(pattern):
    """number of characters of every text of a pattern"""
    from .language import sre
    lo, hi = sre.parse(pattern).getwidth()
    if lo != hi:
        raise Inconclusive(f'width of {pattern}')
    return lo


class Text:
    """name + one text of pattern .rest  (rest == '' : the name itself);
    path: preceded by a folder"""

    def __init__(self, name, rest, path=False):
        self.name, self.rest, self.path = name, rest, path

    def __eq__(self, o):
        return isinstance(o, Text) and (self.name, self.rest, self.path) == (o.name, o.rest, o.path)

    def __repr__(self):
        return f'name + {self.rest!r}' if self.rest else 'name'


class Wrong(Exception):
    pass


def text_of(t, name, langs, derived=None):
    """term -> Text.  langs: {term: pattern}.  Raises Wrong(why) if it cannot be the
    name followed by something for every name and every text."""
    def const_text(x):
        return cval(x) if isinstance(x, T) and is_const(x) and isinstance(cval(x), str) else None

    def of(t):
        if t is name:
            return Text(name, '')
        if t.op == 'path' and t.a:
            r = of(t.a[-1])
            return r and Text(name, r.rest, True)
        if t.op == 'cat':
            parts = list(t.a)
            r = of(parts[0])
            if r is None:
                return None
            rest = r.rest
            for x in parts[1:]:
                s = const_text(x)
                if s is not None:
                    rest += re.escape(s)
                elif x in langs:
                    rest += f'(?:{langs[x]})'
                elif x.op == 'mcall' and x.a[1] in ('lower', 'upper') and x.a[0] in langs and not re.search(r"\\[A-Za-z]", langs[x.a[0]]):
                    rest += f'(?:{getattr(langs[x.a[0]], x.a[1])()})'
                else:
                    return None
            return Text(name, rest, r.path)
        if t.op in ('strof', 'str'):
            return of(t.a[0])
        if t.op == 'call' and t.a[0] in ('builtins.str', 'os.fspath', 'pathlib.Path', 'pathlib.PurePath') and len(t.a[1]) == 1:
            return of(t.a[1][0])
        if t.op == 'attr' and t.a[1] == 'name' or t.op == 'call' and t.a[0] == 'os.path.basename':
            r = of(t.a[0] if t.op == 'attr' else t.a[1][0])
            return r and Text(name, r.rest)
        if t.op == 'idx' and is_const(t.a[1]) and t.a[0].op == 'call' and t.a[0].a[0] == 'os.path.split' and cval(t.a[1]) in (1, -1):
            r = of(t.a[0].a[1][0])
            return r and Text(name, r.rest)
        if t.op == 'attr' and t.a[1] == 'stem':
            r = of(t.a[0])
            return r and Text(name, extension(r)[0])
        if t.op == 'idx' and is_const(t.a[1]) and t.a[0].op == 'call' and t.a[0].a[0] == 'os.path.splitext' and cval(t.a[1]) in (0, -2):
            r = of(t.a[0].a[1][0])
            return r and Text(name, extension(r)[0], r.path)
        if t.op == 'mcall' and t.a[1] == 'removesuffix' and const_text(t.a[2][0]) is not None:
            r = of(t.a[0])
            return r and cut_end(r, const_text(t.a[2][0]))
        if t.op == 'slice' and (t.a[1] is NONE or is_const(t.a[1]) and cval(t.a[1]) == 0) and is_const(t.a[2]) and isinstance(cval(t.a[2]), int) and cval(t.a[2]) < 0:
            r = of(t.a[0])
            return r and cut_width(r, -cval(t.a[2]))
        if t.op == 'call' and t.a[0] == 're.sub' or t.op == 'mcall' and t.a[1] == 'sub' and t.a[0].op == 'call' and t.a[0].a[0] == 're.compile':
            if t.op == 'call':
                args, pat = list(t.a[1][1:]), const_text(t.a[1][0])
                kw = dict(t.a[2])
                flags = ()
            else:
                args, pat, kw, flags = list(t.a[2]), const_text(t.a[0].a[1][0]), dict(t.a[3]) if len(t.a) > 3 else {}, t.a[0].a[1][1:]
            if pat is None or len(args) < 2 or const_text(args[0]) != '' or kw or flags or len(args) > 2:
                return None
            r = of(args[1])
            return r and cut_match(r, pat)
        if t.op == 'idx' and is_const(t.a[1]) and t.a[0].op == 'mcall' and cval(t.a[1]) == 0:
            m, args = t.a[0].a[1], t.a[0].a[2]
            if m in ('rsplit', 'rpartition', 'split', 'partition') and args and const_text(args[0]):
                r = of(t.a[0].a[0])
                if r is None:
                    return None
                last = m == 'rpartition' or m == 'rsplit' and len(args) == 2 and is_const(args[1]) and cval(args[1]) == 1
                return cut_separator(r, const_text(args[0]), last, m)
        if t.op == 'call' and derived and t.a[0] in derived and len(t.a[1]) == 1:
            return of(t.a[1][0])
        return None

    return of(t)


def tails(rest):
    """splits of a pattern's text at a literal end"""
    from .language import sre
    return sre.parse(rest)


def literal_end(rest):
    """(pattern of what precedes, literal text at the end)"""
    # the pattern is a sequence; find the longest literal end by its text
    for i in range(len(rest) + 1):
        tail = rest[i:]
        try:
            re.compile(rest[:i])
            lits = tails(tail)
        except re.error:
            continue
        if rest[:i].endswith('\\'):
            continue
        if all(str(op) == 'LITERAL' for op, _ in lits):
            return rest[:i], ''.join(chr(av) for _, av in lits)
    return rest, ''


def extension(r):
    """what splitext leaves and takes"""
    head, lit = literal_end(r.rest)
    if '.' in lit:
        i = lit.rindex('.')
        return head + re.escape(lit[:i]), lit[i:]
    if common(regex(r.rest), regex(r'.*\..*')) is None:
        if not r.rest or True:
            raise Wrong('a name may contain a dot: what follows it is cut off')
    raise Inconclusive(f'extension of {r}')


def cut_end(r, s):
    head, lit = literal_end(r.rest)
    if lit.endswith(s):
        return Text(r.name, head + re.escape(lit[:len(lit) - len(s)]), r.path)
    if missing(regex(r.rest), regex('.*' + re.escape(s))) is None:
        raise Inconclusive(f'end of {r}')
    if common(regex(NAME_END + r.rest), regex('.*' + re.escape(s))) is None:
        return r
    raise Wrong(f'{s!r} is cut off from some names only')


def cut_width(r, n):
    w = width(r.rest) if r.rest else 0
    if w == n:
        return Text(r.name, '', r.path)
    head, lit = literal_end(r.rest)
    if len(lit) >= n:
        return Text(r.name, head + re.escape(lit[:len(lit) - n]), r.path)
    if n > w:
        raise Wrong(f'{n} characters are cut off, {w} follow the name')
    raise Inconclusive(f'{n} characters of {r}')


def cut_match(r, pat):
    if r.path:
        raise Inconclusive(f'pattern {pat!r} on a path')
    if regex(pat, 'fullmatch').ok(regex(pat, 'fullmatch').closure({0})):
        raise Inconclusive(f'pattern {pat!r} matches the empty text')
    if not (pat.endswith('$') or pat.endswith(r'\Z')):
        # matches must end at the end anyway: otherwise parts of the name are cut
        w = common(regex(pat, 'fullmatch'), regex(r'[^/\0]+'))
        if w is not None:
            raise Wrong(f'removes {w!r} from the middle of a name')
        raise Inconclusive(f'pattern {pat!r}')
    w = missing(regex(r.rest), regex(pat, 'match'))
    if w is not None:
        if common(regex(r.rest), regex(pat, 'match')) is None and common(regex(NAME_END + r.rest), regex(pat, 'search')) is None:
            return r
        raise Wrong(f'{w!r} after the name is not removed')
    w = common(regex(r'[^/\0]+(?:' + r.rest + ')'), regex(pat, 'match'))
    if w is not None:
        raise Wrong(f'the end of some names is removed too: {w!r}')
    return Text(r.name, '')


def cut_separator(r, sep, last, method):
    if not last:
        raise Wrong(f'{method} at the first {sep!r}: names containing it are cut')
    head = re.escape(sep)
    if not r.rest.startswith(head):
        raise Inconclusive(f'{method} of {r}')
    tail = r.rest[len(head):]
    if common(regex(tail), regex('.*' + re.escape(sep) + '.*')) is not None:
        raise Wrong(f'{sep!r} may follow later')
    return Text(r.name, '')


def glob_matches(t, name, rest, escaped='glob.escape'):
    """None, or why the glob pattern (term) may miss  name + text of rest."""
    parts = list(t.a) if t.op == 'cat' else [t]
    if is_const(t):
        p = glob(cval(t))
        w = missing(regex(NAME_END + '[^/\\0]' + rest if rest else NAME_END), regex(p))
        return None if w is None else f'{w!r} is not matched'
    head, tail = parts[0], parts[1:]
    if not all(is_const(x) and isinstance(cval(x), str) for x in tail):
        raise Inconclusive(f'pattern {t!r}')
    tail = ''.join(cval(x) for x in tail)
    if head.op == 'call' and head.a[0] == escaped and head.a[1] == (name,):
        w = missing(regex(rest), regex(glob(tail)))
        return None if w is None else f'after the name {w!r} is not matched'
    if head is name:
        return 'the name is used as a pattern, special characters in it do not match themselves'
    raise Inconclusive(f'pattern {t!r}')
