"""Texts put together from constants and data: which parts are data, how each
character of them comes out, and in what context of the surrounding language."""
import glob
import html
import re
import shlex
import urllib.parse

from .engine import Inconclusive
from .terms import *

CLEAN = {'builtins.len', 'builtins.int', 'builtins.bool', 'builtins.float', 'builtins.ord', 'builtins.hash', 'builtins.id', 'builtins.isinstance',
         'bead.tech.timestamp.time_from_timestamp', 'builtins.sum', 'builtins.round', 'builtins.abs'}
SAMPLE = [chr(c) for c in range(1, 128)] + ['é', '漢']


class Hole:
    """data in a text; f: how each of its characters is written, or None if unknown"""

    def __init__(self, term, f, why=''):
        self.term, self.f, self.why = term, f, why

    def image(self, c):
        return self.f(c)


def has_data(t, clean=()):
    """can the text of this term depend on data?"""
    if t.op in ('const', 'enum', 'ext', 'cls', 'func', 'mod', 'cmp', 'not', 'and', 'or', 'lambda'):
        return False
    if t in clean:
        return False
    if t.op == 'call' and t.a[0] in CLEAN:
        return False
    if t.op == 'sym' or t.op == 'fresh':
        return True
    return any(has_data(x, clean) for x in _subterms(t))


def _subterms(t):
    for a in t.a:
        if isinstance(a, type(t)):
            yield a
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, type(t)):
                    yield b
                elif isinstance(b, tuple):
                    for c in b:
                        if isinstance(c, type(t)):
                            yield c


def parts(t, f=None):
    """-> [str | Hole]"""
    f = f or (lambda s: s)
    if is_const(t):
        v = cval(t)
        return [''.join(f(c) for c in str(v))]
    if t.op == 'cat':
        return [p for x in t.a for p in parts(x, f)]
    if t.op == 'path':
        out = []
        for i, x in enumerate(t.a):
            if i:
                out.append(f('/'))
            out += parts(x, f)
        return out
    if t.op == 'strof':
        return parts(t.a[0], f)
    if t.op == 'call' and t.a[0] in ('builtins.str', 'pathlib.Path', 'pathlib.PurePath', 'os.fspath', 'builtins.format') and len(t.a[1]) == 1:
        return parts(t.a[1][0], f)
    if t.op == 'call' and len(t.a[1]) == 1 and not t.a[2] and t.a[0] in ESCAPES:
        g = ESCAPES[t.a[0]]
        return parts(t.a[1][0], lambda c: ''.join(f(x) for x in g(c)))
    if t.op == 'call' and t.a[0] in ('html.escape', 'urllib.parse.quote') and t.a[1]:
        kw = dict(t.a[2])
        names = ('s', 'quote') if t.a[0] == 'html.escape' else ('string', 'safe')
        kw.update(zip(names, t.a[1]))
        if all(n == names[0] or is_const(v) for n, v in kw.items()) and set(kw) <= set(names):
            fn = html.escape if t.a[0] == 'html.escape' else urllib.parse.quote
            opt = {n: cval(v) for n, v in kw.items() if n != names[0]}
            return parts(kw[names[0]], lambda c: ''.join(f(x) for x in fn(c, **opt)))
    if t.op == 'mcall' and t.a[1] == 'replace' and len(t.a[2]) == 2 and all(is_const(x) and isinstance(cval(x), str) for x in t.a[2]) and not t.a[3]:
        old, new = (cval(x) for x in t.a[2])
        if len(old) == 1:
            return parts(t.a[0], lambda c: ''.join(f(x) for x in c.replace(old, new)))
    if t.op == 'mcall' and t.a[1] in ('as_posix', '__str__', '__fspath__', 'absolute', 'resolve', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'expanduser') and not t.a[2]:
        return parts(t.a[0], f)
    if t.op == 'mcall' and t.a[1] == 'as_uri':
        return ['file://'] + parts(t.a[0], lambda c: ''.join(f(x) for x in urllib.parse.quote(c)))
    if t.op == 'mcall' and t.a[1] == 'translate':
        return [Hole(t, None, 'translate')]
    if t.op in ('sym', 'attr', 'elem', 'each', 'idx', 'item'):
        return [Hole(t, f)]
    return [Hole(t, None if t.op in ('call', 'bin', 'fresh', 'mcall') else f, t.op)]


ESCAPES = {
    'glob.escape': glob.escape, 're.escape': re.escape, 'xml.sax.saxutils.escape': lambda c: html.escape(c, quote=False),
    'urllib.parse.quote_plus': urllib.parse.quote_plus, 'urllib.request.pathname2url': urllib.parse.quote,
    'nturl2path.pathname2url': urllib.parse.quote,
    'shlex.quote': lambda c: c if c != "'" else "'\"'\"'",
}


def quoted_by_shell(t):
    return t.op == 'call' and t.a[0] == 'shlex.quote'


def holes(t, clean=()):
    return [p for p in parts(t) if isinstance(p, Hole) and has_data(p.term, clean)]


# ------------------------------------------------------------------ DOT
class DotError(Exception):
    pass


BARE, QUOTE, TEXT, TAG, VALUE, LINE, BLOCK = 'outside of quotes', 'in quotes', 'in HTML text', 'in an HTML tag', 'in an HTML attribute', 'in a comment', 'in a comment block'


class Dot:
    """scanner of DOT text; feeds tokens [(kind, [str | hole])]"""

    def __init__(self):
        self.state = BARE
        self.esc = False
        self.depth = 0
        self.tokens = []
        self.cur = []
        self.prev = '\n'
        self.contexts = []

    def end(self, kind):
        if self.cur or kind in ('quoted', 'html'):
            self.tokens.append((kind, self.cur))
        self.cur = []

    def put(self, x):
        if isinstance(x, str) and self.cur and isinstance(self.cur[-1], str):
            self.cur[-1] += x
        else:
            self.cur.append(x)

    def feed(self, p):
        if not isinstance(p, str):
            self.contexts.append((p, self.state, self.esc))
            self.put(p)
            self.prev = 'x'
            return
        for c in p:
            self.char(c)
            self.prev = c

    def char(self, c):
        s = self.state
        if s == BARE:
            if c == '"':
                self.end('word')
                self.state = QUOTE
            elif c == '<':
                self.end('word')
                self.state, self.depth = TEXT, 1
            elif c == '/' and self.prev == '/':
                self.cur[-1:] = [self.cur[-1][:-1]] if self.cur and isinstance(self.cur[-1], str) else []
                self.state = LINE
            elif c == '*' and self.prev == '/':
                self.cur[-1:] = [self.cur[-1][:-1]] if self.cur and isinstance(self.cur[-1], str) else []
                self.state = BLOCK
            elif c == '#' and self.prev == '\n':
                self.state = LINE
            elif c.isspace():
                self.end('word')
            elif c in '{}[];=,:':
                self.end('word')
                self.tokens.append(('punct', [c]))
            elif c == '>' and self.prev == '-':
                self.cur[-1] = self.cur[-1][:-1]
                if self.cur == ['']:
                    self.cur = []
                self.end('word')
                self.tokens.append(('punct', ['->']))
            else:
                self.put(c)
        elif s == QUOTE:
            if self.esc:
                self.put('\\' + c if c != '"' else c)
                self.esc = False
            elif c == '\\':
                self.esc = True
            elif c == '"':
                self.end('quoted')
                self.state = BARE
            else:
                self.put(c)
        elif s == TEXT:
            if c == '<':
                self.depth += 1
                self.state = TAG
                self.put(c)
            elif c == '>':
                self.depth -= 1
                if self.depth:
                    raise DotError('unbalanced brackets')
                self.end('html')
                self.state = BARE
            else:
                self.put(c)
        elif s == TAG:
            self.put(c)
            if c == '"':
                self.state = VALUE
            elif c == '>':
                self.depth -= 1
                self.state = TEXT
        elif s == VALUE:
            self.put(c)
            if c == '"':
                self.state = TAG
        elif s == LINE:
            if c == '\n':
                self.state = BARE
        elif s == BLOCK:
            if c == '/' and self.prev == '*':
                self.state = BARE


def scan(ps):
    d = Dot()
    for p in ps:
        d.feed(p)
    if d.state not in (BARE, LINE):
        raise DotError(f'the text ends {d.state}')
    d.end('word')
    return d


ENTITY = re.compile(r'&(#[0-9]+|#x[0-9a-fA-F]+|[a-zA-Z]+);')


def breaks(state, esc, f):
    """-> complaint about a hole in this context, or None"""
    if state in (BARE, TAG):
        return f'data {state}'
    if esc:
        return 'data after a backslash'
    for c in SAMPLE:
        im = f(c)
        if state == QUOTE:
            if re.sub(r'\\.', '', im, flags=re.S).strip('\\') != re.sub(r'\\.', '', im, flags=re.S) or '"' in re.sub(r'\\.', '', im, flags=re.S):
                return f'{c!r} is written as {im!r} {state}'
        elif state in (TEXT, VALUE):
            if '<' in im or '>' in im and state == TEXT or '"' in im and state == VALUE:
                return f'{c!r} is written as {im!r} {state}'
            if '&' in ENTITY.sub('', im):
                return f'{c!r} is written as {im!r} {state}'
        elif state == LINE and '\n' in im or state == BLOCK and '/' in im:
            return f'{c!r} is written as {im!r} {state}'
    return None
