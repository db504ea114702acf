"""Typestate analysis of the hash object: on every path of the content hash
functions (loops to a fixpoint) the pieces fed to SHA-512 are the length
prefix, every block read - unchanged, each exactly once, in order, up to the
end of the file - and the length suffix; the result is its plain hexadecimal
digest, and a file is hashed only if the number of bytes read equals the stated
size."""
from ..flow import flow, events
from ..std import *
from ..terms import *
from ..terms import T

ENC = {'ascii', 'utf-8', 'utf8', 'latin-1', 'latin1', 'iso-8859-1', 'us-ascii'}
F, N, B = sym('content_file'), sym('file_size'), sym('content_bytes')
LEN_B = mk('call', 'builtins.len', (B,), ())


def pieces(t):
    """Byte string term -> list of parts: str constants (encoded text), terms"""
    if is_const(t) and isinstance(cval(t), bytes):
        return [cval(t).decode('latin-1')] if cval(t) else []
    if t.op == 'mcall' and t.a[1] == 'encode':
        if len(t.a[2]) and not (is_const(t.a[2][0]) and str(cval(t.a[2][0])).lower() in ENC):
            return [t]
        return text(t.a[0])
    if t.op == 'call' and t.a[0] in ('builtins.bytes', 'codecs.encode') and len(t.a[1]) == 2:
        return text(t.a[1][0])
    if t.op == 'call' and t.a[0] in ('builtins.bytes', 'builtins.bytearray', 'builtins.memoryview') and len(t.a[1]) == 1:
        return pieces(t.a[1][0])
    if t.op == 'bin' and t.a[0] == '+':
        return pieces(t.a[1]) + pieces(t.a[2])
    if t.op == 'cat':
        out = []
        for x in t.a:
            out += pieces(x)
        return out
    if t.op == 'mcall' and t.a[1] == 'join' and is_const(t.a[0]) and cval(t.a[0]) == b'' and t.a[2] and t.a[2][0].op in (
            'list', 'tuple'):
        out = []
        for x in t.a[2][0].a:
            x = x if t.a[2][0].op == 'tuple' else x.a[0] if x.op == 'item' else None
            if x is None:
                return [t]
            out += pieces(x)
        return out
    if t.op == 'bin' and t.a[0] == '%' and is_const(t.a[1]) and isinstance(cval(t.a[1]), bytes):
        fmt = cval(t.a[1]).decode('latin-1')
        args = t.a[2].a if t.a[2].op == 'tuple' else (t.a[2],)
        parts = fmt.replace('%i', '%d').split('%d')
        if len(parts) == len(args) + 1 and not any('%' in p for p in parts):
            out = []
            for p, a in zip(parts, list(args) + [None]):
                out += ([p] if p else []) + ([a] if a is not None else [])
            return out
    return [t]


def text(t):
    if is_const(t):
        return [str(cval(t))]
    if t.op == 'cat':
        return [str(cval(x)) if is_const(x) else x for x in t.a]
    if t.op == 'call' and t.a[0] in ('builtins.str', 'builtins.repr', 'builtins.format') and len(t.a[1]) == 1:
        return text(t.a[1][0])
    return [t]


def is_hash(t):
    return t.op == 'call' and (t.a[0] == 'hashlib.sha512' or t.a[0] == 'hashlib.new' and t.a[1] and is_const(
        t.a[1][0]) and str(cval(t.a[1][0])).lower() == 'sha512')


def reads(ev):
    """-> ('block', term, is whole) for reads from the file"""
    if ev.kind == 'mcall' and ev.fn in ('read', 'read1', 'readline', 'readinto', 'readall') and ev.args:
        r = ev.args[0]
        if r is F or r.op == 'call' and r.a[0] == 'io.BytesIO' and r.a[1][:1] == (B,) or r.op == 'call' and r.a[0].startswith(
                ('io.', 'builtins.open')) and contains(r, F):
            return True
    return False


class Feed:
    """state: (stage, pending read, end of file seen); stage: text so far for
    the prefix, 'body', or 'end' after the suffix"""

    def __init__(self, size, file, lits):
        self.lits = lits
        self.size = size
        self.file = file
        self.bad = []
        self.odd = []

    def size_ok(self, t):
        return t is self.size or not self.file and t is LEN_B or isinstance(t, T) and self.lits.get(
            mk('cmp', '==', *sorted((t, self.size), key=lambda x: x.n))) is True

    def altered(self, t):
        return any(x.op in ('slice', 'bin', 'idx') or x.op == 'mcall' and x.a[1] not in ('read', 'encode', 'tobytes', '__str__')
                   for x in walk(t))

    def step(self, s, ev):
        stage, pending, eof = s
        if ev.kind in ('call', 'query') and is_hash(ev.res or mk('call', ev.fn or '', tuple(ev.args), tuple(ev.kw or ()))):
            t = mk('call', ev.fn, tuple(ev.args), tuple(ev.kw or ()))
            data = t.a[1][1:] if ev.fn == 'hashlib.new' else t.a[1]
            s = (('',), None, False)
            return [self.feed(s, data[0], ev)] if data else [s]
        if reads(ev):
            if pending is not None:
                self.bad.append((ev, f'content read ({pending!r}) is never fed to the hash'))
            return [(stage, ev.res, False)]
        if ev.kind == 'assume' and pending is not None:
            t, v = ev.fn, ev.x
            if t is pending and v is False or t.op == 'cmp' and t.a[0] == '==' and v is True and pending in t.a[1:3] and any(
                    is_const(x) and cval(x) in (b'', '') for x in t.a[1:3]):
                a = pending.a[2]
                whole = not a or is_const(a[0]) and isinstance(cval(a[0]), int) and cval(a[0]) != 0
                return [(stage, None, eof or whole)]
        if ev.kind == 'mcall' and ev.fn == 'update' and ev.args and is_hash(ev.args[0]) and len(ev.args) > 1:
            return [self.feed(s, ev.args[1], ev)]
        if ev.kind == 'mcall' and ev.fn in ('seek', 'truncate') and ev.args and ev.args[0] is F:
            self.odd.append('the file is repositioned')

    def feed(self, s, t, ev):
        for p in pieces(t):
            s = self.feed1(s, p, ev)
        return s

    def feed1(self, s, p, ev):
        stage, pending, eof = s
        if isinstance(p, str) or self.size_ok(p):
            if stage == 'body':
                # suffix
                if pending is not None:
                    self.bad.append((ev, f'content read ({pending!r}) is not fed to the hash before the suffix'))
                return (('suffix', p if isinstance(p, str) else '#'), None, eof)
            if isinstance(stage, tuple) and stage[0] == 'suffix':
                return (('suffix', stage[1] + (p if isinstance(p, str) else '#')), pending, eof)
            if isinstance(stage, tuple):
                x = stage[0] + (p if isinstance(p, str) else '#')
                return ('body', pending, eof) if x == '#:' else ((x,), pending, eof)
        if pending is not None and p is pending:
            if stage != 'body':
                self.bad.append((ev, 'content is fed to the hash outside of its length frame'))
            whole = not p.a[2]
            return (stage, None, eof or whole)
        if not self.file and p is B:
            if stage != 'body':
                self.bad.append((ev, 'content is fed to the hash outside of its length frame'))
            if eof:
                self.bad.append((ev, 'content is fed to the hash twice'))
            return (stage, pending, True)
        if self.altered(p):
            self.bad.append((ev, f'{p!r} is fed to the hash instead of the content or its length'))
        else:
            self.odd.append(f'{p!r} is fed to the hash')
        return s


def counted(c, p, name_lv, feed):
    """Is this loop variable the number of bytes read?"""
    it, name = name_lv.a[0], name_lv.a[1]
    status = None
    for ev in events(p.trace):
        if ev.kind == 'loop' and ev.fn is it:
            start = name_lv.a[2] if len(name_lv.a) > 2 else None
            for ip in ev.x:
                vals = [fr[name] for fr in ip.state.frames.values() if name in fr] if not name.startswith('.') else [
                    h.data[name[1:]] for h in ip.state.heap.values() if h.kind == 'inst' and name[1:] in h.data]
                nread = [e.res for e in ip.trace if reads(e)]
                vals = [v for v in vals if isinstance(v, T) and (contains(v, name_lv) or v is name_lv)]
                for v in vals:
                    if len(nread) == 1 and v.op == 'bin' and v.a[0] == '+' and set(v.a[1:]) == {
                            name_lv, mk('call', 'builtins.len', (nread[0],), ())}:
                        status = status or 'ok'
                    elif not any(x.op == 'call' and x.a[0] == 'builtins.len' for x in walk(v)):
                        status = 'bad'
                    elif status != 'bad':
                        status = 'odd'
    return status


def analyse(c, qual, args, size, file):
    paths = c.run(qual, args, excs={'OSError'}, no_stop=(SECUREHASH + '.*',))
    n = 0
    for p in paths:
        if p.kind != 'return':
            continue
        n += 1
        v = p.value
        where = qual.rsplit('.', 1)[1] + ' content hash'
        if v.op == 'call' and v.a[0] == 'builtins.str' and v.a[1]:
            v = v.a[1][0]
        if not (v.op == 'mcall' and v.a[1] == 'hexdigest' and is_hash(v.a[0])):
            if any(is_hash(x) for x in walk(v)) or not any(x.op in ('mcall', 'ocall', 'lv', 'phi') for x in walk(v)) or any(
                    x.op == 'call' and x.a[0].startswith('hashlib.') for x in walk(v)):
                c.violation(where, f'the result is {v!r} and not the hexadecimal SHA-512 digest', p.trace)
            else:
                c.inconclusive(f'unrecognised result {v!r}')
            continue
        f = Feed(size, file, p.lits())
        end = flow(p.trace, [(('',), None, False)], f.step)
        ok = True
        for ev, msg in f.bad:
            c.violation(where, msg, p.trace)
            ok = False
        if f.odd:
            c.inconclusive(f.odd[0])
            continue
        for stage, pending, eof in end:
            if not ok:
                break
            if stage != ('suffix', ';#'):
                got = '' if stage == 'body' else stage[-1]
                c.violation(where, 'hash is not framed as N: content ;N - ' + (
                    f'suffix is {got!r}' if stage == 'body' or stage[0] == 'suffix' else f'prefix is {got!r}'), p.trace)
                ok = False
            elif pending is not None:
                c.violation(where, f'content read ({pending!r}) is never fed to the hash', p.trace)
                ok = False
            elif not eof:
                c.violation(where, 'not everything up to the end of the content is read and hashed', p.trace)
                ok = False
        if ok:
            c.ok(1, f'{where}: N: blocks ;N on a path of {len(p.trace)} events')
        if file:
            sized(c, where, p, size, f)
    c.anchor(n, f'{qual} never returns a hash')


def sized(c, where, p, size, f):
    lits = p.lits()
    odd = None
    rel = set()
    for l, v in lits.items():
        if not contains(l, size) or l.op != 'cmp':
            continue
        if l.a[0] == '==' and v is True and size in l.a[1:3] or l.a[0] == '<' and v is False and size in l.a[1:3]:
            o = l.a[1] if l.a[2] is size else l.a[2]
            if o.op == 'lv':
                st = counted(c, p, o, f)
            elif o.op == 'call' and o.a[0] == 'builtins.len' and o.a[1][0].op == 'mcall' and o.a[1][0].a[1] == 'read' and not o.a[1][0].a[2]:
                st = 'ok'
            else:
                st = 'odd'
            if st == 'ok':
                if l.a[0] == '==':
                    rel |= {'le', 'ge'}
                else:
                    rel.add('ge' if l.a[1] is size else 'le')
            elif st != 'bad':
                odd = l
        else:
            odd = odd or (l if any(x.op in ('mcall', 'call', 'lv') for x in l.a[1:3]) and l.a[0] == '==' else None)
    if rel == {'le', 'ge'}:
        c.ok(1, f'{where}: stated size equals the number of bytes read')
    elif odd is not None:
        c.inconclusive(f'unrecognised condition on the size: {odd!r}')
    else:
        c.violation(where, 'a hash is returned without comparing the number of bytes read with the stated size', p.trace)


def check(c):
    c.func(SECUREHASH + '.file')
    c.func(SECUREHASH + '.bytes')
    c.rule('file', 'hash of a readable file', analyse, args=(c, SECUREHASH + '.file', [F, N], N, True))
    c.rule('bytes', 'hash of bytes', analyse, args=(c, SECUREHASH + '.bytes', [B], LEN_B, False))
    c.assumptions = ['read(n) returns the next bytes of the file and an empty result only at its end',
                     'hashlib.sha512 is SHA-512']
