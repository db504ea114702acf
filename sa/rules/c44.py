"""Provenance analysis of saving: on every path that returns, the hash recorded for a
stored member is computed from the stored member itself (read back from the archive),
or from the very value that was stored.  Hash and content never come from two
separate readings of a file, between which it could change; so no schedule of other
writers needs to be considered."""
from .. import save
from ..save import *
from .c05 import hash_source, opaque, MANIFEST

READS = ('builtins.open', 'io.open', 'os.open', 'shutil.copyfile', 'shutil.copyfileobj')


def readings(trace, f):
    """how often a file is read on a path (at least)"""
    n = 0
    for ev in events(trace):
        if ev.kind == 'mcall' and ev.fn == 'write' and ev.args and is_zip(ev.args[0]) and f in (ev.args[1:] + tuple(dict(ev.kw or ()).values())):
            n += 1
        elif ev.kind in ('call', 'query') and ev.fn in READS and ev.args and ev.args[0] is f:
            n += 1
        elif ev.kind in ('mcall', 'query') and ev.fn in ('open', 'read_bytes') and ev.args and ev.args[0] is f:
            n += 1
    return n


def data_of(ev):
    """value stored by writestr / write of an open member"""
    if ev.fn == 'writestr':
        return (ev.args[2] if len(ev.args) > 2 else None) or ev.kwarg('data')
    if ev.fn == 'write' and not is_zip(ev.args[0]):
        return ev.args[1] if len(ev.args) > 1 else None


def one_reading(c, tree):
    w, paths = save.run(c, tree)
    n = 0
    for p in paths:
        if p.kind != 'return':
            continue
        n += 1
        st = stores(p.trace)
        man = [s for s in st if s[0] is MANIFEST]
        d = json_dict(man[-1][1][1]) if man else None
        known = items(d) if d is not None else None
        if known is None:
            c.inconclusive('content of the manifest')
            continue
        for name, src, ev in st:
            if name is MANIFEST:
                continue
            h = known.get(name)
            hs = hash_source(h) if h is not None else None
            if hs is None or opaque(h):
                c.inconclusive(f'hash of member {name!r}: {h!r}'[:200])
                continue
            kw = dict(h.a[2])
            given = h.a[1][0] if h.a[1] else kw.get('bytes') or kw.get('file')
            if hs[0] == 'member':
                c.require(hs[1] is name, f'hash of member {name!r}', f'is that of {hs[1]!r}', p.trace, what=f'{name!r}: the stored member is hashed')
            elif given is data_of(ev):
                f = src[1] if src[0] == 'file' else None
                c.require(f is None or readings(p.trace, f) < 2, f'hash of member {name!r}', f'the file {f!r} is read twice', p.trace,
                          what=f'{name!r}: the stored value is hashed')
            elif hs[0] == 'file':
                c.violation(f'hash of member {name!r}', f'is made by reading {hs[1]!r} again; when it changes meanwhile the archive is not valid', p.trace)
            elif hs == src:
                c.ok()                  # equal values computed from the same parts
            else:
                c.inconclusive(f'hash of member {name!r}: {h!r}'[:200])
    c.require(n, 'saving a valid workspace', 'always fails', paths[0].trace)


def check(c):
    c.assumptions += ['the archive being written is changed by nobody else', 'content hash functions hash what they are given (C03)',
                      'the manifest lists what was stored (C05)']
    c.rule('small', 'hash and content of a member come from one reading of the file', one_reading, args=(c, SMALL))
    c.rule('tree', 'hash and content of a member come from one reading of the file', one_reading, args=(c, TREE))
    c.rule('links', 'hash and content of a member come from one reading of the file', one_reading, args=(c, LINKS))
