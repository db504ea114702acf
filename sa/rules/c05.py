"""Abstract interpretation of saving over an abstract directory tree: on every
path that returns, the last member written is the manifest and it is a JSON
dictionary having exactly one entry for every member written before it; the
provenance term of the recorded hash has to be the content hash of the stored
member itself, or of the same source (file or bytes) that was stored under that
very member path.  The
content id of an archive has to be the content hash of its manifest member on
every path, asked for once or again."""
from .. import save
from ..save import *
from ..zipworld import ZipWorld, on_archive, stream, content, together

MANIFEST = const('meta/manifest')


def hash_source(t):
    """content hash term -> source"""
    if t.op != 'call' or not t.a[0].startswith(SECUREHASH + '.'):
        return None
    kw = dict(t.a[2])
    if t.a[0] == SECUREHASH + '.file':
        f = t.a[1][0] if t.a[1] else kw.get('file')
        return f and source_of(f)
    b = t.a[1][0] if t.a[1] else kw.get('bytes')
    return b and source_of(b)


def hash_size(t):
    kw = dict(t.a[2])
    if t.a[0] == SECUREHASH + '.file':
        return t.a[1][1] if len(t.a[1]) > 1 else kw.get('file_size')


def opaque(t):
    return any(x.op in ('ocall', 'phi', 'lv', 'elem') for x in walk(t))


def manifest(c, tree):
    w, paths = save.run(c, tree)
    n = 0
    for p in paths:
        if p.kind != 'return':
            continue
        n += 1
        st = stores(p.trace)
        where = [i for i, s in enumerate(st) if s[0] is MANIFEST]
        if not where:
            if any(not is_const(s[0]) and s[0].op not in ('path', 'cat') for s in st):
                c.inconclusive('archive members with unrecognised names')
            else:
                c.violation('archive made by saving', 'has no manifest', p.trace)
            continue
        i = where[-1]
        for name, src, ev in st[i + 1:]:
            c.violation(f'member {name!r}', 'is written after the manifest', p.trace)
        d = json_dict(st[i][1][1])
        known = items(d) if d is not None else None
        if known is None:
            c.inconclusive(f'content of the manifest {st[i][1][1]!r}'[:200])
            continue
        stored = {}
        for name, src, ev in st[:i]:
            stored[name] = src
        for name, src in stored.items():
            h = known.get(name)
            if h is None:
                near = [k for k, v in known.items() if v.op == 'call' and hash_source(v) == src]
                c.violation(f'member {name!r}', 'is not listed in the manifest' + (f' (listed as {near[0]!r})' if near else ''),
                            p.trace)
                continue
            hs = hash_source(h)
            if hs == src or hs == ('member', name):
                size = hash_size(h)
                if src[0] == 'file' and size is not None and not contains(size, src[1]) and not contains(size, name) and not opaque(size):
                    c.violation(f'hash of member {name!r}', f'is calculated with size {size!r}', p.trace)
                else:
                    c.ok(1, f'{name!r} : hash of {hs[0]} {hs[1]!r}'[:160])
            elif hs is None and opaque(h):
                c.inconclusive(f'hash of member {name!r}: {h!r}'[:200])
            elif hs is not None and hs[0] == 'bytes' and src[0] == 'file' and contains(hs[1], src[1]) and not any(
                    x.op in ('slice', 'idx') or x.op == 'mcall' and x.a[1] not in ('read', 'read_bytes', 'open') for x in walk(hs[1])):
                c.inconclusive(f'hash of member {name!r}: {h!r}'[:200])
            else:
                c.violation(f'hash of member {name!r}', f'is {h!r}, but {src[1]!r} is stored'[:400], p.trace)
        for name in known:
            if name not in stored and name is not MANIFEST:
                c.violation(f'manifest entry {name!r}', 'is not a member of the archive', p.trace)
    c.require(n, 'saving a valid workspace', 'always fails', paths[0].trace)


WHOLE = ('absolute', 'resolve', 'as_posix', '__fspath__', '__str__', 'expanduser')


def names_file(key, file):
    """the key of a cache tells files apart"""
    if key.op in ('tuple', 'frozenset'):
        return any(names_file(x, file) for x in key.a)
    while key is not file:
        if key.op == 'mcall' and key.a[1] in WHOLE:
            key = key.a[0]
        elif key.op == 'call' and key.a[0] in ('builtins.str', 'os.fspath', 'os.path.abspath', 'os.path.realpath', 'pathlib.Path', 'builtins.repr') and key.a[1]:
            key = key.a[1][0]
        else:
            return False
    return True


ABOUT = ('os.path.basename', 'os.path.dirname', 'os.path.split', 'os.path.splitext', 'os.stat', 'os.lstat', 'os.path.getsize', 'os.path.getmtime', 'os.path.getctime',
         'builtins.str', 'builtins.int', 'builtins.float', 'builtins.repr', 'builtins.round', 'builtins.len', 'pathlib.Path', 'os.fspath')


def only_about(key, file):
    """the key has things other files have, too (name, size, time), and nothing else"""
    for x in walk(key):
        if x.op == 'call' and x.a[0] not in ABOUT or x.op == 'mcall' and x.a[1] not in ('stat', 'lstat', 'exists') + STRINGS:
            return False
        if x.op == 'attr' and x.a[1] in ('st_ino', 'st_dev'):
            return False
        if x.op == 'sym' and x is not file:
            return False
    return True


STRINGS = ('lower', 'upper', 'strip', 'casefold', 'rstrip', 'lstrip', 'removesuffix', 'removeprefix')

NAMES = ['code/a', 'data/b', 'meta/bead', 'meta/manifest', 'meta/x']


def content_id(c):
    meta = {k: sym('meta:' + k) for k in ('kind', 'freeze_time', 'freeze_name', 'inputs')}
    meta['meta_version'] = const('aaa947a6-1f7a-11e6-ba3a-0021cc73492e')
    man = {n: sym('H:' + n) for n in NAMES[:3]}
    w = ZipWorld(NAMES, meta, man)
    get = on_archive(c, 'content_id', get=True)

    def again(e, st):
        outs = []
        cls = c.a.lookup_qual(ARCHIVE)
        for o, s in e.call(cls, [w.file], [], st, None):
            for v, s2 in e.get_attr(o, 'content_id', s):
                for v2, s3 in e.get_attr(o, 'content_id', s2):
                    outs.append((v2, s3))
        return outs
    other = ZipWorld(NAMES, meta, man, sym('other_file'), 'other ')
    w.tag = 'this '

    def other_first(e, st):
        outs = []
        cls = c.a.lookup_qual(ARCHIVE)
        for o, s in e.call(cls, [other.file], [], st, None):
            for v, s2 in e.get_attr(o, 'content_id', s):
                outs += get(e, s2)
        return outs
    n = 0
    for script in (get, again, other_first):
        for p in c.run(script, stops=HASH, excs=set(), **together(w, other)):
            if p.kind != 'return':
                continue
            n += 1
            v = p.value
            if v.op == 'call' and v.a[0] == 'builtins.str' and v.a[1]:
                v = v.a[1][0]
            kw = dict(v.a[2]) if v.op == 'call' else {}
            arg = None
            if v.op == 'call' and v.a[0] in (SECUREHASH + '.file', SECUREHASH + '.bytes'):
                arg = v.a[1][0] if v.a[1] else kw.get('file') or kw.get('bytes')
            s = stream('this meta/manifest')
            if v.op == 'call' and v.a[0] == SECUREHASH + '.file' and arg is s or v.op == 'call' and v.a[0] == SECUREHASH + '.bytes' and (
                    arg is content('this meta/manifest') or arg is not None and arg.op == 'mcall' and arg.a[1] == 'read' and
                    arg.a[0] is s and not arg.a[2]):
                c.ok(1, f'content id is {v!r}')
            elif any(x is stream('other meta/manifest') for x in walk(v)) and not any(names_file(x.a[1], w.file) for x in walk(v) if x.op == 'idx'):
                c.violation('content id of an archive', f'may be that of another archive: {v!r}', p.trace)
            elif v.op == 'idx' and v.a[0].op == 'sym' and 'what is remembered in' in str(v.a[0].a[0]) and not names_file(v.a[1], w.file) and only_about(v.a[1], w.file):
                c.violation('content id of an archive', f'may be that of another archive: {v!r}', p.trace)
            elif opaque(v) or not any(x.op in ('sym', 'call', 'const') for x in (v,)):
                c.inconclusive(f'content id {v!r}')
            else:
                c.violation('content id of an archive', f'is {v!r} and not the content hash of its manifest' + (
                    ' (another archive has been asked for its content id before)' if script is other_first else ''), p.trace)
    c.require(n, 'content id of a readable archive', 'can not be determined')


def check(c):
    text = 'manifest has the hash of the stored content for exactly the stored members'
    c.rule('manifest-small', text, manifest, args=(c, SMALL))
    c.rule('manifest', text, manifest, args=(c, TREE))
    c.rule('content-id', 'content id is the content hash of the manifest', content_id)
    c.assumptions = ['content hash functions hash what they are given (C03)', 'hash and content come from one reading of a file (C44)']
