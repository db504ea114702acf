"""Saving a workspace in an abstract directory tree: which members get stored,
with which content."""
from .engine import Inconclusive
from .flow import events
from .std import *
from .terms import *
from .terms import T
from .world import FsWorld, FILE, Link

WSP = sym('workspace')
ROOT = attr(WSP, 'directory')
ZIPFILE, FREEZE_TIME, COMMENT = sym('zip_path'), sym('freeze_time'), sym('comment')
O1, D1, O2, C1, D2, C2 = [sym('some_' + x) for x in ('output_file', 'output_dir', 'output_file2', 'file', 'dir', 'file2')]
SPECIAL = ('input', 'output', 'temp', '.bead-meta')
NICKS = ('in_a', 'In.B', 'z-9', 'twin')

TREE = {
    'input': {'in_a': {'data': FILE}, 'loose': FILE},
    'output': {O1: FILE, 'input': {'f': FILE}, 'temp': {'f': FILE}, '.hidden': FILE, '.d': {'f': FILE}, 'output': FILE,
               D1: {O2: FILE, 'deep': {'deeper': {'f': FILE}}}, '.bead-meta': {'f': FILE}, 'Read Me.TXT': FILE,
               'a__b_20200101.zip': FILE, 'x~': FILE, 'code': {'f': FILE},
               'tail ': FILE, ' lead': FILE, '.DS_Store': FILE, 'x.bak': FILE, 'x.tmp': FILE, '__pycache__': {'k.pyc': FILE}, '.git': {'k': FILE}},
    'temp': {'t': FILE, 'sub': {'t': FILE}},
    '.bead-meta': {'bead': FILE, 'other': FILE},
    '.hidden': FILE, '.git': {'HEAD': FILE}, C1: FILE,
    D2: {C2: FILE, 'input': {'x': FILE}, 'output': {'y': FILE}, 'temp': FILE, '.bead-meta': {'z': FILE, 'bead': FILE},
         '.h': FILE},
    'README': FILE, 'data': {'dd': FILE}, 'code': {'cc': FILE, 'code': {'f': FILE}}, 'meta': {'mm': FILE, 'bead': FILE},
    'x.zip': FILE, '__pycache__': {'p.pyc': FILE}, 'inputs': FILE, 'output.txt': FILE, 'temporary': {'f': FILE},
    'Input': FILE, 'bead': FILE, 'manifest': FILE, 'file~': FILE, 'x.tmp': FILE, 'a b.TXT': FILE, 'x.py': FILE,
    'tail ': FILE, ' lead': FILE, '.DS_Store': FILE, 'Thumbs.db': FILE, 'x.bak': FILE, 'node_modules': {'k': FILE}, 'back\\slash': FILE,
    'Temp ': FILE, 'x.log': FILE, 'venv': {'k': FILE}, '.venv': {'k': FILE}, 'core': FILE, '#b#': FILE, '.x.swp': FILE, 'line\nx': FILE,
    'empty dir': {},
}
SMALL = {'input': {}, 'output': {O1: FILE}, 'temp': {}, '.bead-meta': {'bead': FILE}, C1: FILE, 'sub': {C2: FILE}}
LINKS = {
    'input': {}, 'output': {'lf': Link('file'), 'ld': Link('dir', {'f': FILE}), 'f': FILE}, 'temp': {},
    '.bead-meta': {'bead': FILE}, 'lf': Link('file'), 'ld': Link('dir', {'f': FILE, 's': {'f': FILE}}), 'f': FILE,
}


def files(w):
    """-> [(path term, member term, top name)] of everything to be saved"""
    for comps, node in w.paths(links=True):
        if not w.is_file(node):
            continue
        top = comps[0]
        if is_const(top) and cval(top) in SPECIAL:
            if cval(top) == 'output':
                yield w.term(comps), path((const('data'),) + comps[1:]), top
            continue
        yield w.term(comps), path((const('code'),) + comps), top


def field(n, f):
    """what is recorded of an input (two of them are the same bead)"""
    return sym(f'{f} of {"in_a" if n == "twin" else n}')


def metadata():
    d = {'kind': sym('meta:kind'), 'other': sym('meta:other'), 'inputs': {
        n: {k: field(n, k) for k in ('kind', 'content_id', 'freeze_time')} for n in NICKS}}
    return d


def container(e, x, st):
    if isinstance(x, dict):
        return e.new_container('dict', [('kv', const(k), container(e, v, st)) for k, v in x.items()], st)
    return x


def run(c, tree=TREE, meta=None, excs=(), exc_all=False, ki=False, fn=WORKSPACE + '.pack', args=None, stops=None, **kw):
    w = FsWorld(ROOT, tree)
    opts = w.options()
    meta = metadata() if meta is None else meta

    def loads(e, args, kw, st, node):
        if args and contains(args[0], ROOT):
            return [(container(e, meta, st), st)]
    opts['xhooks'].update({'json.load': loads, 'json.loads': loads})
    # which compression is used does not matter here
    opts['xhooks']['os.environ.get'] = lambda e, args, kw, st, node: [(const('deflated'), st)]
    opts['xhooks']['os.getenv'] = opts['xhooks']['os.environ.get']
    opts.update(kw)
    f = c.func(fn)
    paths = c.run(f, [ZIPFILE, FREEZE_TIME, COMMENT] if args is None else args, selfT=WSP, types={WSP: WORKSPACE},
                  stops=dict(HASH, **(stops or {})), excs=None if exc_all else set(excs), exc_all=exc_all, ki=ki, **opts)
    return w, paths


# ------------------------------------------------------------------ stores

def is_zip(t):
    return t.op == 'call' and t.a[0] == 'zipfile.ZipFile'


def member_name(t):
    if t.op == 'call' and t.a[0].endswith('ZipInfo.from_file') or t.op == 'mcall' and t.a[1] == 'from_file':
        pos, kw = (t.a[1], dict(t.a[2])) if t.op == 'call' else (t.a[2], dict(t.a[3]))
        return kw.get('arcname') or (pos[1] if len(pos) > 1 else pos[0])
    if t.op == 'call' and t.a[0] == 'zipfile.ZipInfo':
        return dict(t.a[2]).get('filename') or (t.a[1][0] if t.a[1] else None)
    return t


def opened(t):
    """-> (path, mode) for a term that is a freshly opened file"""
    if t.op == 'call' and t.a[0] in ('builtins.open', 'io.open', 'codecs.open'):
        kw = dict(t.a[2])
        m = kw.get('mode') or (t.a[1][1] if len(t.a[1]) > 1 else const('r'))
        return (t.a[1][0] if t.a[1] else kw.get('file')), m
    if t.op == 'mcall' and t.a[1] == 'open' and not is_zip(t.a[0]):
        kw = dict(t.a[3])
        return t.a[0], kw.get('mode') or (t.a[2][0] if t.a[2] else const('r'))


def binary(m):
    return is_const(m) and isinstance(cval(m), str) and 'b' in cval(m) and not set(cval(m)) & set('wax+')


def source_of(t):
    """Content term -> ('file', path) / ('bytes', term) / ('member', name)"""
    n = zip_member(t)
    if n is not None:
        return 'member', n
    o = opened(t)
    if o and binary(o[1]):
        return 'file', o[0]
    if t.op == 'mcall' and t.a[1] == 'read_bytes':
        return 'file', t.a[0]
    if t.op == 'mcall' and t.a[1] == 'read' and not t.a[2]:
        o = opened(t.a[0])
        if o and binary(o[1]):
            return 'file', o[0]
    if t.op == 'mcall' and t.a[1] == 'encode' and not t.a[3] and (
            not t.a[2] or is_const(t.a[2][0]) and str(cval(t.a[2][0])).lower() in ('utf-8', 'utf8')):
        return 'bytes', mk('mcall', t.a[0], 'encode', (const('utf-8'),), ())
    if t.op == 'mcall' and t.a[1] == 'encode' and not t.a[2]:
        return 'bytes', mk('mcall', t.a[0], 'encode', (const('utf-8'),), ())
    if t.op == 'call' and t.a[0] == 'builtins.bytes' and len(t.a[1]) == 2:
        return 'bytes', mk('mcall', t.a[1][0], 'encode', (t.a[1][1],), ())
    return 'bytes', t


def zip_writer(t):
    """zip.open(name, 'w') -> member"""
    for x in walk(t):
        if x.op == 'mcall' and x.a[1] == 'open' and is_zip(x.a[0]):
            kw = dict(x.a[3])
            m = kw.get('mode') or (x.a[2][1] if len(x.a[2]) > 1 else None)
            n = kw.get('name') or (x.a[2][0] if x.a[2] else None)
            if n is not None and m is not None and is_const(m) and cval(m) == 'w':
                return member_name(n)


def zip_member(t):
    """zip.open(name) / zip.read(name), of the archive being written -> member"""
    if t.op == 'mcall' and t.a[1] in ('open', 'read') and is_zip(t.a[0]):
        kw = dict(t.a[3])
        m = kw.get('mode') or (t.a[2][1] if t.a[1] == 'open' and len(t.a[2]) > 1 else const('r'))
        n = kw.get('name') or (t.a[2][0] if t.a[2] else None)
        if n is None or not is_const(m) or cval(m) != 'r':
            return None
        if n.op == 'mcall' and n.a[1] == 'getinfo' and n.a[2]:
            n = n.a[2][0]
        return member_name(n)
    if t.op == 'mcall' and t.a[1] == 'read' and not t.a[2] and t.a[0].op == 'mcall' and t.a[0].a[1] == 'open':
        return zip_member(t.a[0])


def is_reading(t):
    return any(opened(x) for x in walk(t))


def stores(trace):
    """Members written on a trace -> [(member, source, event)].  Raises
    Inconclusive for writes it does not understand."""
    out = []
    for ev in events(trace):
        if ev.kind == 'mcall' and ev.args and is_zip(ev.args[0]):
            if ev.fn == 'write':
                src = ev.arg(1, 'filename') if len(ev.args) > 1 else ev.kwarg('filename')
                name = (ev.args[2] if len(ev.args) > 2 else None) or ev.kwarg('arcname') or src
                out.append((member_name(name), ('file', src), ev))
            elif ev.fn == 'writestr':
                name = (ev.args[1] if len(ev.args) > 1 else None) or ev.kwarg('zinfo_or_arcname')
                data = (ev.args[2] if len(ev.args) > 2 else None) or ev.kwarg('data')
                if name is None or data is None:
                    raise Inconclusive('arguments of writestr')
                out.append((member_name(name), source_of(data), ev))
            elif ev.fn == 'mkdir':
                pass
            elif ev.fn in ('writepy', 'extractall', 'extract'):
                raise Inconclusive(f'archive is written by {ev.fn}')
        elif ev.kind == 'call' and ev.fn == 'shutil.copyfileobj' and len(ev.args) > 1:
            n = zip_writer(ev.args[1])
            if n is not None:
                out.append((n, source_of(ev.args[0]), ev))
        elif ev.kind == 'call' and ev.fn == 'json.dump' and len(ev.args) > 1:
            n = zip_writer(ev.args[1])
            if n is not None:
                t = mk('call', 'json.dumps', (ev.args[0],), tuple(ev.kw or ()))
                out.append((n, ('bytes', mk('mcall', t, 'encode', (const('utf-8'),), ())), ev))
        elif ev.kind == 'mcall' and ev.fn in ('write', 'writelines') and ev.args:
            n = zip_writer(ev.args[0])
            if n is not None:
                if ev.fn == 'write' and len(ev.args) > 1:
                    out.append((n, source_of(ev.args[1]), ev))
                else:
                    raise Inconclusive('archive member written in pieces')
    for ev in trace:
        if ev.kind == 'loop' and any(s[2] in list(events([ev])) for s in out):
            raise Inconclusive('members are written by a loop over unknown items')
    return out


def json_dict(t):
    """the dict of a JSON text / bytes term"""
    if t.op == 'mcall' and t.a[1] == 'encode':
        t = t.a[0]
    if t.op == 'call' and t.a[0] == 'json.dumps' and t.a[1] and t.a[1][0].op == 'dict':
        return t.a[1][0]


def items(d):
    """constant-keyed or term-keyed entries of a dict snapshot; None if not all known"""
    out = {}
    for x in d.a:
        if x.op != 'kv':
            return None
        out[x.a[0]] = x.a[1]
    return out


STR_OPS = {'startswith', 'endswith', 'lower', 'upper', 'casefold', 'strip', 'lstrip', 'rstrip', 'isalnum', 'isidentifier',
           'split', 'rsplit', 'partition', 'rpartition', 'replace', 'isdigit', 'isascii', 'match', 'find', 'count', 'index',
           'fnmatch', 'splitext', 'basename', 'suffix', 'stem', 'encode', 'isprintable', 'removeprefix', 'removesuffix',
           'fullmatch', 'search', 'exists', 'is_file', 'is_dir', 'is_symlink', 'isfile', 'isdir', 'stat', 'getsize', 'islink'}


def implied_special(lits, n):
    """do the conditions on name n force it to be one of the special names?"""
    for t, v in lits.items():
        if not v or t.op != 'cmp':
            continue
        if t.a[0] == '==' and n in t.a[1:3]:
            o = t.a[2] if t.a[1] is n else t.a[1]
            if is_const(o) and cval(o) in SPECIAL:
                return True
        if t.a[0] == 'in' and t.a[1] is n:
            s = t.a[2]
            xs = [x.a[0] if x.op == 'item' else x for x in s.a] if s.op in ('set', 'list', 'tuple') else None
            if xs and all(isinstance(x, T) and is_const(x) and cval(x) in SPECIAL for x in xs):
                return True
    return False


def understood(lits, n):
    """every condition on n is made of plain string / file type operations"""
    for t in lits:
        if not contains(t, n):
            continue
        for x in walk(t):
            if x.op == 'mcall' and x.a[1] not in STR_OPS or x.op == 'ocall' or x.op == 'call' and x.a[0].rsplit(
                    '.', 1)[-1] not in STR_OPS | {'len', 'str', 'ZipFile', 'open'} and not x.a[0].startswith('bead.'):
                return False
    return True
