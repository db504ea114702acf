"""Typestate analysis of files written while unpacking, over all paths: member
names and destination are known, contents and the state of the file system are
symbolic.  On every path that completes exactly the members of the folder are
written, each with its own complete content (blocks read are written unchanged,
up to the end), at the path given by its name, in directories established
before.  For edit and load the destinations are those of the workspace."""
import posixpath

from .. import constpath
from ..cli import run_command, ARGS, WS
from ..engine import Inconclusive
from ..flow import flow, effects, events, within, rel
from ..save import opened
from ..std import *
from ..terms import *
from ..terms import T
from ..zipworld import ZipWorld, on_archive, FILE, stream, content

DEST = '/w/ws/dest'
BASE = [ZipWorld.META, ZipWorld.MANIFEST]
NAMES = ['code/a', 'code/.h', 'code/x/y/z.txt', 'code/x/a', 'code/meta/bead', 'code/code/n', 'code/data/n', 'code/input/i',
         'code/a b/c d', 'code/x.zip', 'code/..x', 'code/y..z/w', 'code/__pycache__/q.pyc', 'code/é', 'code/README.md', 'code/Sub Dir/X', 'code/ z', 'code/~',
         'code/notes ', 'code/ws /k', 'code/tail.', 'code/back\\slash', 'code/C:x', 'code/tab\tx', 'code/line\nx', 'code/#b#', 'code/b~', 'code/b.bak',
         'code/.git/config', 'code/.DS_Store', 'code/Thumbs.db', 'code/CON', 'code/Data/k', 'code/*?', 'code/%41', 'code/-n',
         'data/A.CSV', 'data/Z/ y', 'data/d ', 'data/.DS_Store', 'data/w.tmp', 'data/x.pyc', 'data/__pycache__/k', 'data/__MACOSX/k', 'data/CODE/k',
         'data/d', 'data/x/y', 'data/.h/k', 'data/code/q', 'data/output/o', 'data/a',
         'codex/n', 'dataset', 'data2/x', 'code2', 'meta/extra', 'other/code/f', 'other/data/f']


def known(t):
    if isinstance(t, T) and is_const(t) and isinstance(cval(t), str):
        return posixpath.normpath(cval(t))


def member(t):
    if t.op == 'sym' and t.a[0].startswith(('stream:', 'bytes:')):
        return t.a[0].split(':', 1)[1]


def handle(t):
    """file handle term -> path written through it"""
    o = opened(t)
    if o and is_const(o[1]) and isinstance(cval(o[1]), str) and set(cval(o[1])) & set('wax'):
        return known(o[0])


def data(t):
    """-> (member, whole) when t is content read from the archive, unchanged"""
    n = member(t)
    if n is not None and t.a[0].startswith('bytes:'):
        return n, True
    if t.op == 'mcall' and t.a[1] in ('read', 'read1') and member(t.a[0]):
        whole = not t.a[2] or is_const(t.a[2][0]) and cval(t.a[2][0]) in (None, -1)
        return member(t.a[0]), whole
    if t.op == 'call' and t.a[0] == 'builtins.bytes' and len(t.a[1]) == 1:
        return data(t.a[1][0])


def parents(p):
    while p not in ('/', ''):
        p = posixpath.dirname(p)
        yield p


class Sink:
    """state: (directories known to exist, {path: (member, none|part|full|odd)}, block read but not written, members read up to the end)"""

    def __init__(self, names, dirs=()):
        self.names = names
        self.bad = []
        self.start = (frozenset(dirs), frozenset(), None, frozenset())

    def need_dir(self, p, dirs, ev):
        if posixpath.dirname(p) not in dirs:
            self.bad.append((ev, f'{p!r} is written without having made sure, that its directory exists'))

    def step(self, s, ev):
        dirs, files, pending, eof = s
        f = dict(files)
        if ev.kind == 'assume' and isinstance(ev.fn, T):
            t = ev.fn
            if t.op == 'mcall' and t.a[1] in ('exists', 'is_dir') and known(t.a[0]):
                if ev.x is True:
                    p = known(t.a[0])
                    return [(dirs | {p, *parents(p)}, files, pending, eof)]
                if known(t.a[0]) in dirs:
                    return []
            if pending is not None and (t is pending and ev.x is False or t.op == 'cmp' and t.a[0] == '==' and ev.x is True and
                                        pending in t.a[1:3] and any(is_const(x) and cval(x) == b'' for x in t.a[1:3])):
                return [(dirs, files, None, eof | {data(pending)[0]})]
            return None
        if ev.kind == 'mcall' and ev.fn in ('read', 'read1') and ev.args and ev.res is not None and data(ev.res) and not data(ev.res)[1]:
            if pending is not None:
                self.bad.append((ev, f'content read from {data(pending)[0]!r} is not written'))
            return [(dirs, files, ev.res, eof)]
        if ev.kind == 'mcall' and ev.fn in ('extract', 'extractall') and ev.args:
            a = list(ev.args[1:])
            kw = dict(ev.kw or ())
            if ev.fn == 'extract':
                m = a[0] if a else kw.get('member')
                n = known(m) or (m.a[0][5:] if m.op == 'sym' and m.a[0].startswith('info:') else None)
                ms = [n]
                to = a[1] if len(a) > 1 else kw.get('path')
            else:
                to = a[0] if a else kw.get('path')
                x = a[1] if len(a) > 1 else kw.get('members')
                ms = self.names if x is None else [known(y.a[0] if y.op == 'item' else y) for y in x.a]
            to = known(to) if to is not None else None
            if None in ms or to is None:
                raise Inconclusive('extracted by zipfile to unknown place')
            for n in ms:
                p = posixpath.normpath(posixpath.join(to, n))
                f[p] = (n, 'full')
                dirs = dirs | set(parents(p))
            return [(dirs, frozenset(f.items()), pending, eof)]
        if ev.kind == 'call' and ev.fn == 'shutil.copyfileobj' and len(ev.args) > 1:
            p, n = handle(ev.args[1]), member(ev.args[0])
            if p is not None:
                f[p] = self.more(f.get(p), n, n is not None, n is not None)
                return [(dirs, frozenset(f.items()), pending, eof)]
        if ev.kind == 'mcall' and ev.fn == 'write' and len(ev.args) > 1:
            p = handle(ev.args[0])
            if p is not None:
                d = data(ev.args[1])
                if d and pending is ev.args[1]:
                    pending = None
                f[p] = self.more(f.get(p), d and d[0], d and d[1], d)
                return [(dirs, frozenset(f.items()), pending, eof)]
        done = False
        for e in effects(ev):
            p = known(e.path) if e.path is not None else None
            if e.kind == 'mkdir':
                if p is None:
                    if e.extra != 'temp':
                        raise Inconclusive(f'directory created: {e.path!r}')
                    continue
                kw = dict(ev.kw or ())
                if ev.fn == 'os.makedirs' or is_true(kw.get('parents')):
                    dirs = dirs | {p, *parents(p)}
                else:
                    if p not in dirs:
                        self.need_dir(p, dirs, ev)
                    dirs = dirs | {p}
                done = True
            elif e.kind == 'write':
                if p is None:
                    raise Inconclusive(f'file written: {e.path!r}')
                if ev.fn in ('write_bytes', 'write_text'):
                    self.need_dir(p, dirs, ev)
                    d = data(ev.args[1]) if len(ev.args) > 1 and ev.fn == 'write_bytes' else None
                    f[p] = self.more(None, d and d[0], d and d[1], d)
                elif e.extra == 'replace':
                    src = known(ev.args[0]) if ev.kind == 'call' and ev.args else None
                    f[p] = f.pop(src, (None, 'odd'))
                elif e.extra == 'copy':
                    f[p] = f.get(known(ev.args[0]), (None, 'odd'))
                else:
                    self.need_dir(p, dirs, ev)
                    f[p] = (None, 'odd' if 'a' in str(e.extra) else 'none')
                done = True
            elif e.kind in ('delete', 'rmtree') and p is not None:
                f = {k: v for k, v in f.items() if not (k == p or k.startswith(p + '/'))}
                done = True
        if done:
            return [(dirs, frozenset(f.items()), pending, eof)]

    def more(self, old, n, whole, ok):
        if not ok or n is None:
            return (None, 'odd')
        if old is None or old[1] == 'none':
            return (n, 'full' if whole else 'part')
        if old == (n, 'part') and not whole:
            return old
        return (None, 'odd')


def is_true(t):
    return t is not None and is_const(t) and bool(cval(t))


def relevant(lits, n):
    """a condition on this member, that is not understood"""
    for t in lits:
        for x in walk(t):
            if x.op in ('call', 'mcall', 'ocall') and any(
                    is_const(y) and isinstance(cval(y), str) and n in (cval(y), cval(y).strip('/')) for y in walk(x)) and not (
                    x.op == 'mcall' and x.a[1] in ('exists', 'is_dir', 'is_file', 'is_symlink', 'stat', 'getsize')):
                return x
    return None


def judge(c, what, paths, expected, allowed=(), names=NAMES, dirs=(), wanted_dirs=()):
    """expected: path -> member; allowed: roots where other files may be written"""
    n = 0
    for p in paths:
        if p.kind != 'return':
            continue
        n += 1
        k = Sink(names, dirs)
        end = flow(p.trace, [k.start], k.step)
        ok = True
        for ev, msg in k.bad:
            c.violation(f'{what} at {ev.site}', msg, p.trace)
            ok = False
        lits = p.lits()
        for ds, files, pending, eof in end:
            f = dict(files)
            if pending is not None:
                c.violation(what, f'content read from {data(pending)[0]!r} is not written', p.trace)
                ok = False
            for path_, m in expected.items():
                got = f.pop(path_, None)
                if got == (m, 'full') or got in ((m, 'part'), (None, 'none')) and m in eof:
                    continue
                ok = False
                if got is None:
                    odd = relevant(lits, m) or relevant(lits, m.split('/', 1)[1])
                    if odd is not None:
                        c.inconclusive(f'{what}: unrecognised condition on {m!r}: {odd!r}')
                    else:
                        others = sorted(x for x in f if f[x][0] == m)
                        c.violation(what, f'{m!r} is not written to {path_!r}' + (f' but to {others[0]!r}' if others else ''), p.trace)
                elif got[1] == 'part':
                    c.violation(what, f'content of {m!r} is not written up to its end', p.trace)
                elif got[1] in ('odd', 'none') or got[0] != m:
                    c.violation(what, f'{path_!r} does not get exactly the content of {m!r}', p.trace)
                if not ok:
                    break
            extra = [x for x in f if not any(x == a or x.startswith(a + '/') for a in allowed)]
            if extra and ok:
                c.violation(what, f'{sorted(extra)[0]!r} is written, but no member has to be unpacked there', p.trace)
                ok = False
            for d in wanted_dirs:
                if d not in ds and ok:
                    c.violation(what, f'directory {d!r} is not created', p.trace)
                    ok = False
            if not ok:
                break
        if not ok:
            return
        c.ok(len(expected), f'{what}: {len(expected)} members on a path of {len(p.trace)} events')
    if not n:
        c.violation(what, f'never completes - fails with {paths[0].value!r}', paths[0].trace)


def members_of(folder, dest, names=NAMES):
    return {posixpath.join(dest, n[len(folder) + 1:]): n for n in names if n.startswith(folder + '/')}


def small(folder):
    """The names, in groups small enough to enumerate all file system states"""
    mine = [n for n in NAMES if n.startswith(folder + '/')]
    rest = [n for n in NAMES if not n.startswith(folder + '/')]
    out = [[], mine[:1]]
    for i in range(0, len(mine), 2):
        out.append(mine[i:i + 2])
    return [rest[:4] + g + BASE + rest[4:] for g in out]


def place(c):
    for folder, method, args in (('code', 'extract_dir', [const('code'), const(DEST)]), ('code', 'unpack_code_to', [const(DEST)]),
                                 ('data', 'unpack_data_to', [const(DEST)])):
        for names in small(folder):
            w = ZipWorld(names, {}, {})
            paths = c.run(on_archive(c, method, args), excs=set(), **constpath.options(**w.options()))
            judge(c, f'ZipArchive.{method}', paths, members_of(folder, DEST, names), names=names, wanted_dirs=[DEST])


WSDIR = '/w/ws'


def in_workspace(c, method, archive_first):
    acls, wcls = c.a.lookup_qual(ARCHIVE), c.a.lookup_qual(WORKSPACE)
    c.anchor(acls is not None and wcls is not None, 'ZipArchive and Workspace')

    def script(e, st):
        outs = []
        for a, s in e.call(acls, [FILE], [], st, None):
            for w, s2 in e.call(wcls, [const(WSDIR)], [], s, None):
                if archive_first:
                    for f, s3 in e.get_attr(a, method, s2):
                        outs.extend(e.call(f, [w], [], s3, None))
                else:
                    for f, s3 in e.get_attr(w, method, s2):
                        outs.extend(e.call(f, [const('nick'), a], [], s3, None))
        return outs
    return script


STOPS = {**HASH, PERSIST + '.file_dump': 'stop', PERSIST + '.file_load': 'pure', FS + '.make_readonly': 'stop',
         FS + '.make_writable': 'stop', FS + '.all_subpaths': 'pure', ARCHIVE + '.content_id': 'pure', FS + '.rmtree': 'stop'}


def workspace(c):
    few = ['codex/n', 'code/a', 'code/x/y', 'data/d', 'data/x/y', 'data2'] + BASE
    w = ZipWorld(few, {k: sym('meta:' + k) for k in ('kind', 'freeze_time', 'inputs', 'meta_version', 'freeze_name')}, {})
    own = [f'{WSDIR}/.bead-meta']
    opts = constpath.options(**w.options())
    for method, first, folder, dest, allowed, dirs in (
            ('unpack_to', True, 'code', WSDIR, own, ['input', 'output', 'temp', '.bead-meta']),
            ('load', False, 'data', f'{WSDIR}/input/nick', own, ['input/nick'])):
        paths = c.run(in_workspace(c, method, first), excs=set(), stops=STOPS, **opts)
        judge(c, 'editing' if first else 'loading', paths, members_of(folder, dest, few), allowed=allowed, names=few,
              dirs=() if first else [WSDIR, f'{WSDIR}/input'], wanted_dirs=[f'{WSDIR}/{d}' for d in dirs])


def edit(c):
    """which folder goes where, decided by --review"""
    paths = run_command(c, 'edit', stops={**EXTRACT, **SEARCH, **FSOPS, **HASH, ARCHIVE + '.validate': 'stop'},
                        excs={'LookupError'})
    review = attr(ARGS, 'review')
    n = 0
    for p in paths:
        if p.kind != 'return':
            continue
        n += 1
        got = {}
        for ev in events(p.trace):
            if ev.kind == 'call' and ev.fn == '@extract':
                if ev.x.endswith('extract_dir') and len(ev.args) > 2:
                    got.setdefault(ev.args[1], []).append(ev.args[2])
                else:
                    raise Inconclusive('files are extracted one by one')
        r = p.lits().get(review)
        if r is None and any(contains(t, review) for t in p.lits()):
            raise Inconclusive('unrecognised condition on --review')
        code, out = got.pop(const('code'), []), got.pop(const('data'), [])
        ok = c.require(len(code) == 1 and is_ws(code[0]), 'edit', f'code is unpacked to {code!r}', p.trace)
        if r is True:
            ok &= c.require(len(out) == 1 and out[0].op == 'path' and is_ws(path(out[0].a[:-1])) and out[0].a[-1] is const('output'),
                            'edit', f'with --review data is unpacked to {out!r}', p.trace)
        elif r is False:
            ok &= c.require(not out, 'edit', f'without --review data is unpacked to {out!r}', p.trace)
        elif out or not out:
            ok &= c.require(False, 'edit', 'does not depend on --review', p.trace)
        ok &= c.require(not got, 'edit', f'{got!r} is unpacked', p.trace)
    c.anchor(n, 'edit never completes')


def is_ws(t):
    """the directory of a workspace object"""
    return t is attr(WS, 'directory') or t.op == 'mcall' and t.a[1] in ('resolve', 'absolute') or t.op == 'call' and t.a[0] in (
        'os.path.realpath', 'os.path.abspath')


def check(c):
    c.rule('place', 'every member of the folder, and nothing else, is written at its place with its own complete content', place)
    c.rule('workspace', 'editing restores code in the root, loading restores data in the folder of the input', workspace)
    c.rule('edit', 'edit unpacks code to the workspace and data to output only for --review', edit)
    c.assumptions = ['copyfileobj copies everything up to the end', 'posix path syntax', 'opening for writing truncates']
