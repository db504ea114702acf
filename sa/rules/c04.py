"""Abstract interpretation of saving over an abstract directory tree with known
and unknown names (case analysis over name and entry kind, at the root, in the
output folder and below): on every path that returns, every file that has to be
saved reaches a write into the archive, with its own content, under the member
path computed for it; a file at the root with an unknown name may be left out
only under conditions that force its name to be one of the four reserved ones.
Nothing from reserved folders reaches a write."""
from .. import save
from ..save import *


def saved(c, w, paths):
    want = list(files(w))
    for p in paths:
        if p.kind != 'return':
            continue
        st = stores(p.trace)
        lits = p.lits()
        done = {}
        for n, src, ev in st:
            done.setdefault(n, []).append((src, ev))
        for src, member, top in want:
            got = done.get(member)
            what = show(rel_show(w, src))
            if got is None:
                elsewhere = [n for n, s, ev in st if s == ('file', src)]
                if elsewhere:
                    c.violation(f'file {what} of the workspace', f'is stored as {elsewhere[0]!r} and not as {member!r}', p.trace)
                elif not is_const(top) and implied_special(lits, top):
                    c.ok()
                elif not is_const(top) and not understood(lits, top):
                    c.inconclusive(f'unrecognised condition for leaving out {what}')
                else:
                    c.violation(f'file {what} of the workspace', 'is not stored in the archive', p.trace)
                continue
            s = got[-1][0]
            if s == ('file', src):
                c.ok(1, f'{what} -> {member!r}')
            elif s[0] == 'file' or not any(x.op in ('mcall', 'call') for x in walk(s[1])):
                c.violation(f'member {member!r}', f'holds {s[1]!r} instead of the content of {what}', p.trace)
            elif contains(s[1], src):
                c.violation(f'member {member!r}', f'holds {s[1]!r}, not the plain content of {what}', p.trace)
            else:
                c.inconclusive(f'content of member {member!r}: {s[1]!r}')
        members = {m for _, m, _ in want}
        for n, src, ev in st:
            if src[0] == 'file' and n not in members:
                c.violation(f'member {n!r}', f'stores {src[1]!r}, which does not belong into the archive there', p.trace)


def rel_show(w, src):
    from ..flow import rel
    return path(rel(src, w.root) or (src,))


def succeeds(c, paths):
    c.require(any(p.kind == 'return' for p in paths), 'saving a valid workspace',
              f'always fails: {sorted({str(p.value) for p in paths})[:3]}', paths[0].trace)


def whole(c, tree):
    w, paths = save.run(c, tree)
    succeeds(c, paths)
    c.cov['files in the tree'] = len(list(files(w)))
    saved(c, w, paths)


def links(c):
    w, paths = save.run(c, LINKS)
    succeeds(c, paths)
    saved(c, w, paths)


def entry(c):
    """saving into a box packs the very workspace"""
    box, ws = sym('box'), sym('workspace')
    paths = c.run(c.func(BOX + '.store'), [ws, FREEZE_TIME], selfT=box, types={box: BOX, ws: WORKSPACE}, excs=set(),
                  stops={WORKSPACE + '.pack': 'stop'})
    for p in paths:
        if p.kind == 'return':
            n = [e for e in events(p.trace) if e.kind == 'call' and e.fn == WORKSPACE + '.pack']
            c.require(any(e.args and e.args[0] is ws for e in n), 'saving into a box', 'the workspace is not packed', p.trace)


def check(c):
    c.rule('small', 'every file of a small tree is stored, at its place', whole, args=(c, SMALL))
    c.rule('tree', 'every file of a large tree is stored, at its place', whole, args=(c, TREE))
    c.rule('links', 'files behind symbolic links are stored like other files', links)
    c.rule('store', 'saving into a box packs the workspace', entry)
    c.assumptions = ['os.listdir, scandir, walk, iterdir, glob and the file type queries behave as documented',
                     'ZipFile.write / writestr / open(.., "w") store the named content',
                     'files are not changed during the save (see C44)']
