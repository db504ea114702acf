"""Scenario interpretation of making workspaces.  The edit command is interpreted on
boxes with several beads, for references by name, by name and time and by file, with
and without the name of a workspace, with and without --review, for damaged beads, and
with the folder of the new workspace, another one or neither existing already; the new
command with and without something at the place.  On every path the unpackings that
happen have to be those of the bead asked for, to the folder asked for - named after
the bead if none was given - and none when the folder exists or the bead is missing or
damaged."""
from .. import cli
from ..bulletin import BOX, Boxes
from ..cli import ARGS, ENV, WS
from ..commandline import declarations, parse
from ..engine import Ev, Inconclusive, trace_list
from ..flow import events
from ..graphs import undecided
from ..ordering import Undecided
from ..std import *
from ..terms import *
from .c28 import die

CWD = {'pathlib.Path.cwd', 'os.getcwd', 'builtins.str', 'pathlib.Path', 'os.path.abspath', 'os.path.realpath', 'os.path.normpath', 'os.fspath', 'os.path.join'}
BEADS = 'a:n:K:3:1 b:n:K:5:1 c:m:L:7:2 d:ws:M:4:2 e:n:K:6:2 f:w:K:9:2'
FILE = 'n_20200101T000000000000+0000.zip'
FILES = {FILE: 'n', '/elsewhere/x_2nd_20200101T000000000000+0000.zip': 'x_2nd', 'below/y.v1.zip': 'y.v1'}


class World(Boxes):
    def place(self, t):
        """the folder a term denotes: 'given', or the parts of the path below the current directory"""
        if t is WS or t is attr(WS, 'directory'):
            return ('given',)
        if t.op == 'call' and t.a[0] == WORKSPACE + '.for_current_working_directory':
            return ('(enclosing workspace)',)
        if t.op == 'attr' and t.a[1] == 'name' and t.a[0].op == 'call' and t.a[0].a[0] == ARCHIVE and t.a[0] is not self.file:
            return ('(name of another file)',)
        if t.op == 'attr' and t.a[1] == 'directory':
            return self.place(t.a[0])
        if t.op == 'attr' and t.a[1] == 'parent':
            at = self.place(t.a[0])
            return ('(beside the given folder)',) if at == ('given',) else at[:-1] if at else ('..',)
        if t.op == 'mcall' and t.a[1] in ('with_name', 'with_suffix', 'with_stem'):
            return self.place(attr(t.a[0], 'parent')) + (f'({t.a[1]})',)
        if t.op == 'call' and (t.a[0] == WORKSPACE or t.a[0] in CWD):
            return tuple(x for a in t.a[1] for x in self.place(a))
        if t.op in ('path', 'cat'):
            return tuple(x for a in t.a for x in self.place(a))
        if t.op in ('strof',) or t.op == 'mcall' and t.a[1] in ('resolve', 'absolute', 'as_posix', '__str__', 'expanduser'):
            return self.place(t.a[0])
        if t.op == 'mcall' and t.a[1] in ('joinpath', '__truediv__'):
            return tuple(x for a in (t.a[0], *t.a[2]) for x in self.place(a))
        if is_const(t):
            return tuple(x for x in str(cval(t)).split('/') if x not in ('', '.'))
        try:
            kind, v = self.o.rank(t)
        except Undecided:
            raise Inconclusive(f'folder {t!r}'[:150])
        if kind != 'const text':
            raise Inconclusive(f'folder {t!r}'[:150])
        return (v,)


def scene(c, cmd, words, beads=BEADS, given=None, isfile=False, damaged=False, there=(), file=FILE):
    """there: the places that exist already"""
    w = World(beads, (), given)
    opts = w.options(c.a)
    latest = c.a.lookup_qual('bead_cli.common.TIME_LATEST')
    inner = opts['decide']
    archive = mk('call', ARCHIVE, (const(file),), ())
    w.o.values[attr(archive, 'name')] = ('const text', FILES[file])
    w.file = archive

    def decide(e, t, st):
        if t.op == 'cmp' and t.a[0] == 'is' and latest in t.a[1:] and sym('given time') in t.a[1:]:
            return False
        if t.op == 'cmp' and t.a[0] in ('is', '==') and any(x is WS or x.op == 'call' and x.a[0].startswith(WORKSPACE) for x in t.a[1:]):
            return t.a[1] is t.a[2]
        return inner(e, t, st)
    opts['decide'] = decide

    def script(e, st):
        found, cmd_, st = declarations(e, cli.command(c, cmd), st)
        vals = parse(found, words)
        if vals is None:
            return [(sym('@refused'), st)]
        for d, v in vals.items():
            st.overlay[attr(ARGS, d)] = v
        st.overlay[attr(WS, 'name')] = const('w')
        r, st = e.get_attr(cmd_, 'run', st)[0]
        return e.call(r, [ARGS, ENV], [], st, None)

    def made(st):
        return [w.place(x.args[1]) for x in events(trace_list(st.trace)) if x.kind == 'call' and x.fn in ('@code', '@create')]

    def exists(e, t, st):
        t = e.snap(t, st)
        if t is const(file) or t.op == 'call' and t.a[0] == 'pathlib.Path' and t.a[1] == (const(file),):
            return [(const(isfile), st)]
        if is_const(t) or t.op == 'call' and t.a[0] == 'pathlib.Path' and is_const(t.a[1][0]):
            # a reference which is no file, though there may be a folder of this name
            return [(const(w.place(t) in there), st)]
        try:
            p = w.place(t)
        except Inconclusive:
            return None
        return [(const(p in there or p in made(st)), st)]

    def isf(e, t, st):
        return [(const(isfile and contains(t, const(file))), st)]

    def valid(e, t, st, node):
        st.emit(Ev('call', '@verified', (t,), site=e.site(node)))
        if damaged:
            e.raise_(mk('exc', 'bead.exceptions.InvalidArchive', ''), st, node)
            return []
        return [(NONE, st)]

    def effect(name):
        def hook(e, qual, sargs, st, node):
            st.emit(Ev('call', name, tuple(e.snap(x, st) for x in sargs), site=e.site(node)))
            return [(NONE, st)]
        return hook

    def method(name):
        def hook(e, recv, args, kw, st, node):
            return effect(name)(e, None, (recv, *args, *kw.values()), st, node)
        return hook
    xhooks = dict(opts.pop('xhooks'))
    for n in ('exists', 'lexists', 'isdir'):
        xhooks['os.path.' + n] = lambda e, args, kw, st, node: exists(e, args[0], st)
    xhooks['os.path.isfile'] = lambda e, args, kw, st, node: isf(e, args[0], st)
    names = {'unpack_to': '@code', 'unpack_code_to': '@code', 'unpack_data_to': '@data', 'unpack_meta_to': '@meta'}
    mhooks = {n: method(x) for n, x in names.items()}
    mhooks.update(validate=lambda e, r, args, kw, st, node: valid(e, r, st, node),
                  exists=lambda e, r, args, kw, st, node: exists(e, r, st), is_dir=lambda e, r, args, kw, st, node: exists(e, r, st),
                  is_file=lambda e, r, args, kw, st, node: isf(e, r, st))

    def workspace_valid(e, qual, sargs, st, node):
        return [(const(w.place(sargs[0]) in made(st)), st)]
    stops = dict(w.stops(), **HASH, **FSOPS, **{
        WORKSPACE + '.for_current_working_directory': 'type:' + WORKSPACE, ARCHIVE: 'pure', ARCHIVE + '.content_id': 'pure', WORKSPACE: 'pure', 'bead_cli.common.die': die,
        WORKSPACE + '.is_valid': workspace_valid})
    stops[WORKSPACE + '.inputs'] = lambda e, q, s, st, n: [(e.new_container('list', [('item', sym('some input'))], st), st)]
    stops[WORKSPACE + '.create'] = lambda e, q, s, st, n: effect('@create')(e, q, (NONE, *s), st, n)
    for k in (ARCHIVE, 'bead.bead.Archive'):
        stops[k + '.validate'] = lambda e, q, s, st, n: valid(e, s[0], st, n)
        stops.update({k + '.' + n: effect(x) for n, x in names.items()})
    c.cov['scenarios'] += 1
    c.last = w
    return c.run(script, types={WS: WORKSPACE, ENV: 'bead_cli.environment.Environment', **{b: BOX for b in w.boxes.values()}},
                 stops=stops, xhooks=xhooks, mhooks=mhooks, excs=set(), unroll=32, max_recursion=6, **opts)


def judge(c, cmd, text, paths, want, allowed_failure=False):
    """want: [(what, archive or None, place)] or None when nothing may be done"""
    w = c.last
    bad = unsure = None
    good = 0
    for p in paths:
        got = []
        for x in events(p.trace):
            if x.kind == 'call' and x.fn in ('@code', '@data', '@create'):
                got.append((x.fn, None if x.fn == '@create' else x.args[0], w.place(x.args[1])))
            elif x.kind == 'call' and x.fn in ('@meta',):
                raise Inconclusive('metadata is unpacked by the command')
        why = None
        if p.kind == 'return' and p.value is sym('@refused'):
            why = 'the arguments are refused'
        elif p.kind == 'raise' and p.value.op == 'exc' and p.value.a[0] not in ('SystemExit',) and want is not None:
            why = f'fails with {p.value!r}'[:120]
        elif want is None:
            why = f'{say(w, got[0])}' if got else 'succeeds' if p.kind == 'return' else None
        elif got != want and sorted(got, key=repr) != sorted(want, key=repr):
            why = (', '.join(say(w, g) for g in got) or 'does nothing') + ' instead of: ' + ', '.join(say(w, g) for g in want)
        if not why:
            good += 1
        elif undecided(p):
            unsure = why
        else:
            bad = bad or (why, p)
    if bad:
        c.violation(cmd, f'{text}: {bad[0]}'[:300], bad[1].trace)
    elif unsure or not good:
        c.inconclusive(cmd, f'{text}: {unsure or "no path"}'[:240])
    else:
        c.ok(1, text)


def say(w, g):
    what, archive, place = g
    of = next((b.id for b in w.beads if b.archive is archive), 'the file' if archive is w.file else repr(archive)[:60])
    where = 'the given folder' if place == ('given',) else '/'.join(place)
    return f'creates {where}' if what == '@create' else f'unpacks the {what[1:]} of {of} to {where}'


GIVEN = ('given',)


def requests():
    """(reference, options, time, id of the bead or None, its name)"""
    yield 'n', [], None, 'e', 'n'
    yield 'm', [], None, 'c', 'm'
    yield 'ws', [], None, 'd', 'ws'
    for t, id in ((3, 'a'), (4, 'a'), (5, 'b'), (8, 'e'), (2, None)):
        yield 'n', [('-t', sym('given time'))], t, id, 'n'
    yield 'unknown', [], None, None, 'unknown'
    for file, name in FILES.items():
        yield file, [], None, 'file', name
    yield FILE, [('-t', sym('given time'))], 2, 'file', 'n'


def edit(c):
    for ref, more, t, id, name in requests():
        for given in (False, True):
            for review in (False, True):
                for damaged in (False, True):
                    for there in ([], ['wanted'], ['other']):
                        place = GIVEN if given else (name,)
                        other = (name,) if given else GIVEN
                        exist = [place] * ('wanted' in there) + [other] * ('other' in there)
                        if not given and 'other' in there:
                            exist.append(('w',))
                        text = f'edit {ref}{f" -t {t}" if more else ""}{" W" if given else ""}{" --review" if review else ""}{", damaged" if damaged else ""}{", the folder exists" if "wanted" in there else ", another folder exists" if there else ""}'
                        words = [const(ref)] + [WS] * given + more + ['--review'] * review
                        ps = scene(c, 'edit', words, given=t, isfile=id == 'file', damaged=damaged, there=exist, file=ref if id == 'file' else FILE)
                        w = c.last
                        a = w.file if id == 'file' else next((b.archive for b in w.beads if b.id == id), None)
                        want = None
                        if a is not None and not damaged and 'wanted' not in there:
                            want = [('@code', a, place)] + [('@data', a, place + ('output',))] * review
                        judge(c, 'edit', text, ps, want)


def new(c):
    for there in ([], [GIVEN], [('w',)]):
        ps = scene(c, 'new', [WS], there=there)
        judge(c, 'new', f'new W{", W exists" if GIVEN in there else ", another folder exists" if there else ""}', ps,
              None if GIVEN in there else [('@create', None, GIVEN)])


def check(c):
    c.rule('edit', 'the bead asked for is unpacked to the folder asked for, and to none which exists', edit, limit=400)
    c.rule('new', 'a workspace is created at the place asked for, and at none which exists', new)
    c.assumptions += ['what a search finds is the subject of C14 and C15; what is unpacked of an archive that of C32', 'a bead which is read from a file has a name (C21)']
