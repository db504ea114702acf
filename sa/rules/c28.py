"""Scenario interpretation of the commands which choose a bead.  The arguments a
command gets are computed from its own declarations of options; then the command is
interpreted over small known collections of boxes (beads of the same and of other
kinds, with the same and other names, older, newer and at the very time asked for)
with every combination of options, and the bead which ends up loaded or unpacked is
compared with the one the specification selects."""
from .. import cli
from ..bulletin import Boxes, WORKSPACE
from ..cli import ENV, ARGS, WS
from ..commandline import declarations, parse
from ..engine import Ev, Inconclusive
from ..flow import events
from ..graphs import undecided
from ..std import *
from ..terms import *

# id:name:kind:time:box
MANY = 'a:n:K:3:1 b:n:K:5:2 c:m:K:7:2 d:n:K:9:1 e:n:L:8:2 f:n:L:12:1 g:o:K:1:1 h:i:M:6:1 j:i:M:4:2 k:ni:M:10:2'
REVERSED = ' '.join(reversed(MANY.split()))
SWAPPED = ' '.join(w[:-1] + ('2' if w[-1] == '1' else '1') for w in MANY.split())
OTHERS = 'e:i:L:8:2 f:n:L:12:1 k:j:M:2:1'
DOUBLE = 'a:n:K:5:1 e:n:L:5:2'              # the recorded version is gone, another has its freeze time
T = sym('given time')
NAME = const('n')


def collections():
    return [MANY, REVERSED, SWAPPED, OTHERS, DOUBLE, '']


def scene(c, cls, w, words, isfile=False, damaged=()):
    """-> paths of the command, or None when the arguments are refused"""
    opts = w.options(c.a)

    def script(e, st):
        found, cmd, st = declarations(e, cls, st)
        vals = parse(found, words)
        if vals is None:
            return [(sym('@refused'), st)]
        for d, v in vals.items():
            if d == 'workspace' and v.op == 'call':
                v = WS
            st.overlay[attr(ARGS, d)] = v
        st.overlay[attr(WS, 'is_valid')] = TRUE
        st.overlay[attr(WS, 'inputs')] = e.new_container('list', [('item', w.input(i[0])) for i in w.inputs], st)
        for i in w.inputs:
            st.overlay[attr(w.input(i[0]), 'name')] = const(i[0])
        r, st = e.get_attr(cmd, 'run', st)[0]
        return e.call(r, [ARGS, ENV], [], st, None)

    def valid(e, recv, args, kw, st, node):
        if any(recv is b.archive for b in w.beads if b.id in damaged):
            e.raise_(mk('exc', 'bead.exceptions.InvalidArchive', ''), st, node)
            return []
        return [(NONE, st)]

    def unpack(e, recv, args, kw, st, node):
        st.emit(Ev('call', '@unpack', (recv,), site=e.site(node)))
        return [(NONE, st)]

    def unpacked(e, qual, sargs, st, node):
        return unpack(e, sargs[0], (), (), st, node)

    isf = lambda e, args, kw, st, node: [(const(isfile), st)]
    no = lambda e, args, kw, st, node: [(FALSE, st)]
    xhooks = dict(opts.pop('xhooks'), **{'os.path.isfile': isf, 'os.path.exists': isf if isfile else no, 'os.path.lexists': no, 'os.path.isdir': no})
    mhooks = dict(validate=valid, unpack_to=unpack, unpack_code_to=unpack,
                  exists=lambda e, r, args, kw, st, node: [(FALSE, st)] if not isfile else None,
                  is_file=lambda e, r, args, kw, st, node: [(const(isfile), st)])
    stops = dict(w.stops(), **HASH, **{ARCHIVE: 'pure', ARCHIVE + '.content_id': 'pure', 'bead_cli.common.die': die})
    for k in (ARCHIVE, 'bead.bead.Archive'):
        stops.update({k + '.validate': lambda e, q, s, st, n: valid(e, s[0], (), (), st, n), k + '.unpack_to': unpacked, k + '.unpack_code_to': unpacked, k + '.unpack_data_to': 'pure',
                      k + '.unpack_meta_to': 'pure'})
    return c.run(script, types={WS: WORKSPACE, ENV: 'bead_cli.environment.Environment', **{b: BOX for b in w.boxes.values()}},
                 stops=stops, xhooks=xhooks, mhooks=mhooks, excs=set(), unroll=32, max_recursion=6, **opts)


def die(e, qual, sargs, st, node):
    e.raise_(mk('exc', 'SystemExit', ''), st, node)
    return []


def newest(w, pred):
    got = [b for b in w.beads if pred(b)]
    return max(got, key=lambda b: b.time) if got else None


def oldest(w, pred):
    got = [b for b in w.beads if pred(b)]
    return min(got, key=lambda b: b.time) if got else None


def loads(w, p):
    """[(nick, archive term, loaded before)]"""
    out = []
    for x in events(p.trace):
        if x.kind == 'call' and x.fn == '@load':
            out.append((cval(x.args[0]) if is_const(x.args[0]) else repr(x.args[0]), x.args[1]))
    return out


def say(w, archive):
    for b in w.beads:
        if b.archive is archive:
            return f'bead {b.id} (name {b.name}, kind {b.kind}, time {b.time})'
    return repr(archive)[:80]


def judge(c, what, w, words, paths, want):
    """want: {nick: Bead | term | None}"""
    cmdline = ' '.join(x if isinstance(x, str) else x[0] + ' T' if isinstance(x, tuple) else str(cval(x)) for x in words)
    text = f'"{cmdline}" with beads "{w.text}", inputs {[i[:4] for i in w.inputs]}' + (f', T = {w.given}' if w.given is not None else '')
    bad = unsure = None
    for p in paths:
        why = None
        got = loads(w, p)
        for nick, archive in got:
            if nick not in want:
                why = f'loads {say(w, archive)} as {nick}'
                break
            x = want[nick]
            if x is None:
                why = f'loads {say(w, archive)} as {nick}, though there is no such version'
                break
            if archive is not getattr(x, 'archive', x):
                why = f'loads {say(w, archive)} as {nick} instead of {say(w, getattr(x, "archive", x))}'
                break
        else:
            for nick, x in want.items():
                state = [i for i in w.inputs if i[0] == nick]
                if x is None or any(n == nick for n, _ in got):
                    continue
                if state and state[0][4] and state[0][1] == getattr(x, 'id', None):
                    continue            # it is there already
                why = f'does not load {say(w, getattr(x, "archive", x))} as {nick}' + (f' but fails with {p.value!r}'[:100] if p.kind == 'raise' else '')
                break
            if not why and p.kind == 'raise' and p.value.op == 'exc' and p.value.a[0] != 'SystemExit':
                why = f'fails with {p.value!r}'[:120]
        if why:
            und = undecided(p)
            if und:
                unsure = f'{why}, if {und[0].fn!r}'[:240]
            elif bad is None:
                bad = (why, p)
    if bad:
        c.violation(what, f'{text}: {bad[0]}', bad[1].trace)
    elif unsure:
        c.inconclusive(what, f'{text}: {unsure}')
    else:
        c.ok()
    c.cov['scenarios'] += 1


def refused(paths):
    return any(p.kind == 'return' and p.value is sym('@refused') for p in paths)


def update_one(c):
    cls = cli.command(c, 'input update')
    nick = const('i')
    for text in collections():
        for time in (1, 5, 9, 4) if c.thorough or text == MANY else (5,):
            ids = {1: 'g', 5: 'b', 9: 'd', 4: 'zz'}
            for loaded in (True, False) if c.thorough or text in (MANY, DOUBLE) else (False,):
                inputs = [('i', ids[time], 'K', time, loaded), ('j', 'yy', 'M', 6, loaded)]
                kind = lambda b: b.kind == 'K'

                def go(words, pick, given=None):
                    w = Boxes(text, inputs, given)
                    ps = scene(c, cls, w, words)
                    if refused(ps):
                        c.violation('input update', f'the arguments {words!r} are refused'[:200])
                        return
                    judge(c, 'input update', w, words, ps, {'i': pick(w)})
                go([nick], lambda w: newest(w, kind))
                for f in ('-N', '--next'):
                    go([nick, f], lambda w: oldest(w, lambda b: kind(b) and b.time > time))
                for f in ('-P', '--prev', '--previous'):
                    go([nick, f], lambda w: newest(w, lambda b: kind(b) and b.time < time))
                for given in (0, 1, 2, 5, 6, 7, 12) if c.thorough or text == MANY and time == 5 else (5, 8):
                    for f in ('-t', '--time') if given == 5 else ('-t',):
                        go([nick, (f, T)], lambda w: newest(w, lambda b: kind(b) and b.time <= given), given)


def update_named(c):
    cls = cli.command(c, 'input update')
    for text in collections():
        for loaded in (True, False):
            inputs = [('i', 'b', 'K', 5, loaded)]
            for given in (None, 0, 5, 8, 12) if text == MANY else (None, 6):
                w = Boxes(text, inputs, given)
                words = [const('i'), NAME] + ([('-t', T)] if given is not None else [])
                judge(c, 'input update', w, words, scene(c, cls, w, words),
                      {'i': newest(w, lambda b: b.name == 'n' and b.time <= (99 if given is None else given))})


def update_all(c):
    cls = cli.command(c, 'input update')
    for text in collections():
        for time, cid in ((5, 'b'), (9, 'd')):
            for loaded in (True, False):
                for given in (None, 5, 6) if c.thorough or text == MANY else (None, 6):
                    inputs = [('i', cid, 'K', time, loaded), ('z', 'zz', 'Z', 6, loaded), ('j', 'h', 'M', 6, loaded)]
                    w = Boxes(text, inputs, given)
                    words = [('-t', T)] if given is not None else []
                    want = {nick: newest(w, lambda b: b.kind == k and b.time <= (99 if given is None else given)) for nick, _, k, _, _ in inputs}
                    judge(c, 'input update', w, words, scene(c, cls, w, words), want)


def add(c):
    cls = cli.command(c, 'input add')
    for text in collections():
        for given in (None, 0, 3, 6, 8, 12):
            limit = 99 if given is None else given
            for words, name in (([const('i')], 'i'), ([const('x'), NAME], 'n'), ([const('i'), NAME], 'n')):
                w = Boxes(text, [('q', 'zz', 'K', 2, True)], given)
                ws = words + ([('-t', T)] if given is not None else [])
                judge(c, 'input add', w, ws, scene(c, cls, w, ws), {cval(words[0]): newest(w, lambda b: b.name == name and b.time <= limit)})


def files(c):
    """an existing file is taken itself, before any bead of the same name"""
    for name, words in (('input add', [const('x'), NAME]), ('input update', [const('i'), NAME])):
        w = Boxes(MANY, [('i', 'zz', 'K', 5, False)])
        for p in scene(c, cli.command(c, name), w, words, isfile=True):
            got = loads(w, p)
            if not got:
                if not undecided(p):
                    c.violation(name, 'an archive given by its file name is not loaded', p.trace)
                continue
            v = got[0][1]
            c.require(v.op == 'call' and v.a[0] == ARCHIVE and v.a[1] and contains(v.a[1][0], NAME), name, f'a file is given but {say(w, v)} is loaded', p.trace)


def load(c):
    """input load takes exactly the recorded content, from any box"""
    cls = cli.command(c, 'input load')
    for text in (MANY, REVERSED, SWAPPED, OTHERS, DOUBLE):
        for cid, kind, time in (('b', 'K', 5), ('d', 'K', 9), ('zz', 'K', 5)):
            for words in ([const('i')], []):
                inputs = [('y', 'yy', 'K', 5, False), ('i', cid, kind, time, False), ('j', 'j', 'M', 4, False)]
                w = Boxes(text, inputs)
                want = {n: next((b for b in w.beads if b.id == x), None) for n, x, _, _, _ in inputs if not words or n == 'i'}
                judge(c, 'input load', w, words, scene(c, cls, w, words), want)


def edit(c):
    cls = cli.command(c, 'edit')
    for text in collections():
        for given in (None, 0, 3, 6, 8, 12):
            for more in ([], [sym('other workspace')]):
                w = Boxes(text, [], given)
                words = [NAME] + more + ([('-t', T)] if given is not None else [])
                want = newest(w, lambda b: b.name == 'n' and b.time <= (99 if given is None else given))
                done = False
                for p in scene(c, cls, w, words):
                    got = [x for x in events(p.trace) if x.kind == 'call' and x.fn == '@unpack']
                    what = f'"{w.text}"' + (f', T = {given}' if given is not None else '')
                    for x in got:
                        done = True
                        if want is not None and x.args[0] is want.archive:
                            continue
                        why = f'{what}: unpacks {say(w, x.args[0])}' + (f' instead of {say(w, want.archive)}' if want else '')
                        before = p.trace[:p.trace.index(x)]
                        if any(y.kind == 'assume' and not any(z.op == 'fresh' for z in walk(y.fn)) for y in events(before)):
                            c.inconclusive('edit', why)
                        else:
                            c.violation('edit', why, p.trace)
                if want is not None and not done:
                    c.violation('edit', f'{what}: does not unpack {say(w, want.archive)}')
                c.ok()
                c.cov['scenarios'] += 1


def check(c):
    c.assumptions += [
        'two boxes and up to ten beads stand for all; no two matching beads have the same freeze time',
        'what searches give is the subject of C14, C15 and C20, how times are read that of C21']
    c.rule('one', 'input update NAME [--next | --prev | --time] loads the selected version of the same kind, from all boxes', update_one, 300)
    c.rule('named', 'input update NAME BEAD loads the newest bead of the name', update_named)
    c.rule('all', 'input update loads the newest version of each input', update_all)
    c.rule('add', 'input add loads the newest bead of the name', add)
    c.rule('file', 'existing files are used themselves', files)
    c.rule('load', 'input load loads the recorded version', load)
    c.rule('edit', 'edit unpacks the newest bead of the name', edit)
