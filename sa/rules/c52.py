"""Scenario interpretation of whole command lines of the web command.  The command is
interpreted from its words - loading (or not) files and boxes, filtering, reducing,
colouring, saving, drawing in the three formats and viewing in many orders - on small
known bead graphs.  What it writes, draws and opens, in order, is compared with what
the specification of the steps gives for the graph at that point: drawings are taken
apart as DOT graphs, saved beads are compared one by one.  Command lines which can not
be understood as a whole have to be refused without any effect."""
from functools import partial

from .. import cli
from ..cli import ARGS, ENV
from ..dot import render
from ..engine import Ev, Inconclusive
from ..flow import events
from ..graphs import TIME, undecided
from ..ordering import Order
from ..std import *
from ..terms import *
from .c43 import kept
from .c46 import G, same_picture

ENVIRONMENT = 'bead_cli.environment.Environment'
IO = 'bead_cli.web.io'
BOXED = ('A1 A4 B2<A1 C3<B2', 'C5<A4+X1 D6<C3 B2<A1')       # beads of two boxes
PROCESS = sym('completed process')
FILES = {'one.web': 'A1 B2<A1 C3<B2 D4<C3 E5<A1', 'two.web': 'F1 A2<F1 A3<F1 B4<A3 B5<A2 C6<B5', 'fresh.web': 'A1 A4 B5<A4 C6<B5', 'old.web': 'A1:U A3:U B2<A1:O C4<B2:S'}


def state(g, beads, edges, colours=None):
    """the graph left after a step"""
    def word(b):
        uses = [u for u in b.uses if (u, b.id) in edges]
        return b.id + ('<' + '+'.join(uses) if uses else '') + ':' + ((colours or {}).get(b.id) or b.state)
    return G(' '.join(word(b) for b in g.all.values() if b.id in beads))


def step(g, cmd, args):
    if cmd == '/':
        i = args.index('..')
        s, t = args[:i], args[i + 1:-1]
        beads, edges, optional = kept(g, (s or None, True), (t or None, False))
        if optional - beads:
            raise AssertionError('unspecified case')
        return state(g, beads, edges)
    if cmd == 'heads':
        hs = {b.id for b in g.heads().values()}
        if any(n not in g.heads() for n in g.clusters()):
            hs |= {bs[-1].id for bs in g.clusters().values() if all(b.state == 'PHANTOM' for b in bs)}
        edges = {(u, i) for i in hs for u in g.all[i].uses}
        return state(g, hs | {u for u, _ in edges}, edges)
    if cmd == 'color':
        return state(g, set(g.all), g.edges(), g.colours())
    return g


def expected(lines, boxes=BOXED):
    """[(effect, file, graph)]"""
    g = G('')
    if lines[0][0] != 'load':
        g = G(' '.join(boxes))
    out = []
    for cmd, *args in lines:
        if cmd == 'load':
            g = G(FILES[args[0]])
        elif cmd in ('dot', 'png', 'svg', 'save', 'view'):
            out.append((cmd, args[0], g))
        else:
            g = step(g, cmd, args)
    return out


def interpret(c, words, failing=False):
    graphs = {n: G(t) for n, t in FILES.items()}
    union = G(' '.join(BOXED) + ' ' + ' '.join(FILES.values()))
    order = union.order(c)
    boxes = [sym('box 1'), sym('box 2')]
    made = {}

    def beads(e, texts, st):
        items = []
        for t in texts:
            l, st = G(t).build(e, st)
            items += e.finite_list(l, st)
        return e.new_container('list', [('item', x) for x in items], st), st

    def text_of(t):
        if t.op == 'call' and t.a[0] in ('pathlib.Path', 'pathlib.PurePath', 'builtins.str', 'os.fspath', 'bead.tech.fs.Path') and len(t.a[1]) == 1:
            return text_of(t.a[1][0])
        if t.op == 'mcall' and t.a[1] in ('as_posix', '__str__', '__fspath__') or t.op == 'strof' or t.op == 'path' and len(t.a) == 1:
            return text_of(t.a[0])
        return str(cval(t)) if is_const(t) else None

    def file_of(e, t, st):
        n = text_of(e.snap(t, st))
        if n is None:
            raise Inconclusive(f'file {e.snap(t, st)!r}'[:100])
        return n

    def emit(e, st, node, what, name, value):
        st.emit(Ev('call', '@effect', (const(what), const(name), value), site=e.site(node)))

    def read_beads(e, qual, sargs, st, node):
        n = file_of(e, sargs[0], st)
        if n not in graphs:
            raise Inconclusive(f'file read {n}')
        return [beads(e, [FILES[n]], st)]

    def write_beads(e, qual, sargs, st, node):
        g = union
        ids = []
        for b in g.items(e, sargs[1], st):
            i = g.bead_id(e, b, st)
            f = g.one(e, b, 'freshness', st)[0]
            ids.append((i, tuple(sorted(g.bead_id(e, x, st) for x in g.items(e, g.one(e, b, 'inputs', st)[0], st))), f.a[1] if f.op == 'enum' else repr(f)))
        emit(e, st, node, 'save', file_of(e, sargs[0], st), const(tuple(sorted(ids))))
        return [(NONE, st)]

    def write_file(e, qual, sargs, st, node):
        emit(e, st, node, 'dot', file_of(e, sargs[0], st), e.snap(sargs[1], st))
        return [(NONE, st)]

    def write_text(e, recv, args, kw, st, node):
        emit(e, st, node, 'dot', file_of(e, recv, st), e.snap(args[0], st))
        return [(NONE, st)]

    def run(e, args, kw, st, node, checks=None):
        kw = dict(kw)
        cmd = e.finite_items(args[0], st) if args else None
        if not cmd:
            raise Inconclusive('command run')
        ws = [file_of(e, x, st) for x in cmd]
        if not ws[0].endswith('dot'):
            raise Inconclusive(f'command {ws[0]}')
        opts, i = {}, 1
        while i < len(ws):
            if ws[i][:2] in ('-o', '-T') and ws[i][2:]:
                opts[ws[i][:2]] = ws[i][2:]
                i += 1
            elif ws[i] in ('-o', '-T') and i + 1 < len(ws):
                opts[ws[i]] = ws[i + 1]
                i += 2
            else:
                raise Inconclusive(f'argument {ws[i]} of dot')
        text = kw.get('input')
        if text is None:
            raise Inconclusive('text for dot')
        text = e.snap(text, st)
        if text.op == 'mcall' and text.a[1] == 'encode':
            text = text.a[0]
        elif is_const(text) and isinstance(cval(text), bytes):
            text = const(cval(text).decode())
        emit(e, st, node, opts.get('-T', ''), opts.get('-o', ''), text)
        if failing and (checks or kw.get('check') is TRUE):
            e.raise_(mk('exc', 'subprocess.CalledProcessError', 'dot'), st, node)
            return []
        code = const(1 if failing else 0)
        if checks is False:
            return [(code, st)]
        st.overlay[attr(PROCESS, 'returncode')] = code
        return [(PROCESS, st)]

    def check_returncode(e, recv, args, kw, st, node):
        if recv is not PROCESS:
            return None
        if failing:
            e.raise_(mk('exc', 'subprocess.CalledProcessError', 'dot'), st, node)
            return []
        return [(NONE, st)]

    def unique(e, box, args, kw, st, node):
        if box in made:
            emit(e, st, node, 'drops beads having the same content as another', '', NONE)
            return [(box, st)]

    def view(e, args, kw, st, node):
        emit(e, st, node, 'view', file_of(e, args[0] if args else dict(kw)['url'], st), NONE)
        return [(TRUE, st)]

    def search(e, qual, sargs, st, node):
        bs = e.finite_items(sargs[0], st)
        if bs is None or any(b not in boxes for b in bs):
            raise Inconclusive('boxes searched')
        st.emit(Ev('call', '@boxes', (), site=e.site(node)))
        l, st = beads(e, [BOXED[boxes.index(b)] for b in bs], st)
        made[l] = 1
        return [(l, st)]

    def box_beads(e, qual, sargs, st, node):
        if sargs[0] not in boxes or len(sargs) > 1:
            raise Inconclusive('beads of a box')
        st.emit(Ev('call', '@boxes', (), site=e.site(node)))
        return [beads(e, [BOXED[boxes.index(sargs[0])]], st)]

    def everything(e, box, args, kw, st, node):
        return [(box, st)] if box in made else None

    def script(e, st):
        st.overlay[attr(ARGS, 'words')] = e.new_container('list', [('item', const(w)) for w in words], st)
        out = []
        for cmd, s in e.call(e.lookup_qual(cli.command(c, 'web')), [], [], st, None):
            r, s = e.get_attr(cmd, 'run', s)[0]
            out += e.call(r, [ARGS, ENV], [], s, None)
        return out
    opts = order.options()
    opts['ohooks'] = dict(opts.get('ohooks') or {}, all=everything, unique=unique)
    opts['xhooks'] = dict(opts.get('xhooks') or {}, **{'subprocess.run': run, 'subprocess.check_call': partial(run, checks=True), 'subprocess.check_output': partial(run, checks=True),
                                                       'subprocess.call': partial(run, checks=False),
                                                       'webbrowser.open': view, 'webbrowser.open_new': view, 'webbrowser.open_new_tab': view,
                                                       'os.environ.get': lambda e, args, kw, st, node: [(const(80), st)]})
    opts['mhooks'] = dict(opts.get('mhooks') or {}, write_text=write_text, check_returncode=check_returncode)
    c.cov['scenarios'] += 1
    return c.run(script, excs=set(), max_recursion=12, unroll=64, set_orders=(1,), any_element=False,
                 types={ENV: ENVIRONMENT, **{b: BOX for b in boxes}},
                 stops={TIME: 'pure', IO + '.read_beads': read_beads, IO + '.write_beads': write_beads, FS + '.write_file': write_file, 'bead.box.search': search,
                        BOX + '.all_beads': box_beads, BOX + '.get_beads': box_beads,
                        ENVIRONMENT + '.get_boxes': lambda e, q, s, st, n: [(e.new_container('list', [('item', b) for b in boxes], st), st)]}, **opts)


def effects(p):
    return [(cval(x.args[0]), cval(x.args[1]), x.args[2]) for x in events(p.trace) if x.kind == 'call' and x.fn == '@effect']


def unknown_effects(p):
    return [x for x in events(p.trace) if x.kind in ('call', 'mcall') and isinstance(x.fn, str) and
            (x.fn in ('builtins.open', 'io.open', 'open', 'write', 'write_bytes', 'writelines') or x.fn.startswith(('subprocess.', 'webbrowser.', 'os.system', 'os.write', 'os.open')))]


def wrong(p, want, colours):
    got = effects(p)
    text = ' '.join(f'{w} {f}' for w, f, _ in got) or 'nothing'
    if [x[:2] for x in got] != [x[:2] for x in want]:
        return f'does {text} instead of {" ".join(f"{w} {f}" for w, f, _ in want) or "nothing"}'
    for (what, name, value), (_, _, g) in zip(got, want):
        if what == 'save':
            beads = {(b.id, tuple(sorted(b.uses)), b.state) for b in g.all.values()}
            have = cval(value)
            if len(set(have)) != len(have):
                return f'saves beads twice in {name}'
            for x in beads ^ set(have):
                return f'saves {"" if x in have else "no "}{x[2]} bead {x[0]} using {", ".join(x[1]) or "nothing"} in {name}'
        elif what != 'view':
            bad = same_picture(g, render(value), colours)
            if bad:
                return f'draws in {name} a graph which is not that of "{g.text}": {bad}'


def judge(c, lines, colours):
    words = [w for l in lines for w in l]
    text = f'bead web {" ".join(words)}'
    ps = interpret(c, words)
    want = expected(lines)
    bad = unsure = None
    good = 0
    for p in ps:
        why = f'fails with {p.value!r}'[:200] if p.kind == 'raise' else wrong(p, want, colours)
        if not why and words[0] == 'load' and any(x.kind == 'call' and x.fn == '@boxes' for x in events(p.trace)):
            why = 'reads the boxes, though it starts with a file'
        if not why:
            good += 1
        elif undecided(p) or unknown_effects(p):
            unsure = why
        else:
            bad = bad or (why, p)
    if bad:
        c.violation('bead web', f'"{text}" {bad[0]}'[:400], bad[1].trace)
    elif unsure or not good:
        c.inconclusive('bead web', f'"{text}" {unsure or "no path returns"}'[:250])
    else:
        c.ok(1, text)


OUTPUT = ('dot', 'png', 'svg', 'save', 'view')
STEPS = [[('color',)], [('heads',)], [('/', 'B', '..', '/')], [('/', '..', 'C', '/')], [('/', 'A', '..', 'C', '/')],
         [('heads',), ('color',)], [('color',), ('heads',)], [('/', 'A', '..', '/'), ('/', '..', 'C', '/'), ('color',)],
         [('color',), ('/', 'B', '..', '/')], [('/', 'B', '..', '/'), ('heads',), ('color',)]]


def lines(c):
    n = 0
    for out in OUTPUT:                      # every output after every step, for boxes and files
        for steps in [[]] + STEPS:
            for start in ([], [('load', 'one.web')], [('load', 'two.web')]):
                n += 1
                if c.thorough or not steps or n % 3 == 0 or out in ('dot', 'save') and not start:
                    yield start + steps + [(out, 'out')]
    for out in OUTPUT:                      # outputs pass the graph on
        for then in OUTPUT:
            yield [('load', 'one.web'), (out, 'out 1'), (then, 'out 2')]
        for then in [('heads',), ('color',), ('/', 'B', '..', 'D', '/')]:
            yield [('load', 'one.web'), (out, 'out 1'), then, ('save', 'out 2'), ('dot', 'out 3')]
    yield [('dot', 'a'), ('load', 'two.web'), ('dot', 'b'), ('load', 'one.web'), ('heads',), ('dot', 'c')]
    yield [('color',), ('save', 'a'), ('load', 'one.web'), ('save', 'b'), ('color',), ('save', 'c')]
    yield [('load', 'old.web'), ('dot', 'a'), ('color',), ('dot', 'b'), ('heads',), ('dot', 'c')]
    yield [('load', 'old.web'), ('save', 'a'), ('heads',), ('save', 'b')]
    yield [('load', 'fresh.web'), ('color',), ('save', 'a'), ('dot', 'b'), ('heads',), ('save', 'c')]
    yield [('load', 'one.web'), ('view', 'a'), ('view', 'b')]
    # files called like commands
    yield [('load', 'one.web'), ('dot', 'load'), ('save', 'view'), ('view', 'dot')]
    yield [('save', 'load')]
    yield [('heads',), ('dot', 'load')]
    # what is made is told by the command, not by the name of the file
    for out in OUTPUT:
        for name in ('out.png', 'out.svg', 'dir.svg/out.PNG', 'out.dot', 'out.web', '.svg'):
            yield [('load', 'one.web'), (out, name)]
    for step in [[('color',)], [('heads',)], [('load', 'one.web')], [('heads',), ('color',)]]:         # nothing to see
        yield step


def pipeline(c):
    colours = {}
    for l in lines(c):
        judge(c, l, colours)


REFUSED = ['frob', 'dot', 'load', 'save', 'color frob', 'load one.web dot', 'dot out frob', 'save out /', 'dot out / A', 'dot out / A ..', 'dot out / A /', 'dot out / A .. B',
           'save out / A .. B .. /', 'color save out view', 'dot out heads load', 'png out 1.png svg', 'dot out color / .. .. /',
           'dot out / / .. /', 'save out / A .. / /']


def refused(c):
    for text in REFUSED:
        for p in interpret(c, text.split()):
            got = effects(p)
            if got and undecided(p):
                c.inconclusive('bead web', f'"bead web {text}"')
            elif got:
                c.violation('bead web', f'"bead web {text}" is not understood, but does {got[0][0]} {got[0][1]}', p.trace)
            elif p.kind == 'return' and not undecided(p) and not (is_const(p.value) and cval(p.value)):
                c.violation('bead web', f'"bead web {text}" succeeds', p.trace)
            else:
                c.ok()


def not_drawn(c):
    for text in ('png out', 'svg out', 'load one.web png out', 'color svg out view out', 'png a svg b', 'heads png out save end'):
        ps = interpret(c, text.split(), failing=True)
        for p in ps:
            got = effects(p)
            if p.kind == 'return' and not (is_const(p.value) and cval(p.value) not in (None, 0, False)) and any(x[0] in ('png', 'svg') for x in got):
                if undecided(p) or unknown_effects(p):
                    c.inconclusive('bead web', f'"bead web {text}" when "dot" fails')
                else:
                    c.violation('bead web', f'"bead web {text}" succeeds when the "dot" program fails', p.trace)
            else:
                c.ok()


def check(c):
    c.rule('pipeline', 'sub-commands work in order, each on the graph left by the one before', pipeline)
    c.rule('refused', 'what is not understood is refused as a whole', refused)
    c.rule('not drawn', 'the command fails when the drawing program fails', not_drawn)
    c.assumptions += ['small graphs stand for all', 'reading and writing bead graphs is the subject of C25, the filters that of C43, the freshness that of C26',
                      'png and svg are made by giving the drawing to the "dot" program']
