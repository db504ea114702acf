"""Exception flow and scenario interpretation.  The main program is interpreted
through its table of commands and its argument parser with every command ending in
every way (result, SystemExit, KeyboardInterrupt, other exceptions, with failures of
the handlers themselves): the exit status is computed for each path.  Each refusal is
interpreted as a scenario (unknown bead, box or input, invalid workspace or name,
existing directory, ...): every path has to write to the error output and end by a
non-zero SystemExit; the same commands in good order have to come to their end with
no such status."""
from .. import cli
from ..bulletin import Boxes, LATEST, WORKSPACE
from ..cli import ENV, ARGS, WS
from ..commandline import declarations, parse
from ..engine import Ev, Inconclusive, trace_list
from ..flow import events
from ..graphs import undecided
from ..std import *
from ..terms import *

MAIN = 'bead_cli.main.main'
ENVIRONMENT = 'bead_cli.environment.Environment'
BEADS = 'a:n:K:3:1 b:n:K:5:2 d:n:K:9:1 g:o:K:1:1 h:i:M:6:1'
INPUTS = [('i', 'b', 'K', 5, False), ('j', 'h', 'M', 6, True), ('lost', 'zz', 'Z', 4, False)]
T0 = sym('given time')


# ---------------------------------------------------------------------- exit status
def status(p):
    """exit status of the process: a number, 'text' (printed to the error output, 1),
    'exception' (reported by the interpreter, 1) or None when it is not known"""
    v = p.value
    if p.kind == 'raise':
        if v.op != 'exc' or v.a[0] != 'SystemExit':
            return 'exception'
        x = v.a[1] if len(v.a) > 1 else None
        if isinstance(x, T) and x.op == 'tuple':
            x = x.a[0] if x.a else NONE
        if not isinstance(x, T):
            x = NONE if x in (None, ()) else None if x == '' else const(x) if isinstance(x, (int, str)) else x[0] if isinstance(x, tuple) else None
        v = x
        if v is None:
            return None
    return code(v)


def code(v):
    if v is None:
        return None
    if is_const(v):
        x = cval(v)
        return 0 if x is None else int(x) % 256 if isinstance(x, int) else 'text'
    if v.op == 'cat':
        return 'text'
    return None


def said(trace):
    """is something written to the error output?"""
    for x in events(trace):
        if x.kind in ('call', 'mcall', 'query') and isinstance(x.fn, str):
            if x.fn in ('sys.stderr.write', 'sys.stderr.writelines', 'traceback.print_exc', 'traceback.print_exception', 'warnings.warn', 'logging.error'):
                return True
            if x.fn == 'builtins.print' and x.kwarg('file') is not None and 'stderr' in repr(x.kwarg('file')):
                return True
            if x.fn in ('write', 'writelines') and x.args and 'stderr' in repr(x.args[0]):
                return True
            if x.fn == 'os.write' and x.args and x.args[0] is const(2):
                return True
    return False


# ---------------------------------------------------------------------- main program
def program(c, faults=False, only=None):
    """paths of the main program; '@parsed', '@returned' and '@raised' events tell what happened"""
    table = {}

    def mark(s, name, args, e, node):           # (a mark keeps paths from being merged)
        s.emit(Ev('call', name, args, site=e.site(node)))
        s.overlay[sym('mark ' + name)] = args[0] if args else TRUE
    cmds = cli.commands(c.a)

    def parser(e, args, kw, st, node):
        return [(sym('@argparser'), st)]

    def subparsers(e, recv, args, kw, st, node):
        return [(mk('subparsers', recv), st)]

    def add_parser(e, recv, args, kw, st, node):
        if recv.op != 'subparsers':
            return None
        p = mk('parser', recv, args[0])
        table.setdefault(p, {})
        return [(p, st)]

    def set_defaults(e, recv, args, kw, st, node):
        if recv.op != 'parser' and recv is not sym('@argparser'):
            return None
        table[recv] = dict(table.get(recv, {}), **dict(kw))
        return [(NONE, st)]

    def parse_args(e, recv, args, kw, st, node):
        outs = []
        todo = [p for p in table if p.op == 'parser']
        for p in [NONE] + (todo if only is None else [todo[i] for i in only if i < len(todo)]):
            s = st.fork()
            mark(s, '@parsed', (p,), e, node)
            ns = mk('namespace', p)
            for k, v in {**table.get(sym('@argparser'), {}), **table.get(p, {})}.items():
                s.overlay[attr(ns, k)] = v
            outs.append((ns, s))
        for n in (2, 0):
            s = st.fork()
            mark(s, '@refused' if n else '@help', (), e, node)
            e.raise_(mk('exc', 'SystemExit', mk('tuple', const(n))), s, node)
        return outs

    def getattr_(e, args, kw, st, node):
        if not args or args[0].op != 'namespace' or not is_const(args[1]):
            return None
        k = attr(args[0], cval(args[1]))
        if k in st.overlay:
            return [(st.overlay[k], st)]
        if len(args) == 3:
            return [(args[2], st)]
        e.raise_(mk('exc', 'AttributeError', ''), st, node)
        return []

    def hasattr_(e, args, kw, st, node):
        if args[0].op != 'namespace' or not is_const(args[1]):
            return None
        return [(const(attr(args[0], cval(args[1])) in st.overlay), st)]

    def run(e, qual, sargs, st, node):
        outs = []
        for v in (NONE, const(0)):
            s = st.fork()
            mark(s, '@returned', (v,), e, node)
            outs.append((v, s))
        for x in ('KeyboardInterrupt', 'OtherError') + (() if faults else ('OSError', 'bead.exceptions.BoxError', 'FileNotFoundError')):
            s = st.fork()
            mark(s, '@raised', (const(x),), e, node)
            e.raise_(mk('exc', x, ''), s, node)
        s = st.fork()
        mark(s, '@raised', (const('SystemExit'),), e, node)
        e.raise_(mk('exc', 'SystemExit', mk('tuple', const(1))), s, node)
        return outs

    opts = dict(exc_all=True, ki=True) if faults else dict(excs=set())
    ps = c.run(MAIN, [], xhooks={'argparse.ArgumentParser': parser, 'builtins.getattr': getattr_, 'builtins.hasattr': hasattr_},
               mhooks=dict(add_subparsers=subparsers, add_parser=add_parser, set_defaults=set_defaults, parse_args=parse_args),
               stops={**{v + '.run': run for v in cmds.values()}, ENVIRONMENT + '.from_dir': 'pure',
                      WORKSPACE + '.for_current_working_directory': 'pure'}, **opts)
    c.anchor(table, 'commands registered at the argument parser')
    return ps, table


def command_name(t):
    if t.op != 'parser':
        return ''
    return (command_name(t.a[0].a[0]) + ' ' + (cval(t.a[1]) if is_const(t.a[1]) else '?')).strip()


def top(c, faults=False):
    reached = set()
    step = 1 if faults else 5
    paths = []
    for i in range(0, 200, step):
        ps, table = program(c, faults, range(i, i + step))
        paths += ps
        if faults or i + step >= len(table):
            break
    for p in paths:
        ev = {x.fn: x for x in events(p.trace) if x.kind == 'call' and isinstance(x.fn, str) and x.fn.startswith('@')}
        got = status(p)
        name = command_name(ev['@parsed'].args[0]) if '@parsed' in ev else ''
        if got is None:
            if undecided(p) or faults:
                c.inconclusive(MAIN, f'exit status {p.value!r}'[:150])
                continue
        if '@returned' in ev:
            reached.add(name)
            if not faults:          # (printing or exiting may be what fails)
                c.require(got == 0, MAIN, f'a successful "{name}" exits with {got if got is not None else p.value!r}'[:200], p.trace)
            continue
        if '@raised' in ev:
            how = f'"{name}" ends by {cval(ev["@raised"].args[0])} and the program'
            if '@handled' not in ev and got != 'exception' and cval(ev['@raised'].args[0]) != 'SystemExit':
                c.require(said(p.trace) or got == 'text', MAIN, f'{how} reports nothing to the error output', p.trace)
        elif '@help' in ev:
            continue
        elif '@refused' in ev:
            how = 'the command line is refused and the program'
        elif '@parsed' in ev:
            how = f'"{name}" is no command, or it is not run, and the program'
            if name and name not in groups(table) and not faults and not undecided(p) and p.kind == 'return':
                c.violation(MAIN, f'the command "{name}" is never run', p.trace)
                continue
        else:
            how = 'the program'
        c.require(got not in (0, None), MAIN, f'{how} exits with {got}', p.trace)
    if not faults:
        for p in table:
            n = command_name(p)
            if n and n not in groups(table):
                c.require(n in reached, MAIN, f'the command "{n}" is never run', what=f'"{n}" is run by the main program')


def groups(table):
    return {command_name(p.a[0].a[0]) for p in table if p.op == 'parser'}


def handlers(c):
    """the handlers of failures may fail themselves"""
    top(c, faults=True)


# ---------------------------------------------------------------------- scenarios
class Scene:
    def __init__(self, cmd, words, beads=BEADS, valid=True, exists=False, isfile=False, damaged=False, boxes=(1, 2), name='w', store=None,
                 inputs=INPUTS, given=None, names=None, away=None, what=''):
        """names: of the boxes, which are then looked up by the repository's code
        away: the boxes whose folders do not exist at the moment"""
        self.__dict__.update(locals())

    def __str__(self):
        ws = ' '.join(w if isinstance(w, str) else w[0] + ' T' if isinstance(w, tuple) else repr(w) for w in self.words)
        return f'"{self.cmd} {ws}" ({self.what})'


def scene(c, s):
    cls = cli.command(c, s.cmd)
    latest = c.a.lookup_qual(LATEST)
    w = Boxes(s.beads, s.inputs, s.given, s.boxes)
    opts = w.options(c.a)
    refusal = [False]

    inner = opts['decide']

    def decide(e, t, st):
        if t.op == 'cmp' and t.a[0] == 'is' and T0 in t.a[1:] and latest in t.a[1:]:
            return False
        return inner(e, t, st)
    opts['decide'] = decide

    def script(e, st):
        found, cmd, st = declarations(e, cls, st)
        vals = parse(found, s.words)
        if vals is None:
            refusal[0] = True
            return [(NONE, st)]
        for d, v in vals.items():
            if d == 'workspace' and (v.op == 'call' or v is WS):
                v = WS
            st.overlay[attr(ARGS, d)] = v
        st.overlay[attr(WS, 'is_valid')] = const(s.valid)
        st.overlay[attr(WS, 'name')] = const(s.name)
        for n, t in (s.names or {}).items():
            st.overlay[attr(sym(f'box {n}'), 'name')] = const(t)
        st.overlay[attr(WS, 'inputs')] = e.new_container('list', [('item', w.input(i[0])) for i in w.inputs], st)
        r, st = e.get_attr(cmd, 'run', st)[0]
        return e.call(r, [ARGS, ENV], [], st, None)

    def validate(e, recv, args, kw, st, node):
        if s.damaged:
            e.raise_(mk('exc', 'bead.exceptions.InvalidArchive', ''), st, node)
            return []
        return [(NONE, st)]

    def nothing(e, *rest):
        return [(NONE, rest[-2])]

    def get_box(e, qual, sargs, st, node):
        if not is_const(sargs[1]):
            raise Inconclusive('name of box')
        for n, t in w.boxes.items():
            if cval(sargs[1]) == f'box {n}':
                return [(t, st)]
        return [(NONE, st)]

    def store(e, qual, sargs, st, node):
        st.emit(Ev('call', '@stored', tuple(sargs), site=e.site(node)))
        if s.store:
            e.raise_(mk('exc', s.store, ''), st, node)
            return []
        return [(sym('place of the new archive'), st)]

    def add_box(e, qual, sargs, st, node):
        w.boxes[9] = sym('box 9')
        st.emit(Ev('call', '@defined', tuple(sargs), site=e.site(node)))
        return [(NONE, st)]

    def remember(e, qual, sargs, st, node):
        st.emit(Ev('call', '@remembered', tuple(sargs), site=e.site(node)))
        return [(NONE, st)]

    def answer(v):
        def now(st):
            return const(v or any(x.kind == 'call' and x.fn == '@unpack' for x in trace_list(st.trace)))

        def at(t, st):
            if s.away is not None:
                for n in (*s.boxes, 9):
                    if contains(t, sym(f'box {n}')):
                        return const(n not in s.away)
            return now(st)
        return (lambda e, args, kw, st, node: [(at(args[0], st), st)]), (lambda e, r, args, kw, st, node: [(at(r, st), st)])

    def unpack(e, *rest):
        rest[-2].emit(Ev('call', '@unpack', (), site=e.site(rest[-1])))
        return [(NONE, rest[-2])]
    there, isthere = answer(s.exists or s.isfile)
    isf, is_file = answer(s.isfile)
    isd, is_dir = answer(s.exists)
    xhooks = dict(opts.pop('xhooks'), **{'os.path.isfile': isf, 'os.path.exists': there, 'os.path.lexists': there, 'os.path.isdir': isd})
    mhooks = dict(validate=validate, unpack_to=unpack, unpack_code_to=nothing, unpack_data_to=nothing, exists=isthere, is_file=is_file, is_dir=is_dir)
    stops = dict(w.stops(), **HASH, **FSOPS, **{
        ARCHIVE: 'pure', ARCHIVE + '.content_id': 'pure', WORKSPACE + '.create': nothing, WORKSPACE + '.inputs': 'pure', ENVIRONMENT + '.get_box': get_box,
        ENVIRONMENT + '.add_box': add_box, ENVIRONMENT + '.save': remember, BOX + '.store': store})
    if s.names:
        del stops[ENVIRONMENT + '.get_box']
    for k in (ARCHIVE, 'bead.bead.Archive'):
        stops.update({k + '.validate': lambda e, q, a, st, n: validate(e, a[0], (), (), st, n), k + '.unpack_to': unpack,
                      k + '.unpack_code_to': nothing, k + '.unpack_data_to': nothing, k + '.unpack_meta_to': nothing})
    ps = c.run(script, types={WS: WORKSPACE, ENV: ENVIRONMENT, **{b: BOX for b in w.boxes.values()}, sym('box 9'): BOX},
               stops=stops, xhooks=xhooks, mhooks=mhooks, excs=set(), unroll=32, max_recursion=6, **opts)
    c.cov['scenarios'] += 1
    return None if refusal[0] else ps


def refuses(c, s):
    ps = scene(c, s)
    if ps is None:
        return c.ok()                       # by the argument parser
    bad = unsure = None
    for p in ps:
        got = status(p) if p.kind == 'raise' else 0
        if got == 'exception':
            continue                        # reported by the main program
        if got is None:
            why = f'ends with the exit status {p.value!r}'[:150]
        elif got == 0:
            why = 'succeeds' if p.kind == 'return' else 'exits with status zero'
            if p.kind == 'return' and not (is_const(p.value) and not cval(p.value)):
                if is_const(p.value) and isinstance(cval(p.value), int) and cval(p.value) % 256 and said(p.trace):
                    continue
                if not is_const(p.value):
                    unsure = f'returns {p.value!r}'[:150]
                    continue
        elif not said(p.trace) and got != 'text':
            why = 'says nothing to the error output'
        else:
            continue
        if undecided(p) or got is None:
            unsure = why
        else:
            bad = bad or (why, p)
    verdict(c, s, 'to be refused', bad, unsure)


def succeeds(c, s):
    ps = scene(c, s)
    if ps is None:
        return c.violation(s.cmd, f'{s}: the arguments are refused')
    bad = unsure = None
    for p in ps:
        if p.kind == 'return' and code(p.value) == 0:
            continue
        got = code(p.value) if p.kind == 'return' else status(p)
        if p.kind == 'raise' and got == 0:
            continue
        why = f'ends with {p.value!r}'[:150]
        if undecided(p) or got is None:
            unsure = why
        else:
            bad = bad or (why, p)
    verdict(c, s, 'to succeed', bad, unsure)


def verdict(c, s, expected, bad, unsure):
    if bad:
        c.violation(s.cmd, f'{s} has {expected} but it {bad[0]}', bad[1].trace)
    elif unsure:
        c.inconclusive(s.cmd, f'{s} has {expected}: {unsure}')
    else:
        c.ok(1, f'{s} has {expected}')


def refusals():
    i, n, other, unknown = const('i'), const('n'), const('new'), const('unknown')
    bad = dict(valid=False, what='invalid workspace')
    for name in ('', 'a:b', 'a\\b', 'x/y'):
        yield Scene('new', [WS], name=name, what=f'workspace name {name!r}')
    yield Scene('new', [WS], exists=True, what='existing directory')
    for more in ([], [WS], ['--review'], [('-t', T0)], [('--time', T0)]):
        given = 9 if ('-t', T0) in more or ('--time', T0) in more else None
        yield Scene('edit', [unknown] + more, given=given, what='unknown bead')
        yield Scene('edit', [n] + more, beads='', given=given, what='no beads at all')
        yield Scene('edit', [n] + more, boxes=(), beads='', given=given, what='no boxes')
        yield Scene('edit', [n] + more, damaged=True, given=given, what='damaged bead')
        yield Scene('edit', [n] + more, isfile=True, damaged=True, given=given, what='damaged archive file')
        yield Scene('edit', [n] + more, exists=True, given=given, what='existing directory')
    yield Scene('edit', [n, ('-t', T0)], given=1, what='no bead that old')
    for more in ([], [const('box 1')]):
        yield Scene('save', more, **bad)
        yield Scene('save', more, boxes=(1,), store='bead.exceptions.BoxError', what='the box refuses')
    yield Scene('save', [const('box 2')], store='bead.exceptions.BoxError', what='the box refuses')
    yield Scene('save', [const('box 3')], what='unknown box')
    yield Scene('save', [const('box 3')], boxes=(), what='unknown box, none defined')
    yield Scene('save', [const('box 3')], boxes=(1,), what='unknown box, one is defined')
    yield Scene('save', [], what='two boxes')
    yield Scene('save', [], boxes=(1, 2, 3), what='three boxes')
    for cmd in ('discard', 'nuke'):
        yield Scene(cmd, [], **bad)
        yield Scene(cmd, [WS], **bad)
    for words in ([i], [other, n], [other, n, ('-t', T0)]):
        yield Scene('input add', words, given=9, **bad)
    for nick in ('', 'a/b', '.', '..'):
        yield Scene('input add', [const(nick), n], what=f'input name {nick!r}')
    for words in ([unknown], [other, unknown], [other, n, ('-t', T0)]):
        yield Scene('input add', words, given=1, what='unknown bead')
    for cmd in ('input delete', 'input rm'):
        yield Scene(cmd, [i], **bad)
        yield Scene(cmd, [unknown], what='unknown input')
        yield Scene(cmd, [unknown], inputs=[], what='no inputs')
    up = 'input update'
    for words in ([], [i], [i, n], [i, '-N'], [i, '--prev'], [i, ('-t', T0)], [unknown]):
        yield Scene(up, words, given=9, **bad)
        if words and words[0] is i:
            yield Scene(up, [unknown] + words[1:], given=9, what='unknown input')
            yield Scene(up, [unknown] + words[1:], given=9, inputs=[], what='no inputs')
    for more in ([], ['-N'], ['-P'], ['--next'], ['--prev'], [('-t', T0)]):
        yield Scene(up, [const('lost')] + more, given=9, what='no bead of its kind')
        yield Scene(up, [i] + more, boxes=(), beads='', given=9, what='no boxes')
    yield Scene(up, [i, '-N'], beads='b:n:K:5:1 a:n:K:3:1', what='no newer bead')
    yield Scene(up, [i, '-P'], beads='b:n:K:5:1 d:n:K:9:1', what='no older bead')
    yield Scene(up, [i, ('-t', T0)], given=0, what='no bead that old')
    yield Scene(up, [i, unknown], what='unknown bead')
    yield Scene(up, [i, n, ('-t', T0)], given=1, what='no bead that old')
    for f in ('-N', '-P', '--next', '--prev', '--previous'):
        yield Scene(up, [i, f, ('-t', T0)], given=7, what='both an offset and a time')
        yield Scene(up, [i, n, f], what='an offset with another bead')
        yield Scene(up, [f], what='an offset for all inputs')
    for words in ([i], []):
        yield Scene('input load', words, **bad)
        yield Scene('input unload', words, **bad)
    yield Scene('input load', [unknown], what='unknown input')
    yield Scene('input load', [unknown], inputs=[], what='no inputs')


def successes():
    i, j, n, other = const('i'), const('j'), const('n'), const('new')
    for name in ('w', 'a-b', 'a b', '1'):
        yield Scene('new', [WS], name=name, what=f'workspace name {name!r}')
    for more in ([], [WS], ['--review'], [('-t', T0)]):
        yield Scene('edit', [n] + more, given=6, what='known bead')
    for more, boxes in (([], (1,)), ([const('box 1')], (1,)), ([const('box 2')], (1, 2)), ([], ())):
        yield Scene('save', more, boxes=boxes, beads='', what=f'{len(boxes)} boxes')
    for cmd in ('discard', 'nuke'):
        yield Scene(cmd, [], exists=True, what='valid workspace')
        yield Scene(cmd, ['--force'], exists=True, valid=False, what='invalid workspace')
        yield Scene(cmd, ['-f'], exists=True, what='valid workspace')
    for words in ([const('o')], [other, n], [other, n, ('-t', T0)]):
        yield Scene('input add', words, given=9, what='known bead')
    for cmd in ('input delete', 'input rm'):
        yield Scene(cmd, [i], what='known input')
        yield Scene(cmd, [j], what='known input, loaded')
    for words in ([], [i], [i, n], [i, '-N'], [i, '-P'], [i, ('-t', T0)], [j], [('-t', T0)]):
        yield Scene('input update', words, given=6, what='known inputs and beads')
    for words in ([], [i], [j]):
        yield Scene('input load', words, what='known inputs')
        yield Scene('input unload', words, what='known inputs')


def refused(c):
    for s in refusals():
        refuses(c, s)


def accepted(c):
    for s in successes():
        succeeds(c, s)


def results(c):
    """whatever a command does, when it comes to its end its result is not a failing status"""
    for name, cls in sorted(cli.commands(c.a).items()):
        k, f = c.a.class_lookup(cls, 'run')
        c.anchor(f is not None and f.op == 'func', f'{name}: run')
        slf = sym('self')
        try:
            ps = c.run(f, [ARGS, ENV], selfT=slf, types={slf: cls, ENV: ENVIRONMENT, WS: WORKSPACE}, excs=set(), merge_limit=64,
                       stops={ENVIRONMENT + '.get_boxes': 'list:' + BOX, **FLUENT, BOX + '.store': 'pure',
                              'bead.box_index.BoxIndex*': 'pure', WORKSPACE + '.load': 'stop', WORKSPACE + '.create': 'stop',
                              'bead_cli.web.commands.parse_commands': 'pure', **FSOPS, **HASH})
        except Inconclusive as e:
            c.inconclusive(name, e)
            continue
        for p in ps:
            if p.kind == 'return':
                if code(p.value) is None and p.value.op not in ('list', 'dict'):
                    c.inconclusive(name, f'returns {p.value!r}'[:120])
                else:
                    c.require(code(p.value) == 0, cls + '.run', f'the command "{name}" returns {p.value!r} which becomes the exit status of a success', p.trace)


def check(c):
    c.assumptions += [
        'argparse refuses command lines with SystemExit and the interpreter maps exceptions and SystemExit to statuses as documented',
        'box, web and status commands and inputs whose bead is missing or damaged only warn, by design',
        'one invalid name, one unknown name, two boxes and five beads stand for all such']
    c.rule('program', 'every command is reached from the main program and the way it ends decides the exit status', top)
    c.rule('handlers', 'failures of the failure handlers do not turn failures into successes', handlers)
    c.rule('refused', 'refusals write to the error output and exit with a non-zero status', refused, 300)
    c.rule('accepted', 'commands in good order exit with status zero', accepted, 200)
    c.rule('results', 'results of commands are no failing statuses', results)
