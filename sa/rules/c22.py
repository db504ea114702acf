"""Names.  The conditions on a name under which a command goes on to record it
(creating, saving, adding and loading of inputs) and the conditions under which
archives and input definitions with that name are read are collected from the
paths of the code; that the first imply the second, and that both refuse the names that are
refused by definition, is decided over all texts by automata."""
from ..cli import run_command, WS
from ..engine import Ev, Inconclusive
from ..flow import events
from ..language import Conditions
from ..std import *
from ..terms import *
from ..terms import T
from . import c14, c21

NAME = c21.NAME
NICK = sym('nick')


def archives(c):
    """conditions under which the archive of a bead can be opened"""
    out = []
    for rest, (target, name, pattern, _) in c21.names(c).items():
        file = c21.subst(target, {name: NAME})

        def script(e, st):
            outs = []
            for a, s in e.call(e.lookup_qual(ARCHIVE), [file, const('B')], [], st, None):
                outs += e.get_attr(a, 'name', s)
            return outs
        for p in c.run(script, stops={'bead.zipopener.open': 'pure', PERSIST + '.file_load': 'pure', PERSIST + '.zip_load': 'pure'},
                       excs={'ValueError', 'bead.exceptions.InvalidArchive'}):
            if p.kind == 'return':
                out.append({c21.normal(t, NAME, pattern): b for t, b in c14.literals(p.trace).items()})
    if not out:
        raise Inconclusive('opening archives')
    return out


def definitions(c):
    """conditions under which the definition of an input is read"""
    w = sym('workspace')

    def load(e, qual, sargs, st, node):
        spec = e.new_container('dict', [('kv', const(k), sym(k)) for k in ('kind', 'content_id', 'freeze_time')], st)
        inputs = e.new_container('dict', [('kv', NICK, spec)], st)
        return [(e.new_container('dict', [('kv', const('kind'), sym('kind')), ('kv', const('inputs'), inputs)], st), st)]

    out = []
    def script(e, st):
        outs = []
        for v, s in e.get_attr(w, 'inputs', st):
            items = e.finite_list(v, s)
            if items is None or len(items) != 1:
                raise Inconclusive('reading of input definitions')
            outs += [(e.snap(n, s2), s2) for n, s2 in e.get_attr(items[0], 'name', s)]
        return outs

    for p in c.run(script, types={w: WORKSPACE}, stops={PERSIST + '.file_load': load}, excs=set()):
        if p.kind == 'return':
            c.require(p.value is NICK, 'reading of input definitions', f'the name read is {p.value!r} instead of the one recorded', p.trace)
            out.append(dict(c14.literals(p.trace)))
    if not out:
        raise Inconclusive('reading of input definitions')
    return out


def implied(c, what, text, given, wanted, var, trace, whatfor):
    cond = Conditions(var)
    given = {c21.subst(t, {text: var}): b for t, b in given.items()}
    x, skipped = cond.counterexample(given, wanted)
    if x is None:
        c.ok(what=what)
    elif skipped:
        raise Inconclusive(f'{what}: conditions {skipped!r}'[:200])
    else:
        c.violation(what, f'the name {x!r} is accepted, {whatfor}', trace)


def good(var):
    """the names the statement lets pass"""
    return [{**{mk('cmp', '==', *((const(x), var))): False for x in ('', '.', '..')}, **{mk('cmp', 'in', const(x), var): False for x in ('/', '__')}}]


def readers(c):
    """names that are refused at reading"""
    for what, conditions, var in (('name of an archive', archives(c), NAME), ('name of an input definition', definitions(c), NICK)):
        for given in conditions:
            implied(c, what, var, given, good(var), var, [], f'although the {what} is to be refused when it is empty, a dot, dot-dot or has a slash or a double underscore')


CROSS_PLATFORM = [{mk('cmp', 'in', const('\\'), NAME): False, mk('cmp', 'in', const(':'), NAME): False}]


def new(c):
    wanted = archives(c)
    n = 0
    name = attr(attr(WS, 'directory'), 'name')
    for p in run_command(c, 'new', stops={WORKSPACE + '.create': 'stop'}, excs=set()):
        evs = events(p.trace)
        if not any(ev.fn == WORKSPACE + '.create' for ev in evs):
            continue
        n += 1
        lits = before(p.trace, WORKSPACE + '.create')
        implied(c, 'new', name, lits, wanted, NAME, p.trace, 'archives with that name can not be opened')
        implied(c, 'new', name, lits, CROSS_PLATFORM, NAME, p.trace, 'with a backslash or a colon')
    if not n:
        raise Inconclusive('new')


def before(trace, fn):
    """literals assumed before the event"""
    out = {}
    for ev in events(trace):
        if ev.fn == fn:
            return out
        if ev.kind == 'assume':
            out[ev.fn] = ev.x
    return out


def save(c):
    wanted = archives(c)
    for name, target, ft, p in c21.stored(c):
        implied(c, 'saving', name, before(p.trace, '@pack'), wanted, NAME, p.trace, 'the archive saved can not be opened')


RECORD = (WORKSPACE + '.load', WORKSPACE + '.add_input')


def recorded(t, lits):
    """is the name that of an input defined already"""
    def of_definitions(x):
        return any(y.op == 'idx' and is_const(y.a[1]) and cval(y.a[1]) == 'inputs' for y in walk(x))
    if of_definitions(t):
        return True
    for l, b in lits.items():
        if l.op == 'cmp' and b and l.a[0] == 'in' and l.a[1] is t and of_definitions(l.a[2]):
            return True
        if l.op == 'cmp' and b and l.a[0] == '==' and t in l.a[1:] and any(of_definitions(x) for x in l.a[1:]):
            return True
    return False


def inputs(c):
    wanted = definitions(c)
    n = 0
    for command in ('input add', 'input load', 'input update'):
        k = 0
        for p in run_command(c, command, stops={**{r: 'stop' for r in RECORD}, ARCHIVE + '.validate': 'stop', **FLUENT, 'bead_cli.common.resolve_bead': 'pure'}, excs=set()):
            for ev in events(p.trace):
                if ev.fn not in RECORD:
                    continue
                nick = ev.args[1]
                lits = before(p.trace, ev.fn)
                k += 1
                if recorded(nick, lits):
                    c.ok(what=command)
                    continue
                if nick.op in ('obj', 'const'):
                    raise Inconclusive(f'{command} {nick!r}')
                implied(c, command, nick, lits, wanted, NICK, p.trace, 'the definitions of inputs can not be read afterwards')
        n += k
        if not k and command == 'input add':
            raise Inconclusive(command)


def check(c):
    c.rule('readers', 'names that are empty, dot, dot-dot or have a slash or a double underscore are refused when archives and input definitions are read', readers)
    c.rule('new', 'names of new beads: archives can be opened; no backslash, no colon', new)
    c.rule('save', 'beads are saved only with names whose archives can be opened', save)
    c.rule('inputs', 'names of inputs recorded can be read again', inputs)
    c.assumptions = ['letters outside ASCII are represented by a few samples in the automata']
