"""Scenario interpretation of the commands which load and unload inputs.  The commands
are interpreted for workspaces with three inputs, each of which is loaded already, can
be loaded, has no bead in any box, or has a damaged bead, in every combination, for one
and for all inputs chosen.  On every path the inputs that are loaded and unloaded have
to be exactly those which the specification gives, in spite of what is wrong with the
others, and the inputs that could not be loaded have to be named in what is printed."""
import itertools

from .. import cli
from ..bulletin import Boxes
from ..engine import AnchorLost, Inconclusive
from ..flow import events
from ..graphs import undecided
from ..std import *
from ..terms import *
from ..terms import T as Term
from .c28 import scene, refused

# b, d: in the first and second box, j: in the second one
BEADS = 'q:b1:K:2:1 b:n:K:5:1 d:m:L:7:2 j:o:M:4:2 x:o:M:3:1 w:n:K:4:2'
CONTENT = dict(i='b', i2='d', j='j')
KIND = dict(i='K', i2='L', j='M')
STATES = ('loaded', 'ready', 'missing', 'damaged')
NICKS = tuple(CONTENT)


def world(states):
    inputs = [(n, 'gone ' + n if s == 'missing' else CONTENT[n], KIND[n], 5, s == 'loaded') for n, s in states.items()]
    return Boxes(BEADS, inputs), [CONTENT[n] for n, s in states.items() if s == 'damaged']


def nick(t):
    return cval(t) if is_const(t) else repr(t)


def output(p, w, n):
    """is the input named in what is printed"""
    names = (const(n), attr(w.input(n), 'name'))
    for x in events(p.trace):
        if x.kind in ('call', 'mcall') and (x.fn in ('builtins.print', 'sys.stderr.write', 'sys.stdout.write', 'bead_cli.common.die', 'bead_cli.common.warning') or x.fn == 'write'):
            for a in x.args:
                if isinstance(a, Term) and (any(contains(a, t) for t in names[1:]) or any(is_const(y) and isinstance(cval(y), str) and says(cval(y), n) for y in walk(a))):
                    return True
    return False


def says(text, n):
    import re
    return re.search(rf'(?<![A-Za-z0-9_]){n}(?![A-Za-z0-9_])', text) is not None


def judge(c, command, words, states, loads, unloads, named=(), want=None):
    w, damaged = world(states)
    ps = scene(c, cli.command(c, command), w, words, damaged=damaged)
    text = f'"{command} {" ".join(str(cval(x)) for x in words)}"'.replace(' "', '"') + f' with inputs {", ".join(f"{n} ({s})" for n, s in states.items())}'
    c.cov['scenarios'] += 1
    if refused(ps):
        c.violation(command, f'{text}: the arguments are refused')
        return
    bad = unsure = None
    for p in ps:
        evs = [x for x in events(p.trace) if x.kind == 'call' and x.fn.startswith('@')]
        got_l = sorted(nick(x.args[0]) for x in evs if x.fn == '@load')
        got_u = sorted({nick(x.args[0]) for x in evs if x.fn == '@unload'})
        why = None
        if p.kind == 'raise' and p.value.op == 'exc' and p.value.a[0] != 'SystemExit':
            why = f'fails with {p.value!r}'[:120]
        elif got_l != sorted(loads):
            why = f'loads {", ".join(got_l) or "nothing"} instead of {", ".join(loads) or "nothing"}'
        elif got_u != sorted(unloads):
            why = f'unloads {", ".join(got_u) or "nothing"} instead of {", ".join(unloads) or "nothing"}'
        elif any(x.fn in ('@add input', '@delete input') for x in evs):
            why = 'changes the definitions of inputs'
        else:
            for x in evs:
                if x.fn == '@load':
                    archive = next(b.archive for b in w.beads if b.id == CONTENT[nick(x.args[0])])
                    if x.args[1] is not archive:
                        why = f'loads another bead as {nick(x.args[0])}'
            for n in named:
                if not output(p, w, n):
                    why = f'does not say that {n} was not loaded'
        if why:
            und = undecided(p)
            if und:
                unsure = f'{text} {why}, if {und[0].fn!r}'[:240]
            else:
                bad = bad or (f'{text} {why}', p)
    if bad:
        c.violation(command, bad[0], bad[1].trace)
    elif unsure:
        c.inconclusive(command, unsure)
    else:
        c.ok()


def all_states(c):
    for s in itertools.product(STATES, repeat=3):
        if c.thorough or len(set(s)) > 1 or s[0] in ('ready', 'loaded'):
            yield dict(zip(NICKS, s))


def load(c):
    for states in all_states(c):
        judge(c, 'input load', [], states, [n for n in NICKS if states[n] == 'ready'], [], [n for n in NICKS if states[n] in ('missing', 'damaged')])
        for n in NICKS:
            judge(c, 'input load', [const(n)], states, [n] * (states[n] == 'ready'), [], [n] * (states[n] in ('missing', 'damaged')))
    judge(c, 'input load', [const('unknown')], dict.fromkeys(NICKS, 'ready'), [], [])
    judge(c, 'input load', [], {}, [], [])


def unload(c):
    for s in itertools.product(('loaded', 'ready'), repeat=3):
        states = dict(zip(NICKS, s))
        judge(c, 'input unload', [], states, [], [n for n in NICKS if states[n] == 'loaded'])
        for n in NICKS:
            judge(c, 'input unload', [const(n)], states, [], [n] * (states[n] == 'loaded'))
    judge(c, 'input unload', [const('unknown')], dict.fromkeys(NICKS, 'loaded'), [], [])
    judge(c, 'input unload', [], {}, [], [])


def damaged(c):
    """beads that are damaged replace nothing"""
    for s in itertools.product((True, False), repeat=3):
        for loaded in (True, False):
            inputs = [(n, 'old ' + n, KIND[n], 1, loaded) for n in NICKS]
            w = Boxes(BEADS, inputs)
            newest = {n: max((b for b in w.beads if b.kind == KIND[n]), key=lambda b: b.time).id for n in NICKS}
            bad = [newest[n] for n, x in zip(NICKS, s) if x]
            good = [n for n, x in zip(NICKS, s) if not x]
            for command, words in [('input update', [])] + [('input update', [const(n)]) for n in NICKS]:
                want = [n for n in good if not words or n == cval(words[0])]
                text = f'"{command} {" ".join(str(cval(x)) for x in words)}" with damaged beads for {", ".join(n for n in NICKS if n not in good) or "none"} of inputs {", ".join(NICKS)} (all {"" if loaded else "not "}loaded)'
                for p in scene(c, cli.command(c, command), w, words, damaged=bad):
                    evs = [x for x in events(p.trace) if x.kind == 'call' and x.fn.startswith('@')]
                    l = sorted(nick(x.args[0]) for x in evs if x.fn == '@load')
                    u = sorted({nick(x.args[0]) for x in evs if x.fn == '@unload'})
                    why = None
                    if p.kind == 'raise' and p.value.op == 'exc' and p.value.a[0] != 'SystemExit':
                        why = f'fails with {p.value!r}'[:120]
                    elif l != want:
                        why = f'loads {", ".join(l) or "nothing"} instead of {", ".join(want) or "nothing"}'
                    elif u != (want if loaded else []):
                        why = f'unloads {", ".join(u) or "nothing"}'
                    if not why:
                        c.ok()
                    elif undecided(p):
                        c.inconclusive(command, f'{text} {why}'[:240])
                    else:
                        c.violation(command, f'{text} {why}', p.trace)


def check(c):
    c.rule('load', 'loading loads exactly the chosen inputs that can be loaded and are not loaded yet, and names those which it can not load', load, 250)
    c.rule('unload', 'unloading unloads exactly the chosen inputs which are loaded', unload, 60)
    c.rule('damaged', 'updating with a damaged bead leaves the input as it is and does not keep others from being updated', damaged, 60)
    c.assumptions += ['two boxes and three inputs stand for all', 'what searches and loading do is the subject of other properties']
