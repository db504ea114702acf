"""Scenario interpretation of the status command.  It is interpreted for workspaces with
inputs in every situation - loaded or not, with the bead in one, another, both or no
box, with older and newer beads of the same kind around it, renamed beads - and the
text which it prints is put together.  The lines about an input are those from its
name to that of the next; what they say is compared with the scenario: the state lines
learnt from pairs of scenarios which differ in nothing but the input being loaded, the
name of the bead which has the content id, and the boxes which have that bead or older
ones of the same kind, each in its own wording and with its own freeze time."""
import re

from .. import cli
from ..bulletin import BOX, Boxes
from ..cli import ARGS, ENV, WS
from ..commandline import declarations, parse
from ..engine import AnchorLost, Inconclusive
from ..flow import events
from ..graphs import undecided
from ..ordering import Undecided
from ..std import *
from ..terms import *

ENVIRONMENT = 'bead_cli.environment.Environment'
STATUS = 'bead status'


class Unclear(Inconclusive):
    pass


def text(t, order):
    if is_const(t):
        return str(cval(t))
    if t.op == 'cat':
        return ''.join(text(x, order) for x in t.a)
    if t.op == 'path':
        return '/'.join(text(x, order) for x in t.a)
    if t.op == 'strof' or t.op == 'call' and t.a[0] in ('builtins.str', 'builtins.format'):
        return text(t.a[0] if t.op == 'strof' else t.a[1][0], order)
    try:
        k, v = order.rank(t)
    except Undecided:
        raise Unclear(f'text {t!r}'[:120])
    return v if k == 'const text' else f'«{v}»' if k in ('time text', 'time') else f'<{v}>'


def output(p, order):
    out = ''
    for x in events(p.trace):
        if x.kind in ('call', 'mcall', 'query') and x.fn == 'builtins.print':
            to = x.kwarg('file')
            if to is not None and 'stderr' in repr(to):
                continue
            sep, end = (text(x.kwarg(k), order) if x.kwarg(k) is not None else d for k, d in (('sep', ' '), ('end', '\n')))
            out += sep.join(text(a, order) for a in x.args) + end
        elif x.fn in ('sys.stdout.write', 'write') and x.kind in ('call', 'mcall', 'query') and ('stdout' in repr(x.args[0]) or x.fn == 'sys.stdout.write'):
            out += text(x.args[-1], order)
    return out


def status(c, beads, inputs, verbose=False, valid=True, boxes=(1, 2)):
    """[(path, printed text)]"""
    w = Boxes(beads, inputs, boxes=boxes)
    opts = w.options(c.a)

    def script(e, st):
        found, cmd, st = declarations(e, cli.command(c, 'status'), st)
        vals = parse(found, ['-v'] if verbose else [])
        if vals is None:
            raise AnchorLost('arguments of status')
        for d, v in vals.items():
            st.overlay[attr(ARGS, d)] = WS if d == 'workspace' else v
        st.overlay[attr(WS, 'is_valid')] = const(valid)
        st.overlay[attr(WS, 'name')] = const('workname')
        st.overlay[attr(WS, 'kind')] = const('workkind')
        st.overlay[attr(WS, 'inputs')] = e.new_container('list', [('item', w.input(i[0])) for i in inputs], st)
        r, st = e.get_attr(cmd, 'run', st)[0]
        return e.call(r, [ARGS, ENV], [], st, None)
    stops = dict(w.stops(), **{WORKSPACE + '.inputs': 'pure', WORKSPACE + '.kind': 'pure', WORKSPACE + '.name': 'pure', WORKSPACE + '.is_valid': 'pure'})
    ps = c.run(script, types={WS: WORKSPACE, ENV: ENVIRONMENT, **{b: BOX for b in w.boxes.values()}}, stops=stops, excs=set(), unroll=32, max_recursion=6, **opts)
    c.cov['scenarios'] += 1
    return [(p, output(p, w.o) if p.kind == 'return' else '') for p in ps]


def block(out, nick, nicks):
    """the lines about an input"""
    lines = out.split('\n')
    first = {}
    for i, l in enumerate(lines):
        for n in nicks:
            if n in l:
                first.setdefault(n, i)
    if nick not in first:
        return None
    end = min([i for i in first.values() if i > first[nick]] or [len(lines)])
    return lines[first[nick]:end]


# what is searched for: the input 'nick1' is of the bead 'x', of kind K, frozen at 5
INPUT = ('nick1', 'x', 'K', 5)
OTHER = ('nick2', 'y', 'L', 7)
BEADS = ['', 'x:real:K:5:1', 'x:real:K:5:2', 'x:real:K:5:1 x:real:K:5:2', 'o:older:K:3:1 x:real:K:5:1 n:newer:K:9:1', 'n:newer:K:9:1 x:real:K:5:2 o:older:K:3:1',
         'o:older:K:3:2 p:elder:K:2:2 q:even:K:4:2', 'n:newer:K:9:1 m:later:K:6:2', 'o:older:L:3:1 p:elder:M:5:2', 'o:older:K:3:1 p:elder:K:4:2 z:nick1:L:5:1',
         'p:elder:K:4:1 x:real:K:5:2 y:other:L:7:1', 'y:other:L:7:2 x:real:K:5:2 p:elder:L:7:1', 'x:real:K:5:1 p:elder:K:5:2', 'o:older:K:1:1 p:elder:K:2:1 y:other:L:7:1 y:other:L:7:2']


def truth(beads, i):
    """name of the bead, {box: (is it the very bead?, time)}"""
    _, content, kind, time = i
    beads = [w.split(':') for w in beads.split()]
    name = next((n for id, n, k, t, b in beads if id == content), None)
    boxes = {}
    for id, n, k, t, b in beads:
        if k == kind and int(t) <= time and (int(b) not in boxes or int(t) > boxes[int(b)][1]):
            boxes[int(b)] = (id == content, int(t))
    return name, boxes


NAMES = ('real', 'older', 'newer', 'elder', 'even', 'later', 'other')


class Words:
    """how things are said, learnt from the scenarios"""

    def __init__(self):
        self.state = {}         # loaded -> line
        self.box = {}           # exact? -> template of a line
        self.none = []          # lines when no box has a bead for the input
        self.hint = {}          # some input is not loaded? -> lines


def template(line, box, time):
    return line.replace(f'box {box}', 'BOX').replace(f'«{time}»', 'TIME')


def about(lines, words, loaded, name, boxes, all_boxes):
    """complaint about the lines of an input"""
    for is_loaded, l in words.state.items():
        if (l in lines) != (is_loaded == loaded):
            return f'it is {"" if loaded else "not "}loaded, which is {"" if (l in lines) else "not "}shown as {l.strip()!r}'
    for l in words.none:
        if (l in lines) != (not boxes):
            return f'{l.strip()!r} is {"" if l in lines else "not "}shown, {len(boxes)} boxes have a bead for it'
    said = [n for n in NAMES if any(n in l for l in lines)]
    if said != ([name] if name else []):
        return f'the bead is called {" and ".join(said) or "nothing"} instead of {name or "nothing (it is not known)"}'
    for b in all_boxes:
        here = [l for l in lines if f'box {b}' in l]
        if b not in boxes:
            if here:
                return f'box {b} is shown, which has no bead for it'
            continue
        exact, time = boxes[b]
        if len(here) != 1:
            return f'box {b}, which has {"the bead" if exact else "an older bead of the kind"}, is shown {len(here)} times'
        t = template(here[0], b, time)
        if words.box.setdefault(exact, t) != t:
            return f'box {b}, which has {"the bead" if exact else "an older bead of the kind"} of time {time}, is shown as {here[0].strip()!r}'


def show(c, paths, what, check):
    bad = unsure = None
    good = 0
    for p, out in paths:
        why = f'fails with {p.value!r}'[:150] if p.kind == 'raise' else check(out)
        if not why:
            good += 1
        elif undecided(p):
            unsure = why
        else:
            bad = bad or (why, p)
    if bad:
        c.violation(STATUS, f'{what}: {bad[0]}'[:300], bad[1].trace)
    elif unsure or not good:
        c.inconclusive(STATUS, f'{what}: {unsure or "no path returns"}'[:200])
    else:
        c.ok(1, what)


# beads: the one searched for in a box, and with a name but none of the kind
ONE, NONE_OF_KIND = 'x:real:K:5:1', 'x:real:L:5:1'
NEGATED = re.compile(r'\bnot\b[ -]*loaded', re.I)
NOTHING = re.compile(r'\bno (candidate|bead|match|box)', re.I)


def learn(c, words):
    """how an input is said to be loaded"""
    got, traces = {}, {}
    for beads, loaded in ((ONE, True), (ONE, False), (NONE_OF_KIND, True)):
        ps = [(p, o) for p, o in status(c, beads, [(*INPUT, loaded)]) if p.kind == 'return' and not undecided(p)]
        if len({o for _, o in ps}) != 1:
            raise Inconclusive('status of a loaded input')
        got[beads, loaded] = block(ps[0][1], 'nick1', ['nick1'])
        traces[beads, loaded] = ps[0][0].trace
        if got[beads, loaded] is None:
            c.violation(STATUS, 'an input is not shown', ps[0][0].trace)
            return False
    for loaded in (True, False):
        mine = [l for l in got[ONE, loaded] if l not in got[ONE, not loaded]]
        if mine:
            words.state[loaded] = mine[0]
            words.hint[not loaded] = [l for l in mine[1:] if not re.search('[0-9]', l)]
    words.none = [l for l in got[NONE_OF_KIND, True] if l not in got[ONE, True] and not re.search('[0-9]', l)]
    c.require(bool(words.none), STATUS, 'it is not shown that no box has a bead for an input', traces[NONE_OF_KIND, True])
    for (beads, loaded), lines in got.items():
        for l in lines:
            if loaded and NEGATED.search(l):
                c.violation(STATUS, f'of a workspace with nothing but loaded inputs it is said {l.strip()!r}', traces[beads, loaded])
            if beads == ONE and NOTHING.search(l):
                c.violation(STATUS, f'of an input with a bead in a box it is said {l.strip()!r}', traces[beads, loaded])
    if len(words.state) != 2:
        c.violation(STATUS, 'loaded inputs are shown like those which are not loaded')
        return False
    return True


def inputs(c):
    words = Words()
    if not learn(c, words):
        return
    for verbose in (False, True):
        for beads in BEADS:
            for loaded in (True, False):
                what = f'input of x (kind K, time 5), {"" if loaded else "not "}loaded, beads "{beads}"{", verbose" if verbose else ""}'
                for all_boxes in ((1, 2), (2, 1)):
                    ps = status(c, beads, [(*INPUT, loaded)], verbose, boxes=all_boxes)
                    show(c, ps, what, lambda o: one(o, ['nick1'], words, {'nick1': (loaded, *truth(beads, INPUT))}, all_boxes, verbose))
    # several inputs: each has lines of its own
    for beads in BEADS:
        for a in (True, False):
            for b in (True, False):
                for order in (1, -1):
                    want = {'nick1': (a, *truth(beads, INPUT)), 'nick2': (b, *truth(beads, OTHER))}
                    show(c, status(c, beads, [(*INPUT, a), (*OTHER, b)][::order]), f'two inputs, beads "{beads}"',
                         lambda o: one(o, ['nick1', 'nick2'], words, want, (1, 2), False))
    if True in words.box and False in words.box:
        c.require(not ('kind' in words.box[True] and 'kind' not in words.box[False]), STATUS,
                  f'boxes with the very bead are shown as {words.box[True].strip()!r}, those with another one of the kind as {words.box[False].strip()!r}')
        c.require(words.box[True] != words.box[False], STATUS, f'boxes with the very bead and those with another one of its kind are both shown as {words.box[True].strip()!r}')


def one(out, nicks, words, want, all_boxes, verbose):
    waiting = not all(w[0] for w in want.values())
    for some, ls in words.hint.items():
        for l in ls:
            if (l in out.split('\n')) != (some == waiting):
                return f'{l!r} is {"" if l in out else "not "}shown, {"some" if waiting else "none"} of the inputs are not loaded'
    for n in nicks:
        lines = block(out, n, nicks)
        if lines is None:
            return f'{n} is not shown'
        bad = about(lines, words, *want[n], all_boxes)
        if bad:
            return f'{n}: {bad}'
        if verbose:
            i = INPUT if n == 'nick1' else OTHER
            for x in (f'content {i[1]}', f'kind {i[2]}'):
                if not any(x in l for l in lines):
                    return f'{n}: its {x.split()[0]} is not shown'


def workspace(c):
    for verbose in (False, True):
        show(c, status(c, '', [], verbose), f'no inputs{", verbose" if verbose else ""}',
             lambda o: 'the name of the bead is not shown' if 'workname' not in o else 'its kind is not shown' if verbose and 'workkind' not in o else
             'an input is shown' if 'nick' in o else None)
        for p, o in status(c, 'x:real:K:5:1', [(*INPUT, True)], verbose, valid=False):
            if ('nick1' in o or 'workname' in o) and not undecided(p):
                c.violation(STATUS, 'an invalid workspace is shown like a valid one', p.trace)
            else:
                c.ok()


def check(c):
    c.rule('inputs', 'what is shown of an input is the case', inputs)
    c.rule('workspace', 'what is shown of the workspace is the case', workspace)
    c.assumptions += ['what searches find is the subject of C14 and C15, what being loaded means that of C11', 'up to two boxes and inputs stand for all',
                      'an input is shown in lines of its own, from the one with its name on']
