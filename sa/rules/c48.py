"""Scenario interpretation of saving.  The save command is interpreted with no, one and
several known boxes, with and without the name of a box and of a workspace, and with a
box which refuses: on every path the stores that happen have to be exactly the one
which was asked for - of the workspace of the command, at the present moment, in the
named or the only box - and none when the box is not known or not determined.  A box
defined on the way is saved in the list of boxes."""
from ..cli import WS
from ..commandline import declarations, parse
from ..flow import events
from ..graphs import undecided
from ..std import *
from ..terms import *
from .c30 import Scene, scene

NOW = 'bead.tech.timestamp.timestamp'
GIVEN = ('-w', WS)
NAMES = {1: 'box', 2: 'Box', 3: 'box-2', 4: 'home', 9: 'home'}
UNKNOWN = ('bo', 'BOX', 'box-', ' box', 'ox', 'home')


def stores(p):
    return [x for x in events(p.trace) if x.kind == 'call' and x.fn == '@stored']


def judge(c, s, want):
    """want: number of the box, or None when nothing may be stored"""
    ps = scene(c, s)
    if ps is None:
        return c.violation('save', f'{s}: the arguments are refused')
    for p in ps:
        got = stores(p)
        if want is None:
            bad = f'stores in {got[0].args[0]!r}' if got else None
        elif not got:
            bad = 'stores nothing' if p.kind == 'return' else None
        elif len(got) > 1:
            bad = 'stores more than once'
        else:
            box, *rest = got[0].args + tuple(v for _, v in got[0].kw or ())
            bad = f'stores in {box!r}' if box is not sym(f'box {want}') else None
            if not bad and (len(rest) < 1 or rest[0] is not WS):
                bad = f'stores {rest[:1]!r}, not the workspace of the command'
            if not bad and not (len(rest) > 1 and rest[1].op == 'call' and rest[1].a[0] == NOW):
                bad = f'stores with the freeze time {rest[1:2]!r}'
            if not bad and want == 9 and p.kind == 'return':
                names = [x.fn for x in events(p.trace) if x.kind == 'call' and x.fn in ('@defined', '@remembered')]
                if '@remembered' not in names[names.index('@defined') if '@defined' in names else 0:]:
                    bad = 'does not save the list of boxes with the new box'
        if bad and undecided(p):
            c.inconclusive('save', f'{s} {bad}')
        elif bad:
            return c.violation('save', f'{s} {bad}'[:300], p.trace)
    if want is not None and not s.store:
        c.require(any(p.kind == 'return' for p in ps), 'save', f'{s} never succeeds', ps[0].trace)
    c.ok(1, f'{s}')


def known(k):
    return 'known: ' + (', '.join(NAMES[n] for n in k) or '(none)')


def boxes(c):
    for more in ([], [GIVEN]):
        for n, k in ((1, (1,)), (2, (2,)), (9, ())):
            judge(c, Scene('save', more, boxes=k, names=NAMES, what=known(k)), n)
        for k in ((1,), (1, 2), (2, 1), (1, 2, 3), (3, 2, 1), (1, 4), (4,)):
            for n in k:
                judge(c, Scene('save', [const(NAMES[n])] + more, boxes=k, names=NAMES, what=known(k)), n)
                judge(c, Scene('save', [const(NAMES[n])] + more, boxes=k, names=NAMES, store='bead.exceptions.BoxError', what=known(k) + ', the box refuses'), n)


def nowhere(c):
    for more in ([], [GIVEN]):
        for k in ((1, 2), (1, 2, 3), (4, 1), (1, 4)):
            judge(c, Scene('save', more, boxes=k, names=NAMES, what=known(k)), None)
        for k in ((), (1,), (3,), (1, 2, 3)):
            for name in UNKNOWN:
                judge(c, Scene('save', [const(name)] + more, boxes=k, names=NAMES, what=f'"{name}" is unknown, ' + known(k)), None)
            for n in k:
                judge(c, Scene('save', [const(NAMES[n])] + more, boxes=k, names=NAMES, valid=False, what='invalid workspace, ' + known(k)), None)


def unreachable(c):
    """boxes whose folder is not there at the moment are known all the same"""
    for more in ([], [GIVEN]):
        for k, away in (((1, 2), (2,)), ((1, 2), (1,)), ((1, 2, 3), (1, 3)), ((1, 2), (1, 2))):
            judge(c, Scene('save', more, boxes=k, names=NAMES, away=away, what=known(k) + ', not reachable: ' + ', '.join(NAMES[i] for i in away)), None)
            for n in k:
                if n not in away:
                    judge(c, Scene('save', [const(NAMES[n])] + more, boxes=k, names=NAMES, away=away, what=known(k) + ', not reachable: ' + ', '.join(NAMES[i] for i in away)), n)


def check(c):
    c.rule('box', 'the workspace of the command is stored once, now, in the box asked for', boxes)
    c.rule('nowhere', 'nothing is stored when the box or the workspace is not determined', nowhere)
    c.rule('unreachable', 'nothing else is stored into when the folder of a box is not there', unreachable)
    c.assumptions += ['up to three boxes stand for all', 'what storing does is the subject of C04 to C07 and C18, what known boxes are that of C23']
