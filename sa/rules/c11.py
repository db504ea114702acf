"""Typestate of the folder of the input over every path of loading, with a
failure or interruption possible at every call: absent, partial (from the start
of unpacking into it) and complete (only when loading returns).  No failing
exit may be reachable in state partial; it is left only by a removal able to
remove protected data, or by having observed that the folder does not exist."""
from ..engine import Inconclusive
from ..flow import flow, effects, events, within
from ..std import *
from ..terms import *
from ..terms import T
from .c10 import WSX, AR, DIR, INPUT, NICK, META, modes_set, store
from ..modes import mode, effect

REMOVERS = ('shutil.rmtree', FS + '.rmtree')


def gone(ev):
    """observation that the folder is not there"""
    if ev.kind != 'assume' or not isinstance(ev.fn, T) or ev.x is not False:
        return False
    t = ev.fn
    return t.op == 'mcall' and t.a[1] in ('exists', 'lexists', 'is_dir') and t.a[0] is NICK or t.op == 'call' and t.a[0] in (
        'os.path.exists', 'os.path.isdir', 'os.path.lexists') and t.a[1] and t.a[1][0] is NICK


def automaton(p):
    def step(s, ev):
        status, protected, pending, exempt = s
        if pending is not None:
            if ev.kind == 'raise':
                exempt = True   # a removal that fails can not be helped; failing to protect the folder of inputs comes after complete data
            elif pending == 'removal':
                status = 'absent'
            pending = None
        if ev.kind == 'call' and ev.fn == '@extract':
            if len(ev.args) > 2 and within(ev.args[-1], NICK):
                status = 'partial'
        elif ev.kind == 'call' and ev.fn in REMOVERS and ev.args:
            if ev.args[0] is NICK and (ev.fn.startswith(FS) or not protected):
                pending = 'removal'
        elif gone(ev):
            status = 'absent'
        elif ev.kind in ('call', 'mcall', 'query') and ev.args and ev.args[0] is INPUT and isinstance(ev.fn, str) and ev.fn.rpartition('.')[2] in ('stat', 'chmod'):
            pending = 'folder'
        else:
            for x in effects(ev):
                if x.path is None:
                    continue
                if x.kind == 'chmod' and contains(x.path, NICK):
                    protected = True
                elif x.kind == 'rename' and x.path is NICK:
                    status = 'absent'
                elif x.kind in ('write', 'mkdir', 'extract') and within(x.path, NICK):
                    status = 'partial'
        return [(status, protected, pending, exempt)]
    return flow(p.trace, [('absent', False, None, False)], step)


def load(c):
    opts = store(META)
    opts['stops'] = {**opts['stops'], FS + '.rmtree': 'stop', FS + '.all_subpaths': 'pure'}
    paths = c.run(c.func(WORKSPACE + '.load'), [const('nick'), AR], selfT=WSX, types={WSX: WORKSPACE, AR: ARCHIVE}, exc_all=True, ki=True, **opts)
    partial = 0
    for p in paths:
        if p.kind != 'raise':
            continue
        ends = automaton(p)
        bad = [e for e in ends if e[0] == 'partial' and e[2] != 'removal' and not e[3]]
        partial += any(e.kind == 'call' and e.fn == '@extract' for e in events(p.trace))
        c.require(not bad, 'Workspace.load', f'fails with {p.value!r} and leaves partial data in the folder of the input', p.trace,
                  what=f'{p.value!r} after {len(p.trace)} events')
    done = [p for p in paths if p.kind == 'return']
    if not done:
        c.violation('Workspace.load', 'never completes', paths[0].trace)
    for p in done:
        c.require(any(s[0] == 'partial' for s in automaton(p)), 'Workspace.load', 'completes without data in the folder of the input', p.trace)
    c.cov['failures after the start of unpacking'] = partial
    if done and not partial:
        raise Inconclusive('no failure is possible while unpacking')


def check(c):
    c.rule('partial', 'no failing exit of load leaves the folder of the input partially filled', load)
