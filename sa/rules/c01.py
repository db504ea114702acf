"""Must-pass-through analysis of the commands edit, input add, input load and
input update: on every path of the command (loops to a fixpoint) each
extraction of an archive is preceded by a successful verification of the same
archive file, and removal of loaded data is preceded by a verification whose
archive has not been loaded yet."""
from ..cli import run_command, WS
from ..flow import flow, effects, events, within
from ..std import *
from ..terms import *

COMMANDS = ('edit', 'input add', 'input load', 'input update')
STOPS = {**EXTRACT, **SEARCH, **FSOPS, **HASH, ARCHIVE + '.validate': validate_stop}


def zip_key(t):
    if t.op == 'call' and t.a[0] == 'zipfile.ZipFile' and t.a[1]:
        return t.a[1][0]


def extraction(ev):
    """-> key of the archive something is taken out of"""
    if ev.kind == 'call' and ev.fn == '@extract':
        return ev.args[0]
    if ev.kind == 'mcall' and ev.fn in ('open', 'extract', 'extractall', 'read') and ev.args:
        k = zip_key(ev.args[0])
        if k is not None:
            m = ev.args[1] if len(ev.args) > 1 else None
            for x in (walk(m) if m is not None else ()):
                if is_const(x) and isinstance(cval(x), str) and cval(x).startswith('meta/'):
                    return None
            return k


def removal(ev, ws_dir):
    """-> path removed below the input folder (the folder of an input)"""
    if ev.kind == 'call' and ev.fn == FS + '.rmtree':
        p = ev.args[0]
    else:
        ps = [e.path for e in effects(ev) if e.kind in ('rmtree', 'delete')]
        if not ps:
            return None
        p = ps[0]
    if p is not None and within(p, ws_dir):
        return p


def check_command(c, name):
    ws_dir = attr(WS, 'directory')
    paths = run_command(c, name, stops=STOPS,
                        excs={'LookupError', 'bead.exceptions.InvalidArchive', 'OSError'})
    n_ext = 0
    for p in paths:
        bad = []

        def step(s, ev):
            verified, fresh, started = s
            if ev.kind == 'loop' and ev.res is not None:
                keep = frozenset(k for k in verified if not contains(k, ev.res))
                return [(keep, keep & fresh, False)]
            if ev.kind == 'call' and ev.fn == '@verified':
                return [(verified | {ev.args[0]}, fresh | {ev.args[0]}, started)]
            k = extraction(ev)
            if k is not None:
                if k not in verified:
                    bad.append((ev, f'archive {k!r} is unpacked without having been verified before'))
                return [(verified, fresh - {k}, True)]
            r = removal(ev, ws_dir)
            if r is not None and not started:
                if not fresh:
                    bad.append((ev, f'{r!r} is removed before a verified replacement is at hand'))
                return [(verified, frozenset(), started)]

        flow(p.trace, [(frozenset(), frozenset(), False)], step)
        k = sum(1 for e in events(p.trace) if extraction(e) is not None)
        n_ext += k
        if bad:
            for ev, msg in bad:
                c.violation(f'{name} at {ev.site}', msg, p.trace)
        elif k:
            c.ok(k, f'{name}: {k} extraction(s) after verification on a path ending with {p.kind}')
    c.cov['extractions'] += n_ext
    c.anchor(n_ext, f'{name} never unpacks anything')


def check(c):
    c.rule('verify-before-unpack', 'extraction and removal only after verification of the same archive', lambda _: [
        check_command(c, n) for n in COMMANDS])
    c.assumptions = ['the same archive file is not replaced between verification and extraction (no concurrent writer)',
                     'verification itself is decided by C02']
