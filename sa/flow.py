"""Automata over event traces, and classification of events as effects."""
from .terms import T, mk, const, is_const, cval, walk, path, contains


def flow(trace, states, step):
    """Run a (nondeterministic) automaton over a trace.

    states: iterable of hashable states; step(state, event) -> iterable of
    states, or None when the event does not matter.  Loop bodies are iterated
    to a fixpoint (any number of iterations, any order of the iteration
    paths), alternatives are joined.
    """
    cur = frozenset(states)
    for ev in trace:
        if ev.kind == 'loop':
            seen = cur
            todo = cur
            while todo:
                nxt = frozenset()
                begin = set()
                for s in todo:          # a step sees the start of each iteration as the loop event
                    r = step(s, ev)
                    begin.update((s,) if r is None else r)
                for p in ev.x:
                    nxt |= flow(p.trace, begin, step)
                todo = nxt - seen
                seen |= nxt
            cur = seen
        elif ev.kind == 'alt':
            nxt = frozenset()
            for tr in ev.x:
                nxt |= flow(tr, cur, step)
            cur = nxt if ev.x else cur
        else:
            nxt = set()
            for s in cur:
                r = step(s, ev)
                if r is None:
                    nxt.add(s)
                else:
                    nxt.update(r)
            cur = frozenset(nxt)
    return cur


def events(trace, loops=True):
    """All events of a trace, including those in loops and alternatives."""
    for e in trace:
        yield e
        if e.kind == 'loop':
            for p in e.x:
                yield from events(p.trace)
        elif e.kind == 'alt':
            for tr in e.x:
                yield from events(tr)


def all_events(paths):
    for p in paths:
        yield from events(p.trace)


# ------------------------------------------------------------------ effects

def _mode(t):
    if t is None:
        return 'r'
    if is_const(t) and isinstance(cval(t), str):
        return cval(t)
    return '?'


class Effect:
    __slots__ = ('kind', 'path', 'ev', 'extra')

    def __init__(self, kind, path, ev, extra=None):
        self.kind, self.path, self.ev, self.extra = kind, path, ev, extra

    def __repr__(self):
        return f'{self.kind} {self.path!r} @{self.ev.site}'


WRITE_M = {'write_text', 'write_bytes', 'touch', 'symlink_to', 'hardlink_to', 'link_to'}
DELETE_M = {'unlink', 'rmdir'}
RUN = ('subprocess.', 'os.system', 'os.popen', 'os.exec', 'os.spawn', 'os.startfile')


def effects(ev):
    """-> list of Effect.  Kinds: write mkdir delete rmtree chmod rename run
    connect sql"""
    k, fn = ev.kind, ev.fn
    if k not in ('call', 'mcall', 'query') or not isinstance(fn, str):
        return []
    out = []
    if k in ('call', 'query'):
        a0 = ev.arg(0, None)
        if fn in ('builtins.open', 'io.open', 'codecs.open'):
            m = _mode(ev.arg(1, 'mode'))
            if set(m) & set('wax+?'):
                out.append(Effect('write', a0, ev, m))
        elif fn == 'os.open':
            out.append(Effect('write', a0, ev))
        elif fn == 'zipfile.ZipFile':
            m = _mode(ev.arg(1, 'mode'))
            if set(m) & set('wax?'):
                out.append(Effect('write', ev.arg(0, 'file'), ev, m))
        elif fn in ('os.mkdir', 'os.makedirs'):
            out.append(Effect('mkdir', ev.arg(0, 'name') or ev.kwarg('path'), ev))
        elif fn in ('os.rmdir', 'os.removedirs', 'os.remove', 'os.unlink'):
            out.append(Effect('delete', ev.arg(0, 'path'), ev))
        elif fn == 'shutil.rmtree':
            out.append(Effect('rmtree', ev.arg(0, 'path'), ev))
        elif fn in ('os.chmod', 'os.lchmod', 'os.chown', 'os.utime', 'os.truncate', 'shutil.chown', 'shutil.copymode',
                    'shutil.copystat'):
            p = ev.arg(1, 'dst') if fn in ('shutil.copymode', 'shutil.copystat') else ev.arg(0, 'path')
            out.append(Effect('chmod', p, ev))
        elif fn in ('os.rename', 'os.replace', 'os.renames', 'shutil.move'):
            out.append(Effect('rename', ev.arg(0, 'src'), ev, ev.arg(1, 'dst')))
            out.append(Effect('write', ev.arg(1, 'dst'), ev, 'replace'))
        elif fn in ('shutil.copy', 'shutil.copy2', 'shutil.copyfile', 'shutil.copytree', 'os.link', 'os.symlink'):
            out.append(Effect('write', ev.arg(1, 'dst'), ev, 'copy'))
        elif fn in ('shutil.unpack_archive', 'shutil.make_archive', 'os.mkfifo', 'os.mknod'):
            out.append(Effect('write', a0, ev))
        elif fn.startswith('tempfile.') and fn != 'tempfile.gettempdir':
            out.append(Effect('mkdir', ev.kwarg('dir') or a0, ev, 'temp'))
        elif fn.startswith(RUN) or fn == 'webbrowser.open':
            out.append(Effect('run', a0, ev))
        elif fn == 'sqlite3.connect':
            out.append(Effect('connect', ev.arg(0, 'database'), ev))
    else:
        recv = ev.args[0] if ev.args else None
        if fn in WRITE_M:
            out.append(Effect('write', recv, ev))
        elif fn == 'open':
            zipped = recv is not None and recv.op in ('call', 'attr', 'sym') and (recv.op == 'call' and recv.a[0] == 'zipfile.ZipFile' or repr(recv).endswith('zipfile'))
            m = _mode(ev.args[2] if len(ev.args) > 2 else ev.kwarg('mode')) if zipped else _mode(ev.args[1] if len(ev.args) > 1 else ev.kwarg('mode'))
            if m and set(m) <= set('rwaxbtU+') and set(m) & set('wax+'):
                out.append(Effect('write', recv, ev))
        elif fn in DELETE_M:
            out.append(Effect('delete', recv, ev))
        elif fn == 'mkdir':
            out.append(Effect('mkdir', recv, ev))
        elif fn in ('chmod', 'lchmod'):
            out.append(Effect('chmod', recv, ev))
        elif fn == 'rename' or (fn == 'replace' and len(ev.args) == 2):
            out.append(Effect('rename', recv, ev, ev.args[1] if len(ev.args) > 1 else None))
            if len(ev.args) > 1:
                out.append(Effect('write', ev.args[1], ev, 'replace'))
        elif fn in ('extract', 'extractall'):
            out.append(Effect('extract', recv, ev))
        elif fn in ('execute', 'executemany', 'executescript', 'commit'):
            out.append(Effect('sql', ev.args[1] if len(ev.args) > 1 else None, ev, fn))
    return out


WRITES = ('write', 'mkdir', 'delete', 'rmtree', 'chmod', 'rename', 'extract')


def within(p, root):
    """Is path term p at or below path term root (syntactically)?"""
    if p is root:
        return True
    if p is None:
        return False
    pa = p.a if p.op == 'path' else (p,)
    ra = root.a if root.op == 'path' else (root,)
    if pa[:len(ra)] == ra:
        return not any(is_const(x) and cval(x) == '..' for x in pa[len(ra):])
    return False


def rel(p, root):
    """Components of p below root, or None"""
    if p is root:
        return ()
    pa = p.a if p.op == 'path' else (p,)
    ra = root.a if root.op == 'path' else (root,)
    if pa[:len(ra)] == ra:
        return tuple(pa[len(ra):])
    return None
