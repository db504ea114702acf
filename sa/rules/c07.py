"""Typestate analysis of the target file of a save over all paths, with an
exception or keyboard interrupt possible at every operation that can fail: the
target is opened for writing only on paths that established that it does not
exist, every path that ends by an exception after that removes it unless the
archive was completely written and closed, a path that returns has stored every
file and closed the archive, and nothing deletes a file that may have existed
before.  In the box, records are added to the index only after the archive was
completely saved, and a failed save is never turned into success."""
from .. import save
from ..save import *
from ..flow import flow, effects
from ..engine import Ev


def exists_query(t):
    if t.op == 'mcall' and t.a[1] in ('exists', 'is_file', 'lexists') and t.a[0] is ZIPFILE:
        return True
    return t.op == 'call' and t.a[0] in ('os.path.exists', 'os.path.lexists', 'os.path.isfile') and t.a[1][:1] == (ZIPFILE,)


class Target:
    """state: (stage, members stored)
    stages: unknown absent opening foreign partial closing complete gone"""

    def __init__(self):
        self.bad = []

    def step(self, s, ev):
        stage, got = s
        if stage == 'opening' or stage == 'opening-x':
            if ev.kind == 'raise':
                return [('foreign' if stage == 'opening-x' else 'absent', got)]
            s = (stage, got) = ('partial', got)
        elif stage == 'closing':
            if ev.kind == 'raise':
                return [('partial', got)]
            s = (stage, got) = ('complete', got)
        if ev.kind == 'assume' and exists_query(ev.fn) and stage in ('unknown', 'foreign', 'partial', 'absent', 'gone'):
            if ev.x is False:
                return [('absent' if stage in ('unknown', 'foreign') else 'gone' if stage == 'partial' else stage, got)]
            if stage in ('absent', 'gone'):
                return []       # contradicts what is known on the path
        for e in effects(ev):
            if e.path is not ZIPFILE:
                continue
            if e.kind == 'write':
                mode = e.extra or 'w'
                if mode == 'replace' or mode == 'copy':
                    if stage == 'unknown':
                        self.bad.append((ev, 'a file that may already exist at the target path is replaced'))
                    return [('complete' if mode == 'replace' else 'partial', got)]
                if 'x' in mode:
                    return [('opening-x', got)]
                if stage in ('unknown', 'foreign'):
                    self.bad.append((ev, 'target is opened for writing without having made sure, that it does not exist'))
                return [('opening', got)]
            if e.kind in ('delete', 'rmtree', 'rename'):
                if stage in ('unknown', 'foreign'):
                    self.bad.append((ev, 'a file that may have existed before is removed'))
                return [('gone', got)]
        if ev.kind == 'mcall' and ev.args and is_zip(ev.args[0]) and ev.fn in ('write', 'writestr', 'close', '__exit__'):
            if ev.fn in ('write', 'writestr'):
                n = [x[0] for x in stores([ev])]
                return [(stage, got | set(n))]
            failed = ev.fn == '__exit__' and len(ev.args) > 1 and is_const(ev.args[1]) and cval(ev.args[1])
            if stage == 'partial' and zip_of(ev) is ZIPFILE and not failed:
                return [('closing', got)]
        if ev.kind in ('call', 'mcall') and ev.fn in ('json.dump', 'shutil.copyfileobj', 'write'):
            n = [x[0] for x in stores([ev])]
            if n:
                return [(stage, got | set(n))]
        if s != (ev and stage, got):
            return [s]
        return [(stage, got)]


def zip_of(ev):
    t = ev.args[0]
    return t.a[1][0] if t.a[1] else dict(t.a[2]).get('file')


def pack(c):
    w, paths = save.run(c, SMALL, exc_all=True, ki=True, merge_limit=10, stops={PERSIST + '.file_load': 'pure'})
    want = {m: top for _, m, top in files(w)}
    opened = 0
    for p in paths:
        t = Target()
        end = flow(p.trace, [('unknown', frozenset())], t.step)
        for ev, msg in t.bad:
            c.violation(f'saving at {ev.site}', msg, p.trace)
        for stage, got in end:
            opened += stage not in ('unknown', 'absent', 'foreign')
            if p.kind == 'raise':
                last = [e for e in p.trace if e.kind == 'raise'][-1:]
                if stage in ('partial', 'opening', 'opening-x'):
                    c.violation('saving ' + (f'failing by {p.value!r}' if last else ''),
                                'an incomplete archive remains at the target path', p.trace)
                elif stage == 'complete' and const('meta/manifest') not in got:
                    c.violation('saving', 'an archive without manifest remains at the target path', p.trace)
                else:
                    c.ok(1, f'saving ends by {p.value!r}: target is {stage}'[:160])
            else:
                if stage in ('partial', 'gone', 'absent', 'unknown'):
                    c.violation('saving', f'succeeds with the target file being {stage}', p.trace)
                    continue
                lits = p.lits()
                left = [m for m, top in want.items() if m not in got and (
                    is_const(top) or not implied_special(lits, top))]
                if left and all(not is_const(want[m]) and not understood(lits, want[m]) for m in left):
                    c.inconclusive(f'unrecognised conditions for leaving out {left[0]!r}')
                elif left:
                    c.violation('saving', f'succeeds without having stored {left[0]!r}', p.trace)
                else:
                    c.ok(1, f'saving succeeds: {len(got)} members')
    c.anchor(opened, 'saving never opens the target file')


def sql_of(ev):
    if ev.kind == 'mcall' and ev.fn in ('execute', 'executemany', 'executescript') and len(ev.args) > 1:
        x = ev.args[1]
        t = ' '.join(str(cval(y)) for y in ([x] if is_const(x) else x.a) if isinstance(y, T) and is_const(y)).strip().upper()
        return t
    return None


def index(c):
    cls = c.a.lookup_qual(BOX)
    name, loc = sym('box_name'), sym('box_location')

    def packs(e, qual, sargs, st, node):
        s2 = st.fork()
        s2.emit(Ev('call', '@failed', (), site=e.site(node)))
        e.raise_(mk('exc', 'OSError', 'pack'), s2, node)
        st.emit(Ev('call', '@packed', (), site=e.site(node)))
        return [(NONE, st)]

    def script(e, st):
        outs = []
        for b, s in e.call(cls, [name, loc], [], st, None):
            s.emit(Ev('call', '@store', (), site='store'))
            for f, s2 in e.get_attr(b, 'store', s):
                outs.extend(e.call(f, [WSP, FREEZE_TIME], [], s2, None))
        return outs
    paths = c.run(script, types={WSP: WORKSPACE}, excs={'OSError'}, stops={
        WORKSPACE + '.pack': packs, ARCHIVE + '.validate': 'stop', **HASH})
    n = failed = 0
    for p in paths:
        evs = list(p.trace)
        k = next((i for i, e in enumerate(evs) if e.fn == '@store'), None)
        if k is None:
            continue
        done = False
        fail = any(e.fn == '@failed' for e in evs)
        failed += fail
        if fail and p.kind == 'return':
            c.violation('saving into a box', 'reports success, although saving the archive failed', p.trace)
        for e in evs[k:]:
            if e.fn == '@packed':
                done = True
            if sql_of(e) and sql_of(e).startswith(('INSERT', 'REPLACE', 'UPDATE')):
                n += 1
                if not done:
                    c.violation(f'saving into a box at {e.site}', 'records are added to the index before the archive is complete',
                                p.trace)
        if p.kind == 'return':
            c.require(done, 'saving into a box', 'succeeds without saving the workspace', p.trace)
    c.anchor(failed, 'saving into a box does not save the workspace')
    c.cov['index statements'] = n


def check(c):
    c.rule('target', 'no incomplete archive at the target path, nothing overwritten', pack)
    c.rule('index', 'index is changed only after the archive is complete', index)
    c.assumptions = ['exceptions and interrupts happen at calls and operations that can fail, not between two byte codes of '
                     'the clean up itself', 'removing the incomplete file succeeds']
