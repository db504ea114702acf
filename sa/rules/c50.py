"""Scenario interpretation of the box index commands.  Indexing and rebuilding are
interpreted for no, one and several known boxes with every way of choosing boxes (none
given, by name, by directory, all of them, contradicting ones), and with indexes that
fail: on every path the indexes that are updated (rebuilt) have to be exactly those of
the chosen boxes, each once, whatever happens to the others, and none when the choice
is not known or not determined."""
import re

from .. import cli
from ..cli import ARGS, ENV
from ..commandline import declarations, parse
from ..engine import AnchorLost, Ev, Inconclusive
from ..flow import events
from ..graphs import undecided
from ..std import *
from ..terms import *

INDEX = 'bead.box_index.BoxIndex'
ENVIRONMENT = 'bead_cli.environment.Environment'
NAMES = {1: 'box', 2: 'Box', 3: 'box-2'}
UNKNOWN = ('bo', 'BOX', 'box-', ' box', '')
DIR = sym('given directory')
WHERE = 'place of the index'


def where(n):
    return sym(f'directory of box {n}')


def run(c, cmd, words, known, fails=(), how='sync', exc='OSError', is_dir=True):
    refused = []
    boxes = {n: sym(f'box {n}') for n in known}

    def script(e, st):
        found, obj, st = declarations(e, cli.command(c, cmd), st)
        vals = parse(found, words)
        if vals is None:
            refused.append(1)
            return [(NONE, st)]
        for d, v in vals.items():
            st.overlay[attr(ARGS, d)] = v
        for n, b in boxes.items():
            st.overlay[attr(b, 'name')] = const(NAMES[n])
            st.overlay[attr(b, 'location')] = where(n)
        r, st = e.get_attr(obj, 'run', st)[0]
        return e.call(r, [ARGS, ENV], [], st, None)

    def box_of(t):
        got = [n for n in known if contains(t, where(n))]
        return const(got[0]) if len(got) == 1 else const('given') if contains(t, DIR) and not got else t

    def fail(e, t, st, node):
        if is_const(t) and cval(t) in fails:
            e.raise_(mk('exc', exc, ''), st, node)
            return True

    def init(e, qual, sargs, st, node):
        b = box_of(e.snap(sargs[1], st))
        if how == 'open' and fail(e, b, st, node):
            return []
        st.overlay[attr(sargs[0], WHERE)] = b
        return [(NONE, st)]

    def op(name):
        def hook(e, qual, sargs, st, node):
            b = st.overlay.get(attr(sargs[0], WHERE))
            if b is None:
                raise Inconclusive('index which was not opened')
            st.emit(Ev('call', '@' + name, (b,), site=e.site(node)))
            if how == 'sync' and fail(e, b, st, node):
                return []
            return [(NONE, st)]
        return hook

    def get_boxes(e, qual, sargs, st, node):
        return [(e.new_container('list', [('item', b) for b in boxes.values()], st), st)]

    def isdir(e, t, st):
        return [(const(is_dir), st)] if contains(e.snap(t, st), DIR) else [(TRUE, st)]

    def decide(e, t, st):
        there = (DIR, *boxes.values())
        if t in there:
            return True
        if t.op == 'cmp' and t.a[0] in ('is', '==') and NONE in t.a[1:] and any(x in there for x in t.a[1:]):
            return False
    ps = c.run(script, decide=decide, types={ENV: ENVIRONMENT, **{b: BOX for b in boxes.values()}}, excs=set(), unroll=12, max_recursion=4,
               stops={INDEX + '.__init__': init, INDEX + '.sync': op('sync'), INDEX + '.rebuild': op('rebuild'), ENVIRONMENT + '.get_boxes': get_boxes},
               xhooks={k: (lambda e, args, kw, st, node: isdir(e, args[0], st)) for k in ('os.path.isdir', 'os.path.exists')},
               mhooks={k: (lambda e, r, args, kw, st, node: isdir(e, r, st)) for k in ('is_dir', 'exists')})
    c.cov['scenarios'] += 1
    return None if refused else ps


def printed(p):
    return [repr(x.args) for x in events(p.trace) if x.kind == 'call' and x.fn in ('builtins.print', 'sys.stdout.write', 'sys.stderr.write')]


def counted(c, cmd, ps, good, total):
    """the last text printed has the number of indexes that were worked on without a failure"""
    for p in ps:
        texts = [x.args for x in events(p.trace) if x.kind == 'call' and x.fn == 'builtins.print' and x.args]
        if p.kind != 'return' or not texts:
            continue
        if not all(is_const(t) for t in texts[-1]):
            raise Inconclusive(f'text {texts[-1]!r}'[:200])
        text = ' '.join(str(cval(t)) for t in texts[-1])
        numbers = sorted(map(int, re.findall('[0-9]+', text)))
        if len(numbers) >= 2:
            c.require(numbers == sorted((good, total)) or {good, total - good} == set(numbers), f'box {cmd}', f'{good} of {total} indexes are finished, but {text!r} is printed', p.trace)


def judge(c, cmd, words, known, want, what='', **how):
    text = f'box {cmd} {" ".join(w if isinstance(w, str) else w[0] + " " + (repr(cval(w[1])) if is_const(w[1]) else "DIRECTORY") for w in words)}'
    text = f'"{text.strip()}", known boxes: {", ".join(NAMES[n] for n in known) or "(none)"}{what and ", "}{what}'
    ps = run(c, 'box ' + cmd, words, known, **how)
    if ps is None:
        if want:
            c.violation(f'box {cmd}', f'{text}: the arguments are refused')
        return None
    fine = ('@rebuild',) if cmd == 'reindex' else ('@sync', '@rebuild')
    for p in ps:
        done = [x for x in events(p.trace) if x.kind == 'call' and x.fn in ('@sync', '@rebuild')]
        got = sorted([str(cval(x.args[0])) if is_const(x.args[0]) else repr(x.args[0]) for x in done])
        bad = None
        if p.kind != 'return' and (want or p.kind != 'raise' or not is_exit(p)):
            bad = f'ends with {p.value!r}'
        if got != sorted(map(str, want)) and not (bad and how):
            bad = f'works on the indexes of {", ".join(got) or "no box"} instead of {", ".join(map(str, want)) or "none"} (by number)'
        elif any(x.fn not in fine for x in done):
            bad = 'does not rebuild the index'
        if not bad:
            c.ok()
        elif undecided(p):
            c.inconclusive(f'box {cmd}', f'{text} {bad}'[:250])
        else:
            return c.violation(f'box {cmd}', f'{text} {bad}'[:300], p.trace)
    return ps


def is_exit(p):
    return p.value is not None and 'SystemExit' in repr(p.value)


def chosen(c):
    for cmd in ('index', 'reindex'):
        for n in (1, 2, 3):
            judge(c, cmd, [], (n,), [n])
        for known in ((), (1,), (1, 2), (1, 2, 3), (3, 2, 1)):
            judge(c, cmd, ['--all'], known, known)
            judge(c, cmd, [('--dir', DIR)], known, ['given'])
            for n in known:
                judge(c, cmd, [('--box', const(NAMES[n]))], known, [n])


def nothing(c):
    for cmd in ('index', 'reindex'):
        for known in ((), (1, 2), (1, 2, 3)):
            judge(c, cmd, [], known, [])
        for known in ((), (3,), (1, 2, 3)):
            judge(c, cmd, [('--dir', DIR)], known, [], 'the directory does not exist', is_dir=False)
            for name in UNKNOWN[:4]:
                judge(c, cmd, [('--box', const(name))], known, [], f'{name!r} is unknown')
        for words in (['--all', ('--box', const('bo'))],):
            judge(c, cmd, words, (1, 2), [], 'contradicting choice')


def failing(c):
    import itertools
    for cmd in ('index', 'reindex'):
        for exc in ('OSError', 'bead.exceptions.BoxIndexError', 'sqlite3.DatabaseError', 'ValueError'):
            for known in ((1,), (1, 2, 3)):
                good = None
                for n in range(len(known) + 1):
                    for bad in itertools.combinations(known, n):
                        ps = judge(c, cmd, ['--all'], known, known, f'failing: {", ".join(NAMES[x] for x in bad) or "(none)"} with {exc}', fails=bad, exc=exc)
                        if not ps:
                            continue
                        counted(c, cmd, ps, len(known) - n, len(known))
                        said = [printed(p) for p in ps]
                        if not bad:
                            good = said
                        elif good and any(s in good for s in said):
                            c.violation(f'box {cmd}', f'a failure of the index of {", ".join(NAMES[x] for x in bad)} is not reported', ps[0].trace)
                        else:
                            c.ok()
    for cmd in ('index', 'reindex'):
        for bad in (1, 2, 3):
            judge(c, cmd, ['--all'], (1, 2, 3), [n for n in (1, 2, 3) if n != bad], f'failing to open: {NAMES[bad]}', fails=(bad,), how='open')


def check(c):
    for n in ('.__init__', '.sync', '.rebuild'):
        if c.a.lookup_qual(INDEX + n) is None:
            raise AnchorLost(INDEX + n)
    c.rule('chosen', 'exactly the indexes of the chosen boxes are updated (rebuilt)', chosen)
    c.rule('nothing', 'no index is touched when the choice is unknown or ambiguous', nothing)
    c.rule('failing', 'an index that fails does not keep the others from being updated, and is reported', failing)
    c.assumptions += ['up to three boxes stand for all', 'what updating and rebuilding an index do is the subject of C20 and C21', 'what known boxes are is that of C23']
