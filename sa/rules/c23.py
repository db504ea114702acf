"""Scenario interpretation of the list of known boxes: it is built by the
repository's own code from what an earlier run has saved, one operation is
carried out with a name or location that equals one of the known ones or none,
saved, and read by a new environment.  Each operation is analysed on lists of
up to three boxes whose names and locations are unknown values; the result is
compared with the specified one, so that by induction it holds for every
history (operations treat the boxes of the list alike)."""
from ..boxsearch import Boxes, mentions_index
from ..cli import run_command, command, ARGS, ENV
from ..engine import Ev, Inconclusive
from ..flow import events
from ..metastore import MetaStore, rebuild
from ..ordering import Order
from ..std import *
from ..terms import *
from ..terms import T
from . import c14

Q = 'bead_cli.environment.Environment'
CONFIG = sym('config dir')
STORES = sym('@file')


def N(i):
    return sym(f'name{i}')


def L(i):
    return sym(f'location{i}')


def predicate(t, values):
    """(a, b) if the term compares two known values in a way that is true of equal
    ones and can go either way for others"""
    if t.op == 'mcall' and t.a[1] in ('startswith', 'endswith') and len(t.a[2]) == 1 and t.a[0] in values and t.a[2][0] in values:
        return t.a[0], t.a[2][0]
    if t.op == 'cmp' and t.a[0] == 'in' and t.a[1] in values and t.a[2] in values:
        return t.a[1], t.a[2]
    if t.op == 'cmp' and t.a[0] == '==' and all(x.op == 'mcall' and x.a[1] in ('lower', 'upper', 'casefold', 'strip') and x.a[0] in values for x in t.a[1:]) and \
            t.a[1].a[1] == t.a[2].a[1]:
        return t.a[1].a[0], t.a[2].a[0]
    return None


class Env(MetaStore):
    """one file: what was saved at a path is read back from there"""

    def __init__(self, order, missing=()):
        MetaStore.__init__(self, {})
        self.order = order

    def decide(self, e, t, st):
        """like the order; what holds of equal texts, whatever they are, is true"""
        r = self.order.decide(e, t, st)
        if r is None and predicate(t, self.order.values):
            a, b = predicate(t, self.order.values)
            if self.order.values[a] == self.order.values[b]:
                return True
        return r

    def saved(self, st):
        return st.overlay.get(STORES)

    def load(self, e, qual, sargs, st, node):
        x = self.saved(st)
        st.emit(Ev('call', '@load', (e.snap(sargs[0], st),), site=e.site(node)))
        if x is None or x.a[0] is not e.snap(sargs[0], st):
            e.raise_(mk('exc', 'FileNotFoundError', ''), st, node)
            return []
        return [(rebuild(e, x.a[1], st), st)]

    def dump(self, e, qual, sargs, st, node):
        t = mk('tuple', e.snap(sargs[1], st), e.snap(sargs[0], st))
        st.emit(Ev('call', '@dump', tuple(t.a), site=e.site(node)))
        st.overlay[STORES] = t
        return [(NONE, st)]

    def json_load(self, e, args, kw, st, node):
        x = self.saved(st)
        if x is None or not contains(args[0], x.a[0]):
            e.raise_(mk('exc', 'FileNotFoundError', ''), st, node)
            return []
        return [(rebuild(e, x.a[1], st), st)]

    def json_dump(self, e, args, kw, st, node):
        for y in walk(args[1]):
            if y.op == 'call' and y.a[0] in ('builtins.open', 'os.fdopen') and y.a[1]:
                t = mk('tuple', y.a[1][0], e.snap(args[0], st))
                st.emit(Ev('call', '@dump', tuple(t.a), site=e.site(node)))
                st.overlay[STORES] = t
                return [(NONE, st)]
        return None

    def there(self, e, p, st):
        if mentions_index(p):
            return const(False)
        x = self.saved(st)
        if contains(p, CONFIG):
            return const(x is not None and x.a[0] is p)
        return None

    def exists(self, e, recv, args, kw, st, node):
        v = self.there(e, e.snap(recv, st), st)
        return None if v is None else [(v, st)]

    def exists_fn(self, e, args, kw, st, node):
        v = self.there(e, e.snap(args[0], st), st)
        return None if v is None else [(v, st)]

    def samefile(self, e, args, kw, st, node):
        return [(t, s) for t, s in [(e.eq_term(e.snap(args[0], st), e.snap(args[1], st)), st)]]

    def samefile_m(self, e, recv, args, kw, st, node):
        return [(e.eq_term(e.snap(recv, st), e.snap(args[0], st)), st)]

    def realpath(self, e, args, kw, st, node):
        t = mk('mcall', e.snap(args[0], st), 'resolve', (), ())
        return [(t, st)] if t in self.order.values else None

    def opts(self, **kw):
        o = self.options()
        more = self.order.options()
        o['xhooks'].update(more['xhooks'])
        o['xhooks'].update({'os.path.exists': self.exists_fn, 'os.path.isfile': self.exists_fn, 'os.path.samefile': self.samefile,
                            'os.path.realpath': self.realpath})
        o['mhooks'] = {'exists': self.exists, 'is_file': self.exists, 'samefile': self.samefile_m, **kw.pop('mhooks', {})}
        o['ohooks'] = more['ohooks']
        o['decide'] = self.decide
        o['excs'] = set()
        o['stops'].update(kw.pop('stops', {}))
        o.update(kw)
        return o


def call(e, v, m, args, st):
    return Boxes.method(e, v, m, args, st)


def opened(e, st):
    f, s = e.get_attr(mk('cls', Q), 'from_dir', st)[0]
    return e.call(f, [CONFIG], [], s, None)


def listed(e, env, st):
    """snapshot of the boxes of an environment: tuple of (name, location)"""
    outs = []
    for b, s in call(e, env, 'get_boxes', [], st):
        items = e.finite_list(b, s)
        if items is None:
            raise Inconclusive('list of boxes')
        row = []
        for x in items:
            row.append(mk('tuple', *[e.snap(e.get_attr(x, k, s)[0][0], s) for k in ('name', 'location')]))
        outs.append((mk('tuple', *row), s))
    return outs


def known(k):
    """script: an environment saved with k boxes, opened anew"""
    def script(e, st):
        cur = opened(e, st)
        for i in range(k):
            cur = [(env, s2) for env, s in cur for _, s2 in call(e, env, 'add_box', [N(i), L(i)], s)]
        cur = [s2 for env, s in cur for _, s2 in call(e, env, 'save', [], s)] if k else [s for _, s in cur]
        return [r for s in cur for r in opened(e, s)]
    return script


def scenarios():
    """(number of known boxes, name rank, location rank) of the box to add"""
    for k in (0, 1, 2, 3):
        for n in list(range(k)) + [9]:
            for loc in list(range(k)) + [9]:
                if k < 3 or n == 9 or loc == 9 or n != loc:
                    yield k, n, loc


def values(name, n, location, loc):
    v = {N(i): ('name', i) for i in range(12)}
    v.update({L(i): ('location', i) for i in range(12)})
    v[name] = ('name', n)
    v[location] = ('location', loc)
    return v


def describe(row, order):
    return [tuple(order.values.get(x, ('?', x))[1] if x in order.values else x for x in b.a) for b in row.a]


def judge(c, what, k, refused, order, name, location, before, after, trace):
    want = [(N(i), L(i)) for i in range(k)]
    c.require([tuple(b.a) for b in before.a] == want, what, f'boxes saved by an earlier run are read as {before!r}, expected {want!r}', trace)
    got = [tuple(b.a) for b in after.a]
    if refused:
        c.require(got == want, what, f'must be refused; afterwards the boxes are {got!r}', trace)
    else:
        c.require(got == want + [(name, location)], what, f'afterwards the boxes are {got!r}, expected {want + [(name, location)]!r}', trace)


def text(k, n, loc, of='add'):
    return f'{of} with {k} known boxes; name {"of box %d" % n if n < 9 else "unused"}, location {"of box %d" % loc if loc < 9 else "unused"}'


def undecided(trace, order, about):
    """conditions on the scenario's values it did not decide, other than comparisons"""
    out = []
    for t, b in c14.literals(trace).items():
        if any(contains(t, x) for x in about) and order.decide(None, t, None) is None:
            if t.op == 'mcall' and t.a[1] in ('is_dir', 'exists') or t.op == 'call' and t.a[0] in ('os.path.isdir', 'os.path.exists'):
                continue
            if predicate(t, order.values):
                continue
            if t.op == 'cmp' and t.a[0] in ('==', 'is') and not any(x.op in ('mcall', 'call') and not_path(x) for x in t.a[1:]):
                continue
            out.append(t)
    return out


def not_path(x):
    return not (x.op == 'mcall' and x.a[1] in ('absolute', 'resolve', 'as_posix', 'expanduser') or x.op == 'call' and x.a[0] in ('os.path.abspath', 'os.path.normpath'))


def adding(c):
    """Environment.add_box, save, and a new environment"""
    name, location = sym('new name'), sym('new location')
    for k, n, loc in scenarios():
        order = Order(values(name, n, location, loc))
        w = Env(order)
        refused = n < 9 or loc < 9

        def script(e, st):
            outs = []
            for env, s in known(k)(e, st):
                for before, s1 in listed(e, env, s):
                    s1.emit(Ev('call', '@before', (before,), site='script'))
                    for _, s2 in call(e, env, 'add_box', [name, location], s1):
                        for _, s3 in call(e, env, 'save', [], s2):
                            for env2, s4 in opened(e, s3):
                                outs.extend(listed(e, env2, s4))
            return outs
        n_ = 0
        for p in c.run(script, **w.opts()):
            evs = events(p.trace)
            before = [ev.args[0] for ev in evs if ev.fn == '@before']
            if p.kind == 'raise':
                if not before:
                    c.violation(text(k, n, loc), f'fails: {p.value!r}', p.trace)
                    continue
                n_ += 1
                after = before[0]
                if not refused:
                    bad = undecided(p.trace, order, [name, location])
                    if bad:
                        raise Inconclusive(f'condition {bad[0]!r}'[:200])
                    c.violation(text(k, n, loc), f'is refused: {p.value!r}'[:200], p.trace)
                    continue
            elif p.kind == 'return':
                n_ += 1
                after = p.value
                bad = undecided(p.trace, order, [name, location])
                if bad and refused:
                    raise Inconclusive(f'condition {bad[0]!r}'[:200])
            else:
                continue
            judge(c, text(k, n, loc), k, refused, order, name, location, before[0], after, p.trace)
        if not n_:
            raise Inconclusive('adding a box')


def run_cli(c, cmd, k, order, check):
    """the command on an environment saved earlier, then a new environment"""
    w = Env(order)
    cls = command(c, cmd)
    _, f = c.a.class_lookup(cls, 'run')

    def script(e, st):
        outs = []
        for env, s in known(k)(e, st):
            for before, s1 in listed(e, env, s):
                s1.emit(Ev('call', '@before', (before,), site='script'))
                for me, s2 in e.call(mk('cls', cls), [], [], s1, None):
                    for _, s3 in call(e, me, 'run', [ARGS, env], s2):
                        for env2, s4 in opened(e, s3):
                            outs.extend(listed(e, env2, s4))
        return outs
    paths = c.run(script, **w.opts())
    n = 0
    for p in paths:
        before = [ev.args[0] for ev in events(p.trace) if ev.fn == '@before']
        if p.kind not in ('return', 'raise') or not before:
            continue
        n += 1
        after = p.value if p.kind == 'return' else None
        if p.kind == 'raise':
            fns = [ev.fn for ev in events(p.trace)]
            if p.value.op == 'exc' and p.value.a[0] in ('SystemExit', 'ValueError') and '@dump' not in fns[fns.index('@before'):]:
                after = before[0]
            else:
                raise Inconclusive(f'{cmd}: {p.value!r}'[:200])
        check(p, before[0], after)
    if not n:
        raise Inconclusive(cmd)


def add_command(c):
    name, given = attr(ARGS, 'name'), attr(ARGS, 'directory')
    location = mk('mcall', given, 'resolve', (), ())
    for k, n, loc in scenarios():
        if k == 3:
            continue
        order = Order(values(name, n, location, loc))
        refused = n < 9 or loc < 9
        what = 'command box ' + text(k, n, loc)

        def check(p, before, after):
            missing = any(t.op in ('mcall', 'call') and t.a[0 if t.op == 'call' else 1] in ('is_dir', 'exists', 'os.path.isdir', 'os.path.exists') and not b
                          and contains(t, given) for t, b in c14.literals(p.trace).items())
            bad = undecided(p.trace, order, [name, given])
            if bad and not missing:
                raise Inconclusive(f'condition {bad[0]!r}'[:200])
            judge(c, what + (', the directory does not exist' if missing else ''), k, refused or missing, order, name, location, before, after, p.trace)
        run_cli(c, 'box add', k, order, check)


def forget_command(c):
    name = attr(ARGS, 'name')
    for k in (1, 2, 3):
        for n in list(range(k)) + [9]:
            order = Order(values(name, n, sym('no location'), 9))

            def check(p, before, after):
                want = [(N(i), L(i)) for i in range(k)]
                left = [b for i, b in enumerate(want) if i != n]
                c.require([tuple(b.a) for b in before.a] == want, 'known boxes', f'boxes saved by an earlier run are read as {before!r}', p.trace)
                bad = undecided(p.trace, order, [name])
                if bad:
                    raise Inconclusive(f'condition {bad[0]!r}'[:200])
                got = [tuple(b.a) for b in after.a]
                c.require(got == left, f'command box forget with {k} boxes; name {"of box %d" % n if n < 9 else "unused"}',
                          f'afterwards the boxes are {got!r}, expected {left!r}', p.trace)
            run_cli(c, 'box forget', k, order, check)


ABOUT = {'is_dir': False, 'isdir': False, 'is_file': True, 'isfile': True, 'exists': True, 'lexists': True, 'is_symlink': False, 'islink': False}


def what_it_is(t):
    return t.a[1] if t.op == 'mcall' else t.a[0].split('.')[-1] if t.op == 'call' and t.a[0].startswith('os.path.') else None


def not_a_directory(c):
    """box add of something which exists, but is no directory, or does not exist at all"""
    name, given = attr(ARGS, 'name'), attr(ARGS, 'directory')
    location = mk('mcall', given, 'resolve', (), ())
    for kind, answers in (('a file', ABOUT), ('nothing', dict.fromkeys(ABOUT, False)), ('a directory', dict(ABOUT, is_dir=True, isdir=True, is_file=False, isfile=False))):
        order = Order(values(name, 9, location, 9))
        plain = order.decide

        def decide(e, t, st):
            if what_it_is(t) in answers and contains(t, given):
                return answers[what_it_is(t)]
            return plain(e, t, st)
        order.decide = decide

        def check(p, before, after):
            bad = [t for t in undecided(p.trace, order, [name, given])]
            if bad:
                raise Inconclusive(f'condition {bad[0]!r}'[:200])
            judge(c, f'command box add, the location is {kind}', 1, kind != 'a directory', order, name, location, before, after, p.trace)
        run_cli(c, 'box add', 1, order, check)


def list_command(c):
    """what is printed has the name and the location of every known box, one to a line"""
    for k in (0, 1, 2, 3, 12):
        order = Order(values(sym("no name"), 99, sym('no location'), 9))

        def check(p, before, after):
            want = [(N(i), L(i)) for i in range(k)]
            c.require([tuple(b.a) for b in after.a] == want, 'command box list', f'changes the boxes to {after!r}'[:200], p.trace)
            ev = list(events(p.trace))
            ev = ev[[x.fn for x in ev].index('@before'):]
            lines = ['']
            for x in ev:
                if x.fn != 'builtins.print' or 'stderr' in repr(x.kwarg('file')):
                    continue
                sep, end = (cval(x.kwarg(w)) if x.kwarg(w) is not None else d for w, d in (('sep', ' '), ('end', '\n')))
                lines[-1] += sep.join(words(a) for a in x.args)
                for more in (lines.pop() + end).split("\n"):
                    lines.append(more)
            for i in range(k):
                here = [l for l in lines if f'<name{i}>' in l]
                c.require(len(here) == 1 and f'<location{i}>' in here[0] and here[0].count('<') == 2, f'command box list, {k} boxes known',
                          f'box {i} is shown as {here!r}', p.trace)
        run_cli(c, 'box list', k, order, check)


def words(t):
    if is_const(t):
        return str(cval(t))
    if t.op in ('cat', 'path'):
        return ''.join(words(x) for x in t.a)
    if t.op in ('strof', 'fmt'):
        return words(t.a[0])
    if t.op == 'call' and t.a[0] in ('builtins.str', 'builtins.format', 'os.fspath', 'pathlib.Path') and t.a[1]:
        return words(t.a[1][0])
    if t.op == 'mcall' and t.a[1] in ('as_posix', '__str__', 'resolve', 'absolute', 'ljust', 'rjust', 'center'):
        return words(t.a[0])
    if t.op == 'sym':
        return f'<{t.a[0]}>'
    raise Inconclusive(f'text {t!r}'[:150])


def lookup(c):
    """get_box finds the box of a name"""
    name = sym('asked name')
    for k in (1, 2, 3):
        for n in list(range(k)) + [9]:
            order = Order(values(name, n, sym('no location'), 9))
            w = Env(order)

            def script(e, st):
                outs = []
                for env, s in known(k)(e, st):
                    for b, s2 in call(e, env, 'get_box', [name], s):
                        if b is NONE:
                            outs.append((NONE, s2))
                        else:
                            outs.append((mk('tuple', *[e.snap(e.get_attr(b, x, s2)[0][0], s2) for x in ('name', 'location')]), s2))
                return outs
            for p in c.run(script, **w.opts()):
                if p.kind != 'return':
                    continue
                bad = undecided(p.trace, order, [name])
                if bad:
                    raise Inconclusive(f'condition {bad[0]!r}'[:200])
                want = mk('tuple', N(n), L(n)) if n < 9 else NONE
                c.require(p.value is want, f'box of a name, {k} known', f'is {p.value!r}, expected {want!r}', p.trace)


def check(c):
    c.rule('adding', 'a box is appended, or refused if its name or location is known; survives a restart', adding)
    c.rule('box add', 'the command adds the box at the resolved location and saves, or changes nothing', add_command)
    c.rule('not a directory', 'the command refuses locations which are no directories', not_a_directory)
    c.rule('box list', 'the command shows the name and the location of each known box', list_command)
    c.rule('box forget', 'the command removes exactly the boxes of the name and saves', forget_command)
    c.rule('lookup', 'a box is found by its name', lookup)
    c.assumptions = ['content written to a file is read back from it unchanged (C25, C24)', 'lists of up to three boxes stand for all: list operations do not depend on the length']
