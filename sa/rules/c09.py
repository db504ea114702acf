"""Abstract interpretation of adding, loading, unloading and deleting an input
with the metadata file as a variable (known keys, every value a distinct
unknown): every version of the metadata written, on every path, is compared
entry by entry with the metadata before; on paths that complete the record of
the input is exactly that of the archive, or gone.  For the commands the
provenance of the archive that gets loaded and of the name it is loaded as are
checked."""
from ..cli import run_command, ARGS, WS
from ..engine import Ev, Inconclusive
from ..flow import events
from ..metastore import MetaStore, plain, term
from ..std import *
from ..terms import *
from ..terms import T

FIELDS = ('kind', 'content_id', 'freeze_time')
WSX, AR = sym('workspace'), sym('archive')
NEW = dict(kind=sym('new:kind'), content_id=sym('new:content_id'), freeze_time=sym('new:freeze_time'))


def rec(n):
    return {f: sym(f'{f} of {n}') for f in FIELDS}


def meta(*names):
    return {'kind': sym('kind of workspace'), 'inputs': {n: rec(n) for n in names}, 'extra': sym('something else'),
            'meta_version': sym('version')}


def run(c, method, args, initial, selfT=WSX, stops=None, **kw):
    s = MetaStore(initial)
    o = s.options()
    o['stops'] = {**FSOPS, **HASH, **EXTRACT, **o['stops'], **(stops or {})}
    paths = c.run(c.func(WORKSPACE + '.' + method), args, selfT=selfT, types={WSX: WORKSPACE, AR: ARCHIVE}, excs=kw.pop('excs', {'OSError'}),
                  **o, **kw)
    return paths


def compare(c, what, got_t, before, nick, want, trace, final):
    """Is the metadata term as expected?  want: record, None for deleted, 'any'"""
    got = plain(got_t)
    if not isinstance(got, dict):
        c.inconclusive(f'{what}: metadata {got_t!r}'[:300])
        return False
    for k, v in before.items():
        if k == 'inputs':
            continue
        if k not in got:
            c.violation(what, f'metadata loses {k!r}', trace)
            return False
        if term(got[k]) is not term(v):
            c.violation(what, f'metadata gets {k!r} changed to {got[k]!r}', trace)
            return False
    for k in got:
        if k not in before:
            c.violation(what, f'metadata gets an unexpected {k!r}', trace)
            return False
    inputs = got.get('inputs')
    if not isinstance(inputs, dict):
        c.violation(what, f'inputs become {inputs!r}', trace)
        return False
    for n, r in before['inputs'].items():
        if n == nick:
            continue
        if n not in inputs:
            c.violation(what, f'definition of another input ({n!r}) is lost', trace)
            return False
        if term(inputs[n]) is not term(r):
            c.violation(what, f'definition of another input ({n!r}) is changed to {inputs[n]!r}'[:300], trace)
            return False
    for n in inputs:
        if n != nick and n not in before['inputs']:
            c.violation(what, f'defines an unexpected input {n!r}', trace)
            return False
    if not final or want == 'any':
        return True
    r = inputs.get(nick)
    if want is None:
        if nick in inputs:
            c.violation(what, f'definition of the input remains', trace)
            return False
        return True
    if r is None or not isinstance(r, dict):
        c.violation(what, f'input is not recorded but {r!r}' if r is not None else 'input is not recorded', trace)
        return False
    for f in FIELDS:
        g = r.get(f)
        if g is not want[f]:
            if isinstance(g, T) and any(x.op in ('ocall', 'phi', 'lv') for x in walk(g)):
                c.inconclusive(f'{what}: {f} is {g!r}'[:300])
            else:
                c.violation(what, f'{f} is recorded as {g!r} and not as {want[f]!r}'[:400], trace)
            return False
    for f in r:
        if f not in FIELDS:
            c.violation(what, f'unexpected {f!r} is recorded', trace)
            return False
    return True


def check_paths(c, what, paths, before, nick, want):
    n = 0
    for p in paths:
        evs = [e for e in events(p.trace) if e.kind == 'call' and e.fn == '@meta']
        if any(e.kind == 'loop' and any(x.kind == 'call' and x.fn == '@meta' for x in events([e])) for e in p.trace):
            raise Inconclusive('metadata is written in a loop')
        ok = all(compare(c, what, e.args[0], before, nick, want, p.trace, False) for e in evs)
        if p.kind == 'return':
            n += 1
            last = evs[-1].args[0] if evs else term(before)
            ok = ok and compare(c, what, last, before, nick, want, p.trace, True)
        if ok:
            c.ok(1, f'{what}: {len(evs)} write(s) of metadata on a path ending by {p.kind}')
        else:
            return
    if not n:
        c.violation(what, f'never completes - {paths[0].value!r}', paths[0].trace)


NICK = 'nick'
OTHERS = ('a', 'nick2', 'Z')
STATES = [(), (NICK,), OTHERS, OTHERS[:2] + (NICK,) + OTHERS[2:], (NICK,) + OTHERS, OTHERS + (NICK,)]


def adding(c):
    for names in STATES:
        before = meta(*names)
        paths = run(c, 'add_input', [const(NICK), NEW['kind'], NEW['content_id'], NEW['freeze_time']], before)
        check_paths(c, 'Workspace.add_input', paths, before, NICK, NEW)


def archive_record(c):
    out = {}
    for f, a in zip(FIELDS, ('kind', 'content_id', 'freeze_time_str')):
        def script(e, st, a=a):
            return e.get_attr(AR, a, st)
        ps = [p for p in c.run(script, types={AR: ARCHIVE}, stops={ARCHIVE + '.content_id': 'pure'}, excs=set()) if p.kind == 'return']
        c.anchor(len(ps) == 1, f'ZipArchive.{a}')
        out[f] = ps[0].value
    return out


def loading(c):
    want = archive_record(c)
    for names in STATES:
        before = meta(*names)
        paths = run(c, 'load', [const(NICK), AR], before, stops={ARCHIVE + '.content_id': 'pure'})
        check_paths(c, 'Workspace.load', paths, before, NICK, want)


def deleting(c):
    for names in STATES:
        if NICK not in names:
            continue
        before = meta(*names)
        paths = run(c, 'delete_input', [const(NICK)], before)
        check_paths(c, 'Workspace.delete_input', paths, before, NICK, None)
        paths = run(c, 'unload', [const(NICK)], before)
        check_paths(c, 'Workspace.unload', paths, before, NICK, rec(NICK))


# ------------------------------------------------------------------ commands

INPUTS = sym('inputs of the workspace')
METHODS = ('load', 'unload', 'add_input', 'delete_input')


def commands(c):
    """which inputs the commands touch, and what they load"""
    stops = {**FLUENT, **HASH, ARCHIVE + '.validate': 'stop', ARCHIVE + '.content_id': 'pure', WORKSPACE + '.is_valid': 'pure',
             PERSIST + '.file_load': 'pure', PERSIST + '.file_dump': 'stop', WORKSPACE + '.is_loaded': 'pure',
             WORKSPACE + '.inputs': 'list:bead.meta.InputSpec', WORKSPACE + '.get_input': 'pure',
             **{WORKSPACE + '.' + m: 'stop' for m in METHODS}}
    nick = attr(ARGS, 'input_nick')
    for name in ('input add', 'input load', 'input update', 'input delete', 'input unload', 'status', 'save', 'discard'):
        paths = run_command(c, name, stops=stops, excs={'LookupError', 'bead.exceptions.InvalidArchive'})
        n = done = 0
        for p in paths:
            mine = []
            for ev in events(p.trace):
                if ev.kind != 'call' or not isinstance(ev.fn, str):
                    continue
                if ev.fn == PERSIST + '.file_dump' and len(ev.args) > 1 and contains(ev.args[1], WS):
                    c.violation(f'{name} at {ev.site}', 'changes metadata of the workspace directly', p.trace)
                m = ev.fn.rsplit('.', 1)[1] if ev.fn.startswith(WORKSPACE + '.') else None
                if m not in METHODS:
                    continue
                n += 1
                mine.append(m)
                allowed = dict([('input add', ('load', 'unload')), ('input load', ('load', 'unload')), ('input update', ('load', 'unload')),
                                ('input delete', ('delete_input', 'unload')), ('input unload', ('unload',))]).get(name, ())
                where = f'{name} at {ev.site}'
                if m not in allowed and m in ('add_input', 'delete_input'):
                    c.violation(where, f'{name} calls {m}', p.trace)
                    continue
                if m not in allowed:
                    continue
                a = ev.arg(1, 'input_nick')
                if not names_input(c, where, a, nick, p.trace):
                    continue
                if name == 'input load' and m == 'load':
                    recorded(c, where, a, ev.arg(2, 'archive'), nick, p)
                c.ok(1, f'{name}: {m} of {a!r}'[:160])
            if name == 'input delete' and p.kind == 'return':
                done += 1
                c.require('delete_input' in mine, name, 'succeeds without deleting the input', p.trace)
        if name in ('input add', 'input load', 'input update', 'input delete', 'input unload'):
            c.require(n, name, 'never touches an input', paths[0].trace)


def is_element(t):
    return t.op == 'elem' and any(x.op == 'call' and x.a[0] == WORKSPACE + '.inputs' or x.op == 'attr' and x.a[1] == 'inputs'
                                  for x in walk(t.a[0]))


def input_of(t, nick):
    """name term -> the input (specification) term it names"""
    if t is nick:
        return nick
    if t.op == 'attr' and t.a[1] == 'name':
        return t.a[0]


def same_input(t, nick):
    return t.op in ('call', 'mcall') and t.a[0 if t.op == 'call' else 1].endswith('get_input') and contains(t, nick)


def names_input(c, where, a, nick, trace):
    i = input_of(a, nick) if a is not None else None
    if i is nick or i is not None and (same_input(i, nick) or is_element(i)):
        return True
    if a is not None and (a.op in ('const', 'attr', 'cat') or not contains(a, nick) and not any(is_element(x) for x in walk(a))):
        c.violation(where, f'acts on input {a!r}', trace)
    else:
        c.inconclusive(f'{where}: name of the input is {a!r}'[:300])
    return False


def content_ids(i, nick):
    return attr(i, 'content_id')


def recorded(c, where, a, archive, nick, p):
    """the archive must have been looked up by the content id recorded for this very input"""
    i = input_of(a, nick)

    def is_cid(x):
        if x.op != 'attr' or x.a[1] != 'content_id':
            return False
        b = x.a[0]
        return b is i or (i is nick or same_input(i, nick)) and same_input(b, nick)
    by_id = [x for x in walk(archive) if x.op == 'mcall' and x.a[1] == 'by_content_id']
    for l, v in p.lits().items():
        if v is True and l.op == 'cmp' and l.a[0] == '==' and any(is_cid(x) for x in l.a[1:3]) and any(
                contains(x, archive) for x in l.a[1:3]):
            c.ok(1)
            return
    if by_id:
        for x in by_id:
            args = x.a[2] + tuple(v for _, v in x.a[3])
            if not (len(args) == 1 and is_cid(args[0])):
                if args and (contains(args[0], nick) or any(is_element(y) for y in walk(args[0]))) and not (
                        args[0].op == 'attr'):
                    c.inconclusive(f'{where}: content id {args[0]!r}'[:300])
                else:
                    c.violation(where, f'loads an archive with content id {args!r} as input {a!r}'[:400], p.trace)
                return
        c.ok(1, f'{where}: looked up by the recorded content id')
        return
    if any(is_cid(x) for x in walk(archive)) or any(x.op in ('phi', 'lv', 'ocall') for x in walk(archive)):
        c.inconclusive(f'{where}: archive is {archive!r}'[:300])
    else:
        c.violation(where, f'loads {archive!r}, which was not looked up by the recorded content id'[:400], p.trace)


def check(c):
    c.rule('add', 'recording an input changes exactly its record', adding)
    c.rule('load', 'loading records kind, content id and freeze time of the archive', loading)
    c.rule('delete', 'deleting removes exactly the record, unloading keeps everything', deleting)
    c.rule('commands', 'commands act on the named input, defined inputs are loaded by recorded content id', commands)
    c.assumptions = ['reading metadata gives back what was written last (json round trip)', 'searching by content id: C14, C16']
