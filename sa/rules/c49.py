"""Scenario interpretation of finding the workspace of a command.  The search from the
current directory is interpreted for known directories at several depths with every
combination of them being valid workspaces: the result has to be the nearest valid one,
or the current directory when there is none.  The arguments of every command working on
an existing workspace are interpreted from its declaration: without one given the
workspace is the one found that way, a given one is opened as it is given; and every
operation on a workspace in these commands is on that one."""
import itertools

from .. import cli, constpath
from ..cli import ARGS, ENV, WS
from ..commandline import declarations, parse
from ..engine import AnchorLost, Ev, Inconclusive
from ..flow import events
from ..graphs import undecided
from ..std import *
from ..terms import *

FIND = WORKSPACE + '.for_current_working_directory'
COMMANDS = ('save', 'status', 'discard', 'nuke', 'input add', 'input delete', 'input rm', 'input update', 'input load', 'input unload')


ELSEWHERE = '/folder/told/by the environment'


def dirs(path):
    out = [path]
    while out[-1] != '/':
        out.append(out[-1].rsplit('/', 1)[0] or '/')
    return out


def nearest(c):
    cls = c.a.lookup_qual(WORKSPACE)
    x, m = constpath.FUNCTIONS, constpath.METHODS
    for cwd in ('/', '/a', '/a/b', '/a/b/c', '/a/a/a') + (('/a/b/c/d',) if c.thorough else ()):
        all_dirs = dirs(cwd)
        for n in range(len(all_dirs) + 1):
            for valid in itertools.combinations(all_dirs, n):
                one(c, cls, cwd, valid, next((d for d in all_dirs if d in valid), cwd), x, m)


def where(e, ws, st):
    out = []
    for d, s in e.get_attr(ws, 'directory', st):
        out.append((d, s))
    return out


def one(c, cls, cwd, valid, want, x, m):
    def is_valid(e, qual, sargs, st, node):
        outs = []
        for d, s in where(e, sargs[0], st):
            if not is_const(d):
                raise Inconclusive(f'directory of a workspace {d!r}'[:120])
            outs.append((const(str(cval(d)) in valid + (ELSEWHERE,)), s))
        return outs

    def here(e, *rest):
        return [(const(cwd), rest[-2])]

    def variable(e, args, kw, st, node):
        # the environment is the word of somebody else
        known = args and is_const(args[0]) and cval(args[0]) in ('PWD', 'OLDPWD')
        return [(const(ELSEWHERE) if known else (args[1] if len(args) > 1 else NONE), st)]

    def exists(e, *rest):
        t = rest[0][0] if isinstance(rest[0], (list, tuple)) else rest[0]
        return [(const(str(cval(t)) in dirs(cwd) + [ELSEWHERE]), rest[-2])] if is_const(t) else None

    def same(e, *rest):
        a, b = [*(rest[0] if isinstance(rest[0], (list, tuple)) else [rest[0], *rest[1]])][:2]
        return [(const(str(cval(a)) == str(cval(b))), rest[-2])] if is_const(a) and is_const(b) else None
    m = {**m, **{n: exists for n in ('is_dir', 'exists') if n not in m}, 'samefile': same}
    x = {**x, **{n: exists for n in ('os.path.isdir', 'os.path.exists') if n not in x}, 'os.path.samefile': same,
         'os.environ.get': variable, 'os.getenv': variable}

    def script(e, st):
        outs = []
        f, st = e.get_attr(cls, FIND.rsplit('.', 1)[1], st)[0]
        for ws, s in e.call(f, [], [], st, None):
            outs += where(e, ws, s)
        return outs
    what = f'in {cwd} with the valid workspaces {", ".join(valid) or "(none)"}'
    ps = c.run(script, stops={WORKSPACE + '.is_valid': is_valid}, excs=set(),
               xhooks={**x, 'os.getcwd': here, 'pathlib.Path.cwd': here}, mhooks=m, unroll=12)
    c.cov['scenarios'] += 1
    for p in ps:
        if p.kind == 'return' and is_const(p.value):
            got = str(cval(p.value))
            c.require(got == want, FIND, f'{what} is {got} instead of {want}', p.trace, what)
        elif undecided(p) or p.kind == 'return':
            c.inconclusive(FIND, f'{what} is {p.value!r}'[:150])
        else:
            c.violation(FIND, f'{what} fails with {p.value!r}'[:200], p.trace)


def defaults(c):
    table = cli.commands(c.a)
    for name in COMMANDS:
        c.anchor(name in table, f'command {name}')
        seen = {}

        def script(e, st):
            found, cmd, st = declarations(e, table[name], st)
            seen['found'] = found
            return [(NONE, st)]
        c.run(script, stops={FIND: 'pure'}, excs=set())
        args = [(names, kw) for names, kw in seen['found'] if 'workspace' in (kw['dest'] and cval(kw['dest']) if 'dest' in kw else ' '.join(names))]
        if len(args) != 1:
            raise Inconclusive(f'arguments of {name} naming a workspace: {len(args)}')
        (names, kw), = args
        d = kw.get('default')
        if d is None or is_const(d):
            c.violation(f'arguments of {name}', f'the workspace is {d!r} when none is given')
        elif d.op == 'call' and d.a[0] == FIND:
            c.ok(1, f'{name}: found from the current directory')
        elif any(x.op == 'call' and x.a[0] == FIND for x in walk(d)) or d.op != 'obj':
            c.inconclusive(f'default workspace of {name} {d!r}'[:150])
        else:
            c.violation(f'arguments of {name}', 'the workspace is not searched for when none is given')
        t = kw.get('type')
        if t is not None and t is c.a.lookup_qual(WORKSPACE):
            c.ok(1, f'{name}: given workspace')
        elif t is None:
            c.violation(f'arguments of {name}', 'a given workspace is not opened')
        else:
            c.inconclusive(f'type of the workspace argument of {name}: {t!r}'[:150])


def used(c):
    def use(e, qual, sargs, st, node):
        st.emit(Ev('call', '@use', (const(qual),) + tuple(sargs), site=e.site(node)))
        return [(mk('call', qual, tuple(sargs), ()), st)]
    for name in COMMANDS:
        ps = cli.run_command(c, name, stops={**FSOPS, **HASH, WORKSPACE + '.*': use, 'bead.box.*': 'pure', ARCHIVE + '.*': 'pure', ARCHIVE: 'pure'},
                             excs=set())
        n = 0
        for p in ps:
            for x in events(p.trace):
                if x.kind == 'call' and x.fn == '@use' and len(x.args) > 1:
                    n += 1
                    q = cval(x.args[0])
                    if x.args[1] is WS:
                        c.ok()
                    elif x.args[1].op in ('obj', 'cls', 'call'):
                        c.violation(f'command {name}', f'{q} is called for {x.args[1]!r}, not for the workspace of the command'[:200], p.trace)
                    else:
                        c.inconclusive(f'command {name}: {q} of {x.args[1]!r}'[:150])
        c.anchor(n or name == 'save', f'uses of the workspace in {name}')


def check(c):
    if c.a.lookup_qual(FIND) is None:
        raise AnchorLost(FIND)
    c.rule('nearest', 'the workspace found is the nearest valid one at or above the current directory, or the current directory', nearest)
    c.rule('defaults', 'commands find their workspace from the current directory unless one is given', defaults)
    c.rule('used', 'commands work on that workspace', used)
    c.assumptions += ['no symbolic links among the directories above the current one (os.getcwd gives the real path)', 'what is valid is decided by C12']
