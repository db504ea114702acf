"""What argparse makes of a command line: the declarations of a command are
interpreted from its source and the given options applied to them."""
from .engine import Inconclusive
from .terms import *

PARSER = 'bead_cli.cmdparse.Parser'
ARGPARSER = sym('@argparser')


def declarations(e, cls, st):
    """-> ([(flags, keywords)], instance of the command, state)"""
    found = []

    def add(e, recv, args, kw, st, node):
        if not any(x is ARGPARSER for x in walk(recv)):
            return None
        kw = dict(kw)
        if recv.op == 'mcall' and recv.a[1] == 'add_mutually_exclusive_group':
            kw['@group'] = recv
        found.append(([cval(a) for a in args if is_const(a)], kw))
        return [(sym('@argument'), st)]

    old, deep = e.mhooks, e.max_recursion
    e.mhooks = dict(old, add_argument=add)
    e.max_recursion = max(deep, 2)      # arguments declared by functions given to Parser.arg
    try:
        def one(outs):
            if len(outs) != 1:
                raise Inconclusive('declaration of arguments')
            return outs[0]
        p, st = one(e.call(e.lookup_qual(PARSER), [ARGPARSER, e.new_container('dict', [], st)], [], st, None))
        f, st = one(e.get_attr(p, 'arg', st))
        cmd, st = one(e.call(e.lookup_qual(cls), [], [], st, None))
        d, st = one(e.get_attr(cmd, 'declare', st))
        _, st = one(e.call(d, [f], [], st, None))
    finally:
        e.mhooks, e.max_recursion = old, deep
    return found, cmd, st


def destination(flags, kw):
    if 'dest' in kw:
        return cval(kw['dest']) if is_const(kw['dest']) else None
    for f in sorted(flags, key=lambda f: not f.startswith('--')):
        return f.lstrip('-').replace('-', '_')


def parse(found, words):
    """words: flags (text), (flag, value) pairs for flags having a value, and terms
    for the positional arguments.  -> {destination: term}, or None when argparse
    refuses the command line"""
    out = {}
    flags = {}
    groups = {}
    pos = []
    for names, kw in found:
        if not names:
            raise Inconclusive('argument without a name')
        d = destination(names, kw)
        if d is None:
            raise Inconclusive('argument without a known destination')
        opt = names[0].startswith('-')
        act = kw.get('action', const('store'))
        act = cval(act) if is_const(act) else None
        if act not in ('store', 'store_true', 'store_false', 'store_const'):
            raise Inconclusive(f'action {act} of argument {d}')
        out.setdefault(d, kw['default'] if 'default' in kw else const(False) if act == 'store_true' else const(True) if act == 'store_false' else NONE)
        if opt:
            for n in names:
                flags[n] = (d, act, kw)
        else:
            n = kw.get('nargs', NONE)
            if n not in (NONE, const('?')):
                raise Inconclusive(f'number of arguments {d}')
            pos.append((d, n is NONE))
    given = [w for w in words if isinstance(w, T)]
    if len(given) > len(pos) or any(need for d, need in pos[len(given):]):
        return None
    for (d, _), w in zip(pos, given):
        out[d] = w
    for w in words:
        if isinstance(w, T):
            continue
        f, v = w if isinstance(w, tuple) else (w, None)
        if f not in flags:
            return None
        d, act, kw = flags[f]
        if (act == 'store') != (v is not None):
            return None
        if '@group' in kw:
            if groups.setdefault(kw['@group'], d) != d:
                return None
        out[d] = v if act == 'store' else const(act == 'store_true') if act != 'store_const' else kw.get('const', NONE)
    return out
