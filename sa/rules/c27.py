"""Taint analysis of text which is interpreted by something else.  All operations of
the stores, the web commands and whatever else contains such a sink are interpreted
with symbolic names, identifiers, conditions and paths; the text reaching SQL,
database URIs, file name patterns, regular expressions, shells and evaluation is
taken apart into constants and data, and for each data part the escaping is followed
character by character.  The graph markup is generated for graphs with symbolic
names and scanned: each name has to be harmless in the context it appears in.
A syntax query lists all sinks of the source, each has to be reached."""
import ast
import re

from .. import cli
from ..boxsearch import Boxes, typed
from ..commandline import declarations
from ..drawing import Drawing
from ..engine import AnchorLost, Inconclusive
from ..flow import events
from ..std import *
from ..terms import *
from ..texts import Hole, parts, holes, has_data, scan, breaks, DotError, quoted_by_shell

INDEX = 'bead.box_index.BoxIndex'
RAW = 'bead.box_rawfs.RawFilesystemResolver'
COMMANDS = 'bead_cli.web.commands'
QUERY = 'bead.box_query.QueryCondition'

SQL = {'execute', 'executemany', 'executescript'}
GLOBS = {'glob', 'rglob'}
EXT_PATTERN = {'glob.glob': 0, 'glob.iglob': 0, 'fnmatch.fnmatch': 1, 'fnmatch.fnmatchcase': 1, 'fnmatch.filter': 1, 'fnmatch.translate': 0}
REGEX = {'re.compile', 're.match', 're.search', 're.fullmatch', 're.sub', 're.subn', 're.findall', 're.finditer', 're.split'}
RUN = {'subprocess.run', 'subprocess.call', 'subprocess.check_call', 'subprocess.check_output', 'subprocess.Popen'}
SHELL = {'os.system', 'os.popen', 'subprocess.getoutput', 'subprocess.getstatusoutput'}
CODE = {'builtins.eval', 'builtins.exec', 'builtins.compile', 'builtins.__import__', 'importlib.import_module', 'pickle.loads', 'pickle.load',
        'marshal.loads'}
NAMED = SQL | GLOBS | {'connect', 'iglob', 'fnmatch', 'fnmatchcase', 'eval', 'exec', '__import__', 'import_module', 'system', 'popen', 'getoutput',
                       'getstatusoutput', 'check_output', 'check_call', 'Popen'}


def judge(ev, own=()):
    """-> (what, complaint | Inconclusive | None) for an event which is a sink, else None"""
    fn = str(ev.fn or '')
    args, kw = ev.args, dict(ev.kw or ())

    def each(t, what, special, good):
        hs = [h for h in parts(t) if isinstance(h, Hole) and has_data(h.term, own)]
        for h in hs:
            if h.f is None:
                return what, Inconclusive(f'{what}: {h.term!r}'[:160])
            for c in special:
                if not good(c, h.f(c)):
                    return what, f'{h.term!r} becomes part of {what}, with {c!r} written as {h.f(c)!r}'[:300]
        return what, None

    if ev.kind in ('mcall', 'query', 'call') and fn in SQL and len(args) > 1:
        hs = holes(args[1], own)
        if hs:
            return 'SQL', f'{hs[0].term!r} becomes part of an SQL statement'[:300]
        return 'SQL', None
    if ev.kind in ('mcall', 'query') and fn in GLOBS and len(args) > 1:
        return each(args[1], 'a file name pattern', '*?[', lambda c, im: im == f'[{c}]')
    if ev.kind not in ('call', 'query'):
        return None
    if fn in EXT_PATTERN and len(args) > EXT_PATTERN[fn]:
        return each(args[EXT_PATTERN[fn]], 'a file name pattern', '*?[', lambda c, im: im == f'[{c}]')
    if fn in REGEX and args:
        what, bad = each(args[0], 'a regular expression', '\\.^$*+?{}[]|()', lambda c, im: im == '\\' + c)
        if bad is None and fn in ('re.sub', 're.subn') and len(args) > 1 and args[1].op != 'func':
            return each(args[1], 'a replacement template', '\\', lambda c, im: im == '\\\\')
        return what, bad
    if fn == 'sqlite3.connect' and args:
        uri = kw.get('uri', args[7] if len(args) > 7 else FALSE)
        if uri is FALSE:
            return 'a database URI', None
        return each(args[0], 'a database URI', '?#%', lambda c, im: re.fullmatch('(%[0-9A-F][0-9A-F])+', im) is not None)
    if fn in RUN | SHELL and args:
        a = args[0]
        shell = TRUE if fn in SHELL else kw.get('shell', FALSE)
        items = None
        if a.op in ('list', 'tuple'):
            items = [x.a[0] if x.op == 'item' else x for x in a.a]
            text = None
            if shell is not FALSE and items:
                text = items[0]
            elif len(items) > 2 and is_const(items[0]) and str(cval(items[0])).rsplit('/', 1)[-1] in ('sh', 'bash', 'dash', 'zsh', 'cmd'):
                text = items[2]
        else:
            text = a if shell is not FALSE else None
        if text is None:
            return 'a command', None
        for x in [y for y in (text.a if text.op == 'cat' else [text]) if not quoted_by_shell(y)]:
            hs = holes(x, own)
            if hs:
                return 'a command', f'{hs[0].term!r} becomes part of a shell command'[:300]
        return 'a command', None
    if fn in CODE and args:
        if has_data(args[0], own):
            return 'code', f'{args[0]!r} is evaluated'[:200]
        return 'code', None
    return None


# ---------------------------------------------------------------- roots
def queries(c):
    en = c.a.classes.get(QUERY)
    if en is None:
        raise AnchorLost(QUERY)
    names = sorted(n for n, v in en.attrs.items() if v.op == 'enum')
    if not names:
        raise AnchorLost(QUERY + ' conditions')
    out = [()] + [(n,) for n in names] + [('BEAD_NAME', n) for n in names]
    if c.thorough:
        out += [(a, b) for a in names for b in names] + [('BEAD_NAME', a, b) for a in names for b in names]
    return list(dict.fromkeys(out))


def store_roots(c, qual):
    """(name, script) for all public methods of a store"""
    if qual not in c.a.classes:
        raise AnchorLost(qual)
    methods = {n for k in c.a.mro(qual) if k in c.a.classes for n, f in c.a.classes[k].attrs.items() if f.op == 'func'}
    for n in sorted(methods):
        if n.startswith('_'):
            continue
        node = c.a.funcs[c.a.class_lookup(qual, n)[1].a[0]].node
        params = [a.arg for a in node.args.args][1:]
        for conds in (queries(c) if 'conditions' in params else [None]):
            def script(e, st, n=n, params=params, conds=conds):
                out = []
                for b, s in e.call(e.lookup_qual(qual), [sym('box folder')], [], st, None):
                    args = []
                    for p in params:
                        if p == 'conditions':
                            en = e.classes[QUERY].attrs
                            args.append(e.new_container('list', [('item', mk('tuple', en[q], sym(f'value of {q}'))) for q in conds], s))
                        else:
                            args.append(sym(p))
                    out += Boxes.method(e, b, n, args, s)
                return out
            yield f'{qual}.{n}' + (f'({", ".join(conds)})' if conds is not None else ''), script


def web_roots(c):
    t = c.a.lookup_qual(COMMANDS + '.SUBCOMMANDS')
    if t is None:
        raise AnchorLost(COMMANDS + '.SUBCOMMANDS')
    for word in ('dot', 'png', 'svg', 'view', 'save', 'load'):
        def script(e, st, word=word):
            table, st = e.get_attr(mk('mod', COMMANDS), 'SUBCOMMANDS', st)[0]
            out = []
            for cls, s in e.subscript(table, const(word), st, None):
                rest = e.new_container('list', [('item', sym('file argument'))], s)
                for cmd, s2 in e.call(cls, [rest], [], s, None):
                    out += e.call(cmd, [sym('sketch')], [], s2, None)
            return out
        yield f'bead web {word}', script


def texts(c, script, own=()):
    """[(site, what, complaint, trace)] of all interpreted texts"""
    paths = c.run(script, excs=set(), stops={**HASH, 'bead.ziparchive.ZipArchive.validate': 'pure'}, xhooks=typed({}, 'text'),
                  types={sym('sketch'): 'bead_cli.web.sketch.Sketch'}, max_recursion=2)
    out = []
    for p in paths:
        for ev in events(p.trace):
            r = judge(ev, own)
            if r is not None:
                out.append((ev.site, *r, p.trace))
    return out


def explore(c, name, script, seen):
    try:
        found = texts(c, script)
    except Inconclusive as ex:
        c.inconclusive(f'{name}: {ex}')
        return
    for s, what, bad, trace in found:
        seen.add((s.file, s.line))
        c.cov['texts'] += 1
        if isinstance(bad, Inconclusive):
            c.inconclusive(f'{name}: {bad}')
        elif bad:
            c.violation(f'{s.file}:{s.func}', f'{name}: {bad}', trace)
        else:
            c.ok()


def stores(c, seen):
    for qual in (INDEX, RAW):
        for name, script in store_roots(c, qual):
            explore(c, name, script, seen)


def web(c, seen):
    for name, script in web_roots(c):
        explore(c, name, script, seen)


# ---------------------------------------------------------------- sinks
def sinks(trees):
    """[(file, line, function qualname, call)] of all calls which look like sinks"""
    out = []
    for mod, (rel, tree) in trees.items():
        aliases = {}
        for n in ast.walk(tree):
            if isinstance(n, ast.ImportFrom) and n.module:
                for a in n.names:
                    aliases[a.asname or a.name] = f'{n.module}.{a.name}'
            elif isinstance(n, ast.Import):
                for a in n.names:
                    aliases[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]

        def visit(n, qual):
            for ch in ast.iter_child_nodes(n):
                q = f'{qual}.{ch.name}' if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) else qual
                if isinstance(ch, ast.Call):
                    f = ch.func
                    full = None
                    last = None
                    if isinstance(f, ast.Name):
                        full, last = aliases.get(f.id, 'builtins.' + f.id), f.id
                    elif isinstance(f, ast.Attribute):
                        last = f.attr
                        if isinstance(f.value, ast.Name) and f.value.id in aliases:
                            full = f'{aliases[f.value.id]}.{f.attr}'
                    hit = full in EXT_PATTERN or full in REGEX or full in RUN | SHELL | CODE or full == 'sqlite3.connect'
                    hit = hit or isinstance(f, ast.Attribute) and last in SQL | GLOBS and (full is None or full not in REGEX)
                    if hit:
                        out.append((rel, ch.lineno, q, ch, full or last))
                visit(ch, q)
        visit(tree, mod)
    return out


def fixed(call):
    """the interpreted text is written out"""
    xs = call.args[:2] if call.args else [k.value for k in call.keywords]
    return bool(xs) and all(isinstance(x, ast.Constant) for x in xs[:1])


def callers(trees, name):
    """qualified names of the functions which call something of this name"""
    out = set()
    for mod, (rel, tree) in trees.items():
        def visit(n, qual):
            for ch in ast.iter_child_nodes(n):
                q = f'{qual}.{ch.name}' if isinstance(ch, (ast.FunctionDef, ast.ClassDef)) else qual
                if isinstance(ch, (ast.Name, ast.Attribute)) and (ch.id if isinstance(ch, ast.Name) else ch.attr) == name and isinstance(ch.ctx, ast.Load):
                    out.add(q)
                visit(ch, q)
        visit(tree, mod)
    return out


def trees_of(c):
    return {m: (m.replace('.', '/') + '.py', t) for m, t in c.a.trees.items() if not m.rsplit('.', 1)[-1].startswith(('test_', 'conftest'))}


def function(c, q):
    """-> (term, script calling it with symbolic arguments)"""
    f = c.a.lookup_qual(q)
    cls = q.rsplit('.', 1)[0]
    if f is None and cls in c.a.classes:
        f = c.a.class_lookup(cls, q.rsplit('.', 1)[1])[1]
    if f is None or f.op != 'func':
        return None
    names = [a.arg for a in c.a.funcs[f.a[0]].node.args.args]

    def script(e, st):
        ar = [sym(f'{n} of {q}') for n in names]
        if cls in c.a.classes and ar:
            e.types[ar[0]] = cls
        return e.call(f, ar, [], st, None)
    return script


def covered(c, seen):
    """A place which the operations above do not reach: the function itself is
    analysed with arbitrary arguments; if that gives a complaint, then the
    functions calling it are, up to those which nobody calls."""
    trees = trees_of(c)
    found = sinks(trees)
    if not found:
        raise AnchorLost('no sink found at all')
    for rel, line, qual, call, full in found:
        c.cov['sinks'] += 1
        if (rel, line) in seen or fixed(call) or qual in trees:
            c.ok()
            continue
        todo, visited, open_ = [(qual, 0)], set(), []
        while todo:
            q, depth = todo.pop(0)
            if q in visited or q in trees:
                continue
            visited.add(q)
            script = function(c, q)
            up = sorted(callers(trees, q.rsplit('.', 1)[-1]) - {q})
            got = []
            if script is not None:
                try:
                    got = [x for x in texts(c, script) if (x[0].file, x[0].line) == (rel, line)]
                except Inconclusive as ex:
                    open_.append(f'{q}: {ex}')
            bad = [x for x in got if x[2]]
            c.cov['texts'] += len(got)
            if got and not bad:
                continue
            cls = q.rsplit('.', 1)[0]
            root = q.endswith('.run') and cls in c.a.classes and c.a.class_lookup(cls, 'declare')[1] is not None
            if depth and not up or root:
                for x in bad:
                    if isinstance(x[2], Inconclusive):
                        open_.append(f'{q}: {x[2]}')
                    else:
                        c.violation(f'{x[0].file}:{x[0].func}', f'{q}: {x[2]}', x[3])
            elif not up and not depth and not root:
                c.cov['unused'] += 1            # nobody calls it
            elif depth < 4 and not root:
                todo += [(u, depth + 1) for u in up]
            elif bad:
                open_.append(f'{q}: {bad[0][2]}')
            if not got and not up and depth:
                open_.append(f'{rel}:{line} ({full}) is not reached from {q}')
        if open_:
            c.inconclusive(open_[0])
        else:
            c.ok()


# ---------------------------------------------------------------- markup
GRAPHS = ['A1', 'A1 B2<A1', 'A1 A2 B3<A1+A2', 'B2<X1', 'A1:S A2:U B3<A1:O']


def markup(c):
    for text in GRAPHS:
        d = Drawing(text)
        times = {sym(f't{b.time}') for b in d.beads} | {sym('t' + u[1:]) for b in d.beads for u in b.uses}
        drawn = False
        for p in d.draw(c):
            if p.kind != 'return':
                continue
            drawn = True
            ps = parts(p.value)
            if not any(isinstance(x, str) and 'graph' in x for x in ps):
                c.inconclusive(f'graph "{text}": the text is {p.value!r}'[:160])
                continue
            try:
                s = scan(ps)
            except DotError as e:
                c.violation('graph markup', f'graph "{text}": {e}', p.trace)
                continue
            for hole, state, esc in s.contexts:
                if not has_data(hole.term, times):      # times were parsed when the versions were sorted
                    continue
                if hole.f is None:
                    c.inconclusive(f'graph "{text}": {hole.term!r}'[:160])
                    continue
                why = breaks(state, esc, hole.f)
                c.require(not why, 'graph markup', f'graph "{text}": {why} for {hole.term!r}'[:300], p.trace)
        if not drawn:
            c.inconclusive(f'graph "{text}" is not drawn')


def selftest(c):
    """the rules find what they are for"""
    v = sym('v')
    cases = [
        (True, 'mcall', 'execute', (sym('c'), cat([const('SELECT "'), v, const('"')])), ()),
        (False, 'mcall', 'execute', (sym('c'), const('SELECT ?'), v), ()),
        (True, 'query', 'glob', (sym('d'), cat([v, const('*.zip')])), ()),
        (False, 'query', 'glob', (sym('d'), cat([mk('call', 'glob.escape', (v,), ()), const('*.zip')])), ()),
        (True, 'call', 'sqlite3.connect', (cat([const('file:'), v]),), (('uri', TRUE),)),
        (False, 'call', 'sqlite3.connect', (v,), ()),
        (True, 'call', 'subprocess.run', (cat([const('dot '), v]),), (('shell', TRUE),)),
        (False, 'call', 'subprocess.run', (mk('tuple', const('dot'), v),), ()),
        (True, 'call', 'os.system', (v,), ()),
        (True, 'call', 'builtins.eval', (v,), ()),
        (True, 'query', 're.compile', (v,), ()),
    ]

    class E:
        pass
    for bad, kind, fn, args, kw in cases:
        ev = E()
        ev.kind, ev.fn, ev.args, ev.kw = kind, fn, args, kw
        r = judge(ev)
        if r is None or bool(r[1]) != bad:
            raise AnchorLost(f'self-test of {fn}')
    tree = ast.parse('import glob, sqlite3 as s\ndef f(x):\n  s.connect(x)\n  glob.glob(x)\n  x.execute(x)\n  eval(x)')
    if len(sinks({'m': ('m.py', tree)})) != 4:
        raise AnchorLost('self-test of the list of sinks')
    for text, bad in (('"%"', True), ('<%>', True), ('%', True)):
        a, b = text.split('%')
        s = scan([a, Hole(v, lambda ch: ch), b])
        if not breaks(*s.contexts[0][1:], lambda ch: ch):
            raise AnchorLost('self-test of markup')
    c.ok()


PLACED = sym('enclosing workspace')
PLACE = WORKSPACE + '.for_current_working_directory'


def templates(c):
    """what is shown of defaults: the help of arguments is a template for %"""
    n = 0
    for name, cls in sorted(cli.commands(c.a).items()):
        found = []

        def script(e, st):
            f, _, st = declarations(e, cls, st)
            found.append(f)
            return [(NONE, st)]
        c.run(script, excs=set(), stops={PLACE: lambda e, q, a, st, n: [(PLACED, st)]})
        if len(found) != 1:
            raise Inconclusive(f'arguments of {name}')
        for flags, kw in found[0]:
            h = kw.get('help')
            if h is None or not any(x is PLACED or x.op == 'call' and x.a[0] in ('os.getcwd', 'pathlib.Path.cwd') for x in walk(h)):
                continue
            n += 1
            for x in parts(h):
                if isinstance(x, Hole):
                    if x.f is None:
                        raise Inconclusive(f'help: {x.term!r}'[:160])
                    c.require(x.f('%') == '%%', f'command {name}, help of {" ".join(flags)}',
                              f'{x.term!r} becomes part of a template of text, with "%" written as {x.f("%")!r}'[:300])
    c.cov['help with names of folders'] = n


def check(c):
    seen = set()
    c.rule('help', 'names of folders in the help of arguments are no part of its template', templates)
    c.rule('self-test', 'each kind of sink is recognised', selftest)
    c.rule('stores', 'text given to SQL, URIs and patterns by the stores', lambda c: stores(c, seen), 300)
    c.rule('web', 'text given to commands by bead web', lambda c: web(c, seen))
    c.rule('sinks', 'all other places where text is interpreted', lambda c: covered(c, seen))
    c.rule('markup', 'names in generated graphs are escaped as their context needs', markup)
    c.assumptions += ['content ids in ports of the graph markup are hexadecimal', 'escape functions of the Python library work character by character']
