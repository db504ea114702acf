"""Whole-program, path-sensitive dataflow over the source of /repo.

Every non-test module is parsed; nothing of the repository is imported or run.
An entry point is evaluated over provenance terms (terms.py): calls into the
repository are followed (inlined), calls out of it become events on the path.
Conditions that are not decided by the terms split the path (trace
partitioning); loops over unknown collections are analysed once with
loop-carried variables widened.
"""
import ast
import builtins
import os

from .terms import (
    T, mk, const, NONE, TRUE, FALSE, is_const, cval, sym, attr, cat, path, walk,
    show)


class Inconclusive(Exception):
    pass


class AnchorLost(Exception):
    pass


class Site(tuple):
    def __new__(cls, file, func, line):
        return tuple.__new__(cls, (file, func, line))

    file = property(lambda s: s[0])
    func = property(lambda s: s[1])
    line = property(lambda s: s[2])

    def __str__(self):
        return f'{self[0]}:{self[2]} ({self[1]})'


class Ev:
    """One event on a path."""
    __slots__ = ('kind', 'fn', 'args', 'kw', 'res', 'site', 'x')

    def __init__(self, kind, fn=None, args=(), kw=(), res=None, site=None, x=None):
        self.kind = kind
        self.fn = fn
        self.args = args
        self.kw = kw
        self.res = res
        self.site = site
        self.x = x

    def kwarg(self, name, default=None):
        for k, v in self.kw:
            if k == name:
                return v
        return default

    def arg(self, i, name=None, default=None):
        if i is not None and i < len(self.args):
            return self.args[i]
        if name is not None:
            return self.kwarg(name, default)
        return default

    def key(self):
        return (self.kind, self.fn, self.args, self.kw, self.site)

    def __repr__(self):
        if self.kind == 'assume':
            return f'assume {show(self.fn)} is {self.x}'
        if self.kind == 'loop':
            return f'loop over {show(self.fn)} [{len(self.x)} paths]'
        kw = ''.join(f', {k}={show(v)}' for k, v in self.kw)
        fn = self.fn if isinstance(self.fn, str) else show(self.fn) if self.fn else ''
        return f'{self.kind} {fn}({", ".join(show(a) for a in self.args)}{kw})'


class Path:
    """One outcome of an analysed entry point."""
    def __init__(self, kind, value, state, trace):
        self.kind = kind          # 'return' | 'raise' | 'next' | 'continue' | 'break'
        self.value = value
        self.state = state
        self.trace = trace

    def __repr__(self):
        return f'<{self.kind} {show(self.value) if self.value else ""}>'

    def lits(self):
        return dict(self.state.lits)


class HObj:
    __slots__ = ('kind', 'cls', 'data', 'mark', 'loops', 'grown')

    def __init__(self, kind, cls=None, data=None, mark=None, loops=0, grown=False):
        self.kind = kind      # 'inst' | 'list' | 'set' | 'dict' | 'gen' | 'cm' | 'iter'
        self.cls = cls
        self.data = data      # inst: dict; containers: tuple of entries
        self.mark = mark
        self.loops = loops
        self.grown = grown

    def with_data(self, data, grown=None):
        return HObj(self.kind, self.cls, data, self.mark, self.loops,
                    self.grown if grown is None else grown)


# container entries: ('item', v) | ('kv', k, v) | ('comp', ctx, v) | ('kvcomp', ctx, k, v)
#                  | ('all', t)  (contents of another iterable)  | ('rest',) unknown rest
# ctx = tuple of (iterT, elemT, lits tuple)


class State:
    __slots__ = ('frames', 'heap', 'lits', 'trace', 'loops', 'fp', 'nid', 'exc',
                 'overlay', 'pending', 'eqc', 'owned')

    def fork(self):
        s = State.__new__(State)
        s.frames = dict(self.frames)
        self.owned = set()
        s.owned = set()
        s.heap = dict(self.heap)
        s.lits = dict(self.lits)
        s.trace = self.trace
        s.loops = self.loops
        s.fp = self.fp
        s.nid = self.nid
        s.exc = self.exc
        s.overlay = dict(self.overlay)
        s.pending = self.pending
        s.eqc = self.eqc
        return s

    def wframe(self, fid):
        """The frame, for writing (copy on write)."""
        if fid not in self.owned:
            self.frames[fid] = dict(self.frames[fid])
            self.owned.add(fid)
        return self.frames[fid]

    def fresh(self):
        self.nid += 1
        return self.nid

    def emit(self, ev):
        self.trace = (self.trace, ev)
        if ev.kind in ('call', 'mcall', 'ocall') and self.lits and not harmless(ev):
            stale = [t for t in self.lits if depends_on_fs(t)]
            for t in stale:
                del self.lits[t]


FS_QUERIES = {'exists', 'is_dir', 'is_file', 'is_symlink', 'lexists', 'stat', 'lstat'}
HARMLESS_CALLS = {
    'builtins.print', 'json.load', 'json.loads', 'json.dumps', 'os.listdir', 'os.stat', 'builtins.open',
    'os.walk', 'zipfile.ZipFile', 'sys.stderr.write', 'sys.stdout.write', 'hashlib.sha512'}
HARMLESS_MCALLS = {
    '__exit__', '__enter__', 'read', 'namelist', 'getinfo', 'close', 'hexdigest', 'update', 'fetchall',
    'fetchone', 'flush', 'glob', 'open', 'read_text', 'read_bytes'}
_fsdep = {}


def harmless(ev):
    """The call cannot change what a file system query answers."""
    if ev.kind == 'mcall':
        if ev.fn == 'open':
            return not any(is_const(m) and isinstance(cval(m), str) and len(cval(m)) < 4 and set(cval(m)) & set('wax+')
                           for m in list(ev.args[1:]) + [v for k, v in ev.kw or ()])
        return ev.fn in HARMLESS_MCALLS
    if ev.fn in ('builtins.open', 'zipfile.ZipFile'):
        m = ev.arg(1, 'mode')
        return m is None or (is_const(m) and isinstance(cval(m), str) and not set(cval(m)) & set('wax+'))
    return isinstance(ev.fn, str) and ev.fn in HARMLESS_CALLS


def depends_on_fs(t):
    r = _fsdep.get(t)
    if r is None:
        r = any(x.op == 'mcall' and x.a[1] in FS_QUERIES or x.op == 'call' and x.a[0] in ('os.path.lexists',)
                for x in walk(t))
        _fsdep[t] = r
    return r


def trace_list(tr, until=None):
    out = []
    while tr is not None and tr is not until:
        out.append(tr[1])
        tr = tr[0]
    out.reverse()
    return out


class Func:
    def __init__(self, qual, node, module, frame, cls, decos, file):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.decos = decos
        self.file = file
        self.is_gen = False
        self.memo = False       # remembers its results
        if not isinstance(node, ast.Lambda):
            self.is_gen = has_yield(node)
        self.abstract = 'abc.abstractmethod' in decos


MUTATORS = {'add', 'append', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'discard', 'remove', 'insert', 'extend',
            '__setitem__', 'difference_update', 'intersection_update', 'move_to_end', 'sort', 'reverse', 'appendleft', 'popleft'}


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
    return out


def declared_global(fn):
    return {x for n in ast.walk(fn) if isinstance(n, ast.Global) for x in n.names}


def changed_names(fn):
    """names whose objects the function changes: (name, 'in' place or 'set' anew)"""
    def name(t):
        return t.id if isinstance(t, ast.Name) else None
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and name(n.func.value):
            yield name(n.func.value), 'in'
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and name(n.value):
            yield name(n.value), 'in'
        elif isinstance(n, ast.AugAssign) and name(n.target):
            yield name(n.target), 'set'
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id, 'set'


def has_yield(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Cls:
    def __init__(self, qual, node, module, bases, ext_bases):
        self.qual = qual
        self.node = node
        self.module = module
        self.bases = bases
        self.ext_bases = ext_bases
        self.attrs = {}       # name -> term
        self.ann = []         # annotated fields in order: (name, ann node, value node)
        self.props = {}       # name -> {'get': func term, 'set': func term}
        self.is_enum = False
        self.is_attrs = None  # None | dict of options
        self.protocol = False
        self.file = None


BUILTIN_METHODS = set()
for _t in (str, bytes, dict, list, set, tuple, int, float, frozenset, object):
    BUILTIN_METHODS.update(dir(_t))
BUILTIN_METHODS.update(
    'open close read write readline seek flush exists is_dir is_file is_symlink unlink glob rglob '
    'iterdir mkdir rmdir rename replace touch resolve absolute relative_to joinpath with_suffix '
    'with_name stat chmod write_text write_bytes read_text read_bytes as_posix match parent '
    'parts execute commit rollback fetchall fetchone cursor namelist getinfo infolist extractall '
    'extract writestr testzip group groupdict add_argument parse_args set_defaults run create load save'
    .split())
BUILTIN_METHODS -= {'create', 'load', 'save', 'run'}

PURE_EXT_PREFIX = (
    'os.path.dirname', 'os.path.basename', 'os.path.splitext', 'os.path.join',
    'os.path.normpath', 'os.path.sep', 'html.', 're.', 'hashlib.', 'datetime.', 'operator.',
    'itertools.', 'functools.', 'builtins.', 'collections.', 'textwrap.', 'glob.escape',
    'copy.', 'typing.', 'string.', 'shlex.quote', 'attr.', 'contextlib.', 'enum.',
    'urllib.parse.', 'json.dumps', 'json.loads', 'argparse.')

IMPURE_BUILTINS = {'print', 'open', 'setattr', 'delattr', 'exec', 'eval', 'input'}

NO_RAISE = {
    'builtins.print', 'os.path.exists', 'os.path.lexists', 'os.path.isdir', 'os.path.isfile', 'os.path.islink',
    'os.path.dirname', 'os.path.basename', 'os.path.splitext', 'os.path.join',
    'os.path.normpath', 'builtins.len', 'builtins.str', 'builtins.repr', 'builtins.isinstance',
    'builtins.hasattr', 'builtins.bool', 'contextlib.closing', 'tracelog.TRACELOG',
    'sys.stderr.write', 'sys.stdout.write', 'traceback.format_exc', 'builtins.vars',
    'hashlib.sha512', 'glob.escape', 'copy.deepcopy', 'builtins.iter', 'builtins.tuple',
    'builtins.list', 'builtins.set', 'builtins.frozenset', 'builtins.dict', 'builtins.range',
    'builtins.enumerate', 'builtins.zip', 'builtins.reversed', 'builtins.type',
    'builtins.callable', 'builtins.issubclass', 'html.escape', 'os.path.abspath',
    'functools.partial', 'builtins.sorted', 'builtins.min', 'builtins.max', 'builtins.sum',
    'builtins.abs',
}
NO_RAISE_M = {
    'exists', 'lexists', 'is_dir', 'is_file', 'is_symlink', 'as_posix', 'startswith', 'endswith', 'items', 'keys', 'values',
    'append', 'add', 'extend', 'get', 'joinpath', 'namelist', 'infolist', 'groupdict', 'strip', 'rstrip', 'lstrip',
    'replace', 'split', 'rsplit', 'lower', 'upper', 'hexdigest', 'update', 'isoformat', 'union',
    'intersection', 'difference', 'setdefault', 'discard', 'copy', 'with_suffix', 'partition',
    'rpartition', 'removeprefix', 'removesuffix', 'splitlines', 'close', '__exit__', '__enter__',
    'format', 'join', 'is_symlink', 'absolute', 'as_uri', 'total_seconds', 'utcoffset', 'timestamp',
}
# kinds of exception a call out of the repository may raise (default: OSError + OtherError)
EXC_EXT = {
    'builtins.open': ('OSError',),
    'os.chmod': ('OSError',), 'os.stat': ('OSError',), 'os.makedirs': ('OSError',),
    'os.listdir': ('OSError',), 'os.unlink': ('OSError',), 'os.remove': ('OSError',),
    'os.getcwd': ('OSError',), 'os.walk': (), 'os.path.getsize': ('OSError',),
    'shutil.rmtree': ('OSError',), 'shutil.copyfileobj': ('OSError', 'OtherError'),
    'zipfile.ZipFile': ('zipfile.BadZipFile', 'OSError'),
    'json.load': ('json.JSONDecodeError', 'OSError'), 'json.loads': ('json.JSONDecodeError',),
    'json.dump': ('OSError', 'TypeError'), 'json.dumps': ('TypeError',),
    'sqlite3.connect': ('sqlite3.Error',),
    'bead.tech.timestamp.time_from_timestamp': ('ValueError',),
    'builtins.int': ('ValueError',),
    'bead.box.resolve': ('LookupError', 'ValueError', 'bead.exceptions.InvalidArchive'),
    'bead.box.Box.resolve': ('LookupError', 'ValueError', 'bead.exceptions.InvalidArchive'),
    'bead_cli.common.resolve_bead': ('LookupError', 'ValueError', 'bead.exceptions.InvalidArchive'),
}
EXC_M = {
    'unlink': ('OSError',), 'write': ('OSError', 'OtherError'), 'writestr': ('OSError', 'OtherError'),
    'execute': ('sqlite3.Error',), 'commit': ('sqlite3.Error',), 'fetchall': ('sqlite3.Error',),
    'fetchone': ('sqlite3.Error',), 'getinfo': ('KeyError',), 'read': ('OSError', 'zipfile.BadZipFile'),
    'open': ('KeyError', 'OSError', 'zipfile.BadZipFile'), 'relative_to': ('ValueError',),
    'glob': (), 'resolve': ('OSError',), 'write_text': ('OSError',), 'write_bytes': ('OSError',),
    'read_text': ('OSError',), 'mkdir': ('OSError',), 'stat': ('OSError',), 'encode': ('UnicodeError',),
    'index': ('ValueError',), 'remove': ('ValueError', 'KeyError'), 'pop': ('KeyError', 'IndexError'),
    'first': ('LookupError',), 'newest': ('LookupError',), 'oldest': ('LookupError',),
    'newer': ('LookupError',), 'older': ('LookupError',), 'parse_args': ('SystemExit',), 'rename': ('OSError',),
}
EXT_EXC_BASE = {
    'zipfile.BadZipFile': 'Exception', 'json.JSONDecodeError': 'ValueError',
    'json.decoder.JSONDecodeError': 'ValueError', 'zipfile.BadZipfile': 'Exception',
    'sqlite3.Error': 'Exception', 'sqlite3.DatabaseError': 'sqlite3.Error',
    'sqlite3.OperationalError': 'sqlite3.DatabaseError',
    'sqlite3.IntegrityError': 'sqlite3.DatabaseError',
    'importlib.metadata.PackageNotFoundError': 'ModuleNotFoundError',
    'subprocess.CalledProcessError': 'subprocess.SubprocessError',
    'subprocess.SubprocessError': 'Exception',
    'OtherError': 'Exception',
    'zlib.error': 'Exception',
    'shutil.Error': 'OSError',
    'argparse.ArgumentError': 'Exception',
}
# what an external call may raise, standing for any of its subclasses
BROAD = {'OSError', 'sqlite3.Error', 'sqlite3.DatabaseError', 'UnicodeError'}
EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError',
             'zipfile.BadZipfile': 'zipfile.BadZipFile',
             'json.decoder.JSONDecodeError': 'json.JSONDecodeError'}

_OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
        ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<',
        ast.RShift: '>>', ast.MatMult: '@'}
_IDENT_METHODS = {'as_posix', '__str__', '__fspath__'}


class Engine:
    def __init__(self, root='/repo', max_paths=6000, max_depth=40):
        self.root = root
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.modules = {}      # name -> dict(frame id, tree, file)
        self.funcs = {}        # func qual -> Func
        self.classes = {}      # qual -> Cls
        self.src_funcs = {}    # id(node) -> Func qual
        self.by_method = {}
        self.types = {}        # term -> class qual
        self.elem_types = {}
        self.consulted = set()
        self.stats = {'functions': set(), 'calls': 0, 'paths': 0, 'events': 0}
        self.reset_options()
        self.sinks = [[]]
        self.stack = []
        self.ycb = []
        self.base = self._new_state()
        self._load_all()
        self._index_methods()
        self._forget_globals()

    # ------------------------------------------------------------------ options
    def reset_options(self):
        self.exc_all = False
        self.ki = False
        self.excs = None
        self.zip_cache = 'stop'
        self.stops = {}
        self.pure_stops = set()
        self.no_stop = set()
        self.n_paths = 0
        self.unroll = 0
        self.assume_valid = []
        self.unroll_try = True
        self.hooks = []
        self.time_stop = True

    def _new_state(self):
        s = State.__new__(State)
        s.frames = {}
        s.owned = set()
        s.heap = {}
        s.lits = {}
        s.trace = None
        s.loops = ()
        s.fp = None
        s.nid = 0
        s.exc = None
        s.overlay = {}
        s.pending = None
        s.eqc = None
        return s

    # ------------------------------------------------------------------ loading
    def _load_all(self):
        self.files = {}
        for top in ('bead', 'bead_cli'):
            base = os.path.join(self.root, top)
            for d, dirs, files in sorted(os.walk(base)):
                dirs.sort()
                for f in sorted(files):
                    if not f.endswith('.py') or f.startswith('test_') or f == 'conftest.py':
                        continue
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)
                    parts = rel[:-3].split(os.sep)
                    if parts[-1] == '__init__':
                        parts = parts[:-1]
                    self.files['.'.join(parts)] = (p, rel, f == '__init__.py')
        for f in ('tracelog.py',):
            p = os.path.join(self.root, f)
            if os.path.exists(p):
                self.files[f[:-3]] = (p, f, False)
        if not self.files:
            raise AnchorLost('no source files found')
        self.trees = {}
        for name, (p, rel, _) in self.files.items():
            with open(p, encoding='utf-8') as fh:
                self.trees[name] = ast.parse(fh.read(), rel)
        for name in self.files:
            self._module(name)

    def _module(self, name):
        if name in self.modules:
            return self.modules[name]
        p, rel, is_pkg = self.files[name]
        st = self.base
        fid = st.fresh()
        st.frames[fid] = {'__name__': const(name)}
        m = {'name': name, 'frame': fid, 'file': rel, 'pkg': is_pkg}
        self.modules[name] = m
        if '.' in name:
            self._module(name.rsplit('.', 1)[0])
        saved = (st.fp, self.stack, self.sinks)
        self.stack = [(name + '.<module>', rel, 0)]
        self.sinks = [[]]
        st.fp = fid
        self.frame_info = getattr(self, 'frame_info', {})
        self.frame_info[fid] = {'module': name, 'parent': None, 'cls': None}
        for stmt in self.trees[name].body:
            try:
                outs = self.exec_stmt(stmt, self.base)
                outs = [o for o in outs if o[0] == 'next']
                if outs:
                    if outs[0][2] is not self.base:
                        # (in place: importing modules are in the middle of a statement)
                        for k in State.__slots__:
                            setattr(self.base, k, getattr(outs[0][2], k))
                    self.base.lits = {}
                    self.base.trace = None
                self.base.fp = fid
            except Inconclusive:
                self.base.fp = fid
        self.base.fp = saved[0]
        self.stack, self.sinks = saved[1], saved[2]
        return m

    def _forget_globals(self):
        """Containers (and plain values) of modules and classes that functions
        change have unknown content when a command starts: anything might have
        been done earlier in the process."""
        self.remembered = []
        for name, tree in self.trees.items():
            frame = self.base.frames[self.modules[name]['frame']]
            for fn in ast.walk(tree):
                if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                    continue
                own = local_names(fn)
                for n, how in changed_names(fn):
                    if n in own and n not in declared_global(fn):
                        continue
                    t = frame.get(n)
                    if t is None:
                        continue
                    h = self.base.heap.get(t.a[0]) if t.op == 'obj' else None
                    if how == 'set' and n in declared_global(fn) or h is not None and h.kind in ('set', 'dict', 'list'):
                        old, new = t, mk('sym', f'what is remembered in {name}.{n}')
                        self.remembered.append(f'{name}.{n}')
                        for m in self.modules.values():
                            fr = self.base.frames[m['frame']]
                            for k, v in list(fr.items()):
                                if v is old and (k == n and m['name'] == name or h is not None):
                                    fr[k] = new

    def _index_methods(self):
        for c in self.classes.values():
            for name, t in c.attrs.items():
                if t.op == 'func':
                    f = self.funcs[t.a[0]]
                    if not f.abstract and not c.protocol:
                        self.by_method.setdefault(name, []).append((c.qual, t))
        self.subclasses = {}
        for c in self.classes.values():
            for b in self.mro(c.qual)[1:]:
                self.subclasses.setdefault(b, []).append(c.qual)

    def resolve_module(self, modname):
        if modname in self.files:
            self._module(modname)
            return mk('mod', modname)
        return mk('ext', modname)

    # ------------------------------------------------------------------ helpers
    def site(self, node=None):
        qual, rel, _ = self.stack[-1] if self.stack else ('?', '?', 0)
        return Site(rel, qual, getattr(node, 'lineno', 0))

    def push_path(self, n=1):
        self.n_paths += n
        if self.n_paths > self.max_paths * 40:
            raise Inconclusive('path budget exceeded')

    def lookup_qual(self, qual):
        """Resolve dotted qualified name to a term (module attr, class member)."""
        parts = qual.split('.')
        for i in range(len(parts), 0, -1):
            name = '.'.join(parts[:i])
            if name in self.files:
                t = mk('mod', name)
                for p in parts[i:]:
                    t = self.static_attr(t, p)
                    if t is None:
                        return None
                return t
        return None

    def static_attr(self, t, name):
        if t.op == 'mod':
            fr = self.base.frames[self.modules[t.a[0]]['frame']]
            if name in fr:
                return fr[name]
            sub = t.a[0] + '.' + name
            if sub in self.files:
                return mk('mod', sub)
            return None
        if t.op == 'cls':
            c, v = self.class_lookup(t.a[0], name)
            return v
        return None

    def func(self, qual):
        t = self.lookup_qual(qual)
        if t is None:
            raise AnchorLost(f'{qual} not found')
        return t

    def mro(self, q):
        out = []

        def go(x):
            if x in out:
                return
            out.append(x)
            c = self.classes.get(x)
            if c:
                for b in c.bases:
                    go(b)
        go(q)
        return out

    def class_lookup(self, q, name):
        for k in self.mro(q):
            c = self.classes.get(k)
            if c is None:
                continue
            if name in c.props:
                return k, mk('prop', k, name)
            if name in c.attrs:
                return k, c.attrs[name]
        return None, None

    def ext_bases(self, q):
        out = []
        for k in self.mro(q):
            if k in self.classes:
                out.extend(self.classes[k].ext_bases)
        return out

    def is_subclass(self, q, base):
        return base in self.mro(q)

    # ------------------------------------------------------------------ exceptions
    def exc_name(self, t):
        """class term -> exception class name"""
        if t.op == 'cls':
            return t.a[0]
        if t.op == 'ext':
            n = t.a[0]
            if n.startswith('builtins.'):
                n = n[9:]
            return EXC_ALIAS.get(n, n)
        return None

    def exc_supers(self, name):
        out = [name]
        if name in self.classes:
            for k in self.mro(name)[1:]:
                out.append(k)
            for b in self.ext_bases(name):
                out.extend(self.exc_supers(b[9:] if b.startswith('builtins.') else b))
            if len(out) == 1:
                out.append('Exception')
            return out
        cur = name
        while cur in EXT_EXC_BASE:
            cur = EXT_EXC_BASE[cur]
            out.append(cur)
        b = getattr(builtins, cur, None)
        if isinstance(b, type) and issubclass(b, BaseException):
            for k in b.__mro__[1:]:
                if k is not object:
                    out.append(k.__name__)
        elif cur == name:
            out.extend(['Exception', 'BaseException'])
        return out

    def exc_matches(self, exc, handler_name):
        """True / False / None(maybe)"""
        if handler_name is None:
            return None
        name = exc.a[0]
        if handler_name in self.exc_supers(name):
            return True
        if name in BROAD and name in self.exc_supers(handler_name):
            return None
        return False

    def raise_(self, exc, st, node=None):
        self.push_path()
        st.emit(Ev('raise', exc.a[0] if exc.op == 'exc' else '?', site=self.site(node), x=exc))
        self.sinks[-1].append((exc, st))

    def may_raise(self, kinds, st, node, origin=None):
        if not (self.exc_all or len(self.sinks) > self.sink_base):
            return
        kinds = list(kinds)
        if self.faults is not None:
            # scenario: which operations may fail; what succeeded once succeeds again
            kinds = list(self.faults(kinds, origin)) if isinstance(origin, T) else []
            ok = mk('succeeded', origin) if kinds else None
            if ok in st.lits:
                kinds = []
            for k in kinds:
                s = st.fork()
                self.raise_(mk('exc', k, origin), s, node)
            if ok is not None:
                st.lits[ok] = True
            return
        if self.excs is not None:
            kinds = [k for k in kinds if k in self.excs]
        if self.ki:
            kinds.append('KeyboardInterrupt')
        for k in kinds:
            s = st.fork()
            self.raise_(mk('exc', k, origin or ''), s, node)

    sink_base = 1

    # ------------------------------------------------------------------ conditions
    def truth(self, t, st):
        op = t.op
        if op == 'const':
            v = cval(t)
            return bool(v)
        if op == 'not':
            r = self.truth(t.a[0], st)
            return None if r is None else not r
        if op in ('func', 'bound', 'cls', 'mod', 'ext', 'enum', 'path', 'partial', 'exc'):
            return True
        if op == 'tuple':
            return bool(t.a)
        if op == 'cat':
            if any(is_const(x) for x in t.a):
                return True
        if op == 'obj':
            h = st.heap.get(t.a[0])
            if h and h.kind in ('list', 'set', 'dict'):
                if any(e[0] in ('item', 'kv') for e in h.data):
                    return True
                if not h.data and not h.grown:
                    return False
            elif h and h.kind == 'inst':
                c, v = self.class_lookup(h.cls, '__bool__')
                c2, v2 = self.class_lookup(h.cls, '__len__')
                if v is None and v2 is None:
                    return True
            elif h:
                return True
        if op == 'cmp':
            r = self.compare_static(t.a[0], t.a[1], t.a[2], st)
            if r is not None:
                return r
        if t in st.lits:
            return st.lits[t]
        if self.decide is not None:
            r = self.decide(self, t, st)
            if r is not None:
                return r
        if op == 'cmp':
            o, a, b = t.a
            if o == '<':
                if st.lits.get(mk('cmp', '<', b, a)) is True:
                    return False
                if st.lits.get(self.eq_term(a, b)) is True:
                    return False
            if o == '==':
                if st.lits.get(mk('cmp', '<', a, b)) is True or st.lits.get(mk('cmp', '<', b, a)) is True:
                    return False
                # x == const while x == other const known
                if is_const(b) or b.op == 'enum':
                    for l, v in st.lits.items():
                        if v and l.op == 'cmp' and l.a[0] == '==' and l.a[1] is a and l.a[2] is not b and (
                                is_const(l.a[2]) or l.a[2].op == 'enum'):
                            return False
                        if v and l is a and is_const(b) and not cval(b):
                            return False
            if o == 'in' and b.op == 'set':
                pass
        # truthy(x) known from x == const
        for l, v in st.lits.items():
            if v and l.op == 'cmp' and l.a[0] == '==' and l.a[1] is t and is_const(l.a[2]):
                return bool(cval(l.a[2]))
        return None

    def eq_term(self, a, b):
        if is_const(a) and not is_const(b):
            a, b = b, a
        elif a.op == 'enum' and b.op != 'enum' and not is_const(b):
            a, b = b, a
        elif not is_const(b) and b.op != 'enum' and b.n < a.n:
            a, b = b, a
        if a is not b and '@rel' in (a.op, b.op):
            return FALSE                # a path is no text
        return mk('cmp', '==', a, b)

    def equal_instances(self, a, b, ha, hb, st):
        """equality of two objects of the repository"""
        if any(self.class_lookup(h.cls, '__eq__')[1] is not None for h in (ha, hb)):
            return None
        infos = [self.classes[k].is_attrs for h in (ha, hb) for k in self.mro(h.cls) if k in self.classes and self.classes[k].is_attrs]
        if any(i.get('eq', i.get('cmp')) not in (None, True) for i in infos):
            return None if len(infos) > 2 else False
        if not infos:
            return False
        if ha.cls != hb.cls:
            return False
        r = True
        for f in self.attrs_fields(ha.cls):
            flag = f.get('eq', f.get('cmp'))
            if flag is not None:
                if getattr(flag, 'value', None) is False:
                    continue
                if getattr(flag, 'value', None) is not True:
                    return None
            x, y = ha.data.get(f['name']), hb.data.get(f['name'])
            if x is None or y is None:
                return None
            q = self.same_key(x, y, st)
            if q is False:
                return False
            if q is None:
                r = None
        return r

    COMPUTED = ('sym', 'call', 'mcall', 'attr', 'path', 'cat', 'idx', 'slice', 'bin')
    DISTINCT = ('const', 'enum', 'func', 'cls', 'mod', 'exc')

    def compare_static(self, op, a, b, st):
        if op in ('==', 'is'):
            if a is b:
                return True
            if is_const(a) and is_const(b):
                return cval(a) == cval(b) and (op == '==' or type(cval(a)) is type(cval(b)))
            if a.op in self.DISTINCT and b.op in self.DISTINCT:
                return False
            for x, y in ((a, b), (b, a)):
                if is_const(y):
                    if cval(y) is None and x.op in ('obj', 'tuple', 'cat', 'path', 'func', 'bound', 'partial', 'ext'):
                        return False
                    if x.op == 'obj':
                        h = st.heap.get(x.a[0])
                        if h and h.kind == 'inst':
                            return False
                    if x.op in ('enum', 'func', 'bound'):
                        return False
                    if x.op == 'call' and cval(y) is None and self.nonnull_call(x):
                        return False
                    if x.op == 'cat' and isinstance(cval(y), str):
                        # a constant fragment that the constant lacks
                        for p in x.a:
                            if is_const(p) and isinstance(cval(p), str) and cval(p) not in cval(y):
                                return False
                elif y.op == 'tuple' and x.op == 'tuple':
                    if len(x.a) != len(y.a):
                        return False
                    rs = [self.same_key(p, q, st) for p, q in zip(x.a, y.a)]
                    if all(r is True for r in rs):
                        return True
                    if any(r is False for r in rs):
                        return False
                elif y.op == 'obj':
                    h = st.heap.get(y.a[0])
                    if h and h.kind == 'inst' and x.op == 'sym':
                        return None
            if a.op == 'obj' and b.op == 'obj':
                ha, hb = st.heap.get(a.a[0]), st.heap.get(b.a[0])
                if ha and hb and ha.kind == 'inst' and hb.kind == 'inst':
                    return False if op == 'is' else self.equal_instances(a, b, ha, hb, st)
                if ha and hb and ha.kind in ('list', 'set', 'dict') and ha.kind == hb.kind:
                    if not ha.data and not hb.data and not ha.grown and not hb.grown:
                        return op == '=='
                    if op == '==' and ha.kind == 'list' and not ha.grown and not hb.grown and all(x[0] == 'item' for x in ha.data + hb.data):
                        if len(ha.data) != len(hb.data):
                            return False
                        rs = [self.same_key(x[1], y[1], st) for x, y in zip(ha.data, hb.data)]
                        if all(r is True for r in rs):
                            return True
                        if any(r is False for r in rs):
                            return False
            # sentinel: args.x is SENTINEL object -> unknown
            return None
        if op == '<':
            if a is b:
                return False
            if is_const(a) and is_const(b):
                try:
                    return cval(a) < cval(b)
                except TypeError:
                    return None
            return None
        if op == 'in':
            items = self.finite_items(b, st)
            if items is not None:
                rs = [self.compare_static('==', a, i, st) for i in items]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
                eqs = [st.lits.get(self.eq_term(a, i)) for i in items]
                if any(e is True for e in eqs):
                    return True
                if all(r is False or e is False for r, e in zip(rs, eqs)):
                    return False
            elif b.op == 'obj':
                h = st.heap.get(b.a[0])
                if h and h.kind in ('list', 'set', 'dict'):
                    for e in h.data:
                        if e[0] in ('item', 'kv') and e[1] is a:
                            return True
            elif is_const(b) and is_const(a) and isinstance(cval(b), (str, bytes, tuple)):
                try:
                    return cval(a) in cval(b)
                except TypeError:
                    return None
            elif is_const(a) and isinstance(cval(a), str) and b.op in ('cat', 'path'):
                for p in b.a:
                    if is_const(p) and isinstance(cval(p), str) and cval(a) in cval(p):
                        return True
                if b.op == 'path' and cval(a) == '/':
                    return True
            return None
        return None

    def nonnull_call(self, t):
        n = t.a[0]
        if n in ('builtins.next', 'builtins.getattr', 'builtins.print', 'builtins.min', 'builtins.max', 'builtins.setattr', 'builtins.eval'):
            return False
        return n.startswith('builtins.') or n in (
            'zipfile.ZipFile', 'sqlite3.connect', 'pathlib.Path', 're.compile', 're.sub', 're.escape', 'glob.escape', 'html.escape',
            'datetime.datetime', 'datetime.timedelta', 'datetime.timezone', 'datetime.datetime.now', 'datetime.datetime.strptime')

    def finite_items(self, t, st):
        if t.op == 'tuple':
            return list(t.a)
        if t.op in ('list', 'set') and all(e.op == 'item' for e in t.a):
            return [e.a[0] for e in t.a]
        if t.op == 'dict' and all(e.op == 'kv' for e in t.a):
            return [e.a[0] for e in t.a]
        if t.op == 'obj':
            h = st.heap.get(t.a[0])
            if h and h.kind in ('list', 'set', 'dict') and not h.grown and all(
                    e[0] in ('item', 'kv') for e in h.data):
                return [e[1] for e in h.data]
        if is_const(t) and isinstance(cval(t), (tuple, frozenset)):
            return [const(x) for x in cval(t)]
        return None

    def cmp_term(self, opnode, a, b, st):
        """Comparison -> (term, negated)"""
        o = type(opnode)
        if o in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
            # sorted() equality etc. stays opaque
            neg = o in (ast.NotEq, ast.IsNot)
            l = self.len_truth(a, b)
            if l is not None:
                return l, not neg
            if o in (ast.Is, ast.IsNot) and a is not b and a.op in self.COMPUTED and b.op in self.COMPUTED:
                return mk('cmp', 'is', a, b), neg       # equal values need not be the same object
            return self.eq_term(a, b), neg
        if o is ast.Lt:
            l = self.len_pos(a, b)
            return (l, False) if l is not None else (mk('cmp', '<', a, b), False)
        if o is ast.GtE:
            if is_const(b) and cval(b) == 1 and a.op == 'call' and a.a[0] == 'builtins.len':
                return a.a[1][0], False
            return mk('cmp', '<', a, b), True
        if o is ast.Gt:
            l = self.len_pos(b, a)
            return (l, False) if l is not None else (mk('cmp', '<', b, a), False)
        if o is ast.LtE:
            return mk('cmp', '<', b, a), True
        if o in (ast.In, ast.NotIn):
            return mk('cmp', 'in', a, self.snap(b, st)), o is ast.NotIn
        raise Inconclusive('comparison')

    def len_truth(self, a, b):
        for x, y in ((a, b), (b, a)):
            if is_const(y) and cval(y) == 0 and type(cval(y)) is int and x.op == 'call' and x.a[0] == 'builtins.len':
                return x.a[1][0]
        return None

    def len_pos(self, a, b):
        # 0 < len(x)
        if is_const(a) and cval(a) == 0 and b.op == 'call' and b.a[0] == 'builtins.len':
            return b.a[1][0]
        return None

    def assume(self, st, t, val, node=None):
        """Add t is val; returns feasibility."""
        if t.op == 'not':
            return self.assume(st, t.a[0], not val, node)
        r = self.truth(t, st)
        if r is not None:
            return r == val
        st.lits[t] = val
        st.emit(Ev('assume', t, x=val, site=self.site(node)))
        if t.op == 'cmp' and t.a[0] == 'in':
            items = self.finite_items(t.a[2], st)
            if items is not None and not val:
                for i in items:
                    st.lits.setdefault(self.eq_term(t.a[1], i), False)
            elif items is not None and len(items) == 1:
                st.lits.setdefault(self.eq_term(t.a[1], items[0]), True)
        return True

    def branch(self, t, st, node=None):
        """-> list of (bool, state)"""
        r = self.truth(t, st)
        if r is not None:
            return [(r, st)]
        # objects with __bool__/__len__ fall through as opaque atoms
        s2 = st.fork()
        out = []
        if self.assume(st, t, True, node):
            out.append((True, st))
        if self.assume(s2, t, False, node):
            out.append((False, s2))
        if len(out) == 2:
            self.push_path()
        return out

    # ------------------------------------------------------------------ snapshots
    def snap(self, t, st, depth=0):
        """Container heap objects -> immutable terms."""
        if not isinstance(t, T):
            return t
        if t.op == 'obj':
            h = st.heap.get(t.a[0])
            if h is None or depth > 6:
                return t
            if h.kind in ('list', 'set', 'dict'):
                ents = []
                for e in h.data:
                    if e[0] == 'item':
                        ents.append(mk('item', self.snap(e[1], st, depth + 1)))
                    elif e[0] == 'kv':
                        ents.append(mk('kv', self.snap(e[1], st, depth + 1), self.snap(e[2], st, depth + 1)))
                    elif e[0] == 'comp':
                        ents.append(mk('comp', e[1], self.snap(e[2], st, depth + 1)))
                    elif e[0] == 'kvcomp':
                        ents.append(mk('kvcomp', e[1], self.snap(e[2], st, depth + 1), self.snap(e[3], st, depth + 1)))
                    elif e[0] == 'all':
                        ents.append(mk('all', self.snap(e[1], st, depth + 1)))
                    else:
                        ents.append(mk('rest'))
                if h.kind == 'list' and len(ents) == 1 and ents[0].op == 'all':
                    return ents[0].a[0]
                return mk(h.kind, *ents)
            if h.kind == 'gen':
                return mk('genref', h.data[0].a[0] if isinstance(h.data[0], T) else str(h.data[0]),
                          *[self.snap(x, st, depth + 1) for x in h.data[4]])
            return t
        if t.op == 'tuple':
            return mk('tuple', *[self.snap(x, st, depth + 1) for x in t.a])
        if t.op == 'inst':
            return t
        return t

    # ------------------------------------------------------------------ frames
    def new_frame(self, st, module, parent, cls=None):
        fid = st.fresh()
        st.frames[fid] = {}
        self.frame_info[fid] = {'module': module, 'parent': parent, 'cls': cls}
        # parent links are functions of fid only within a path; store in frame itself
        st.owned.add(fid)
        st.frames[fid]['%parent'] = const(parent)
        st.frames[fid]['%module'] = const(module)
        return fid

    def frame_parent(self, st, fid):
        p = st.frames[fid].get('%parent')
        return cval(p) if p is not None else None

    def frame_module(self, st, fid):
        m = st.frames[fid].get('%module')
        if m is not None:
            return cval(m)
        return cval(st.frames[fid]['__name__'])

    def load_name(self, name, st, node=None):
        fid = st.fp
        while fid is not None:
            fr = st.frames.get(fid)
            if fr is None:
                break
            if name in fr:
                return fr[name]
            fid = self.frame_parent(st, fid) if '%parent' in fr else None
        mod = self.frame_module(st, st.fp)
        mfr = st.frames.get(self.modules[mod]['frame'], {})
        if name in mfr:
            return mfr[name]
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return const(getattr(builtins, name))
            return mk('ext', 'builtins.' + name)
        return None

    def store_name(self, name, v, st):
        fr = st.wframe(st.fp)
        g = fr.get('%global')
        if g is not None and name in cval(g):
            st.wframe(self.modules[self.frame_module(st, st.fp)]['frame'])[name] = v
            return
        n = fr.get('%nonlocal')
        if n is not None and name in cval(n):
            fid = self.frame_parent(st, st.fp)
            while fid is not None:
                if name in st.frames[fid]:
                    st.wframe(fid)[name] = v
                    return
                fid = self.frame_parent(st, fid)
        fr[name] = v
