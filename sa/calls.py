"""Calls: attribute lookup, inlining of repository functions, models of the
standard library functions the repository uses."""
import ast
import builtins
import posixpath
from pathlib import PurePosixPath

from .engine import (
    Engine, Func, Cls, HObj, Ev, Path, Inconclusive, AnchorLost, Site, trace_list, _IDENT_METHODS,
    EXC_EXT, EXC_M, NO_RAISE, NO_RAISE_M, PURE_EXT_PREFIX, IMPURE_BUILTINS, BUILTIN_METHODS)
from .evaluate import Evaluator
from .terms import (EXT_CONST, refs,
    T, mk, const, NONE, TRUE, FALSE, is_const, cval, sym, attr, cat, path, walk, contains, show, subst)

STR_PURE = {'startswith', 'endswith', 'replace', 'strip', 'lstrip', 'rstrip', 'split', 'rsplit',
            'splitlines', 'lower', 'upper', 'title', 'encode', 'decode', 'format', 'join', 'count', 'find', 'rfind',
            'index', 'partition', 'rpartition', 'removeprefix', 'removesuffix', 'isdigit', 'isalnum',
            'zfill', 'ljust', 'rjust', 'expandtabs', 'casefold', 'translate', 'isidentifier', 'isspace',
            'hex'}
PURE_M = STR_PURE | {
    'keys', 'values', 'items', 'get', 'exists', 'is_dir', 'is_file', 'is_symlink', 'joinpath',
    'as_posix', 'relative_to', 'with_suffix', 'with_name', 'absolute', 'resolve', 'glob', 'rglob',
    'iterdir', 'namelist', 'infolist', 'getinfo', 'groupdict', 'group', 'groups', 'match', 'search',
    'fullmatch', 'sub', 'findall', 'finditer', 'isoformat', 'timestamp', 'strftime', 'utcoffset', 'total_seconds',
    'hexdigest', 'digest', 'union', 'intersection', 'difference', 'issubset', 'symmetric_difference',
    'copy', 'weekday', 'astimezone', 'is_relative_to', 'as_uri', 'fetchall', 'fetchone', 'is_absolute', 'is_mount',
    'expanduser', 'samefile', 'read_text', 'read_bytes', 'lstat', 'stat', 'toordinal', 'date', 'time', '__len__',
    'isdisjoint', 'issuperset', 'bit_length', '__contains__',
}


CONST_PATH_ATTR = {'parts', 'name', 'stem', 'suffix', 'suffixes', 'parent', 'parents', 'anchor'}
CONST_PATH_METHODS = {'is_absolute', 'relative_to', 'is_relative_to', 'with_name', 'with_suffix', 'match'}
CONST_OSPATH = {'normpath', 'isabs', 'dirname', 'basename', 'split', 'splitext', 'normcase'}
SETM = {'difference': '-', 'union': '|', 'intersection': '&', 'symmetric_difference': '^', 'issubset': '<=',
        'issuperset': '>=', 'isdisjoint': 'isdisjoint', 'difference_update': '-', 'intersection_update': '&',
        'symmetric_difference_update': '^'}


def uninterpreted(t):
    """expressions built on terms introduced by rules stay as they are"""
    while t.op in ('mcall', 'attr'):
        t = t.a[0]
    return t.op == 'call' and t.a[0].startswith('@')


class Interp(Evaluator):

    # installed by a rule: give meaning to calls that leave the repository
    # xhooks: dotted name -> fn(engine, args, kwargs, st, node) -> outs | None
    # mhooks: method name -> fn(engine, receiver, args, kwargs, st, node) -> outs | None
    xhooks = {}
    mhooks = {}
    iterhooks = {}
    # ohooks: method name -> fn(engine, container object, args, kwargs, st, node)
    ohooks = {}
    max_recursion = 1
    finite_sorted = False
    # decide(engine, term, state) -> bool | None: what the scenario says about a condition
    decide = None
    # faults(kinds, term) -> exception kinds of an operation
    faults = None

    # ================================================================ attributes
    def get_attr(self, b, name, st, node=None):
        ov = st.overlay.get(attr(b, name)) if isinstance(b, T) else None
        if ov is not None:
            return [(ov, st)]
        op = b.op
        if op == 'mod':
            fr = st.frames.get(self.modules[b.a[0]]['frame'], {})
            if name in fr:
                return [(fr[name], st)]
            v = self.static_attr(b, name)
            if v is None:
                v = mk('ext', f'{b.a[0]}.{name}')
            return [(v, st)]
        if op == 'ext':
            n = self.canon_ext(b.a[0] + '.' + name)
            return [(EXT_CONST.get(n) or mk('ext', n), st)]
        if op == 'cls':
            if name == '__name__':
                return [(const(b.a[0].split('.')[-1]), st)]
            if name == '__doc__':
                return [(const('doc'), st)]
            k, v = self.class_lookup(b.a[0], name)
            if v is None:
                return [(attr(b, name), st)]
            if v.op == 'func':
                f = self.funcs[v.a[0]]
                if 'builtins.classmethod' in f.decos:
                    return [(mk('bound', b, v), st)]
            return [(v, st)]
        if op == 'enum':
            if name in ('name', '_name_'):
                return [(const(b.a[1]), st)]
            if name in ('value', '_value_'):
                v = b.a[2]
                return [(v if cval(v) is not None else attr(b, name), st)]
            if name == '__class__':
                return [(mk('cls', b.a[0]), st)]
            k, v = self.class_lookup(b.a[0], name)
            if v is not None and v.op == 'prop':
                return self.get_prop(v, b, st, node)
            if v is not None and v.op == 'func':
                return [(mk('bound', b, v), st)]
            return [(attr(b, name), st)]
        if op == 'super':
            q, slf = b.a
            cls = self.class_of(slf, st) or q
            mro = self.mro(cls)
            i = mro.index(q) if q in mro else 0
            for k in mro[i + 1:]:
                c = self.classes.get(k)
                if c and name in c.props:
                    return self.get_prop(mk('prop', k, name), slf, st, node)
                if c and name in c.attrs:
                    v = c.attrs[name]
                    return [(mk('bound', slf, v) if v.op == 'func' else v, st)]
            return [(mk('ext', 'builtins.object.' + name), st)]
        h = self.hobj(b, st)
        if h is not None:
            if h.kind == 'inst':
                if name == '__class__':
                    return [(mk('cls', h.cls), st)]
                if name == '__dict__':
                    return [(self.new_container('dict', [('kv', const(n), v) for n, v in h.data.items()], st), st)]
                k, v = self.class_lookup(h.cls, name)
                if v is not None and v.op == 'prop':
                    if not self.cache_props or not self.is_cached(v):
                        return self.get_prop(v, b, st, node)
                    if name in h.data:
                        return [(h.data[name], st)]
                    outs = []
                    for r, s in self.get_prop(v, b, st, node):
                        h2 = s.heap[b.a[0]]
                        s.heap[b.a[0]] = HObj('inst', cls=h2.cls, data={**h2.data, name: r})
                        outs.append((r, s))
                    return outs
                if name in h.data:
                    return [(h.data[name], st)]
                if v is not None:
                    return [(self.bind_member(b, h.cls, v), st)]
                return [(attr(b, name), st)]
            return [(mk('bmeth', b, name), st)]
        cls = self.class_of(b, st)
        if cls:
            if name == '__class__':
                return [(mk('cls', cls), st)]
            k, v = self.class_lookup(cls, name)
            if v is not None and v.op == 'prop':
                g = self.classes[v.a[0]].props[v.a[1]]['get']
                if self.funcs[g.a[0]].abstract:
                    o = self.concrete(cls, name)
                    if o is None:
                        return [(attr(b, name), st)]
                    v = o
                if v.op == 'prop':
                    return self.get_prop(v, b, st, node)
            if v is not None and v.op == 'call' and self.classes[k].is_attrs:
                v = None            # a field descriptor, not its value
            if v is not None:
                if v.op == 'func' and (self.funcs[v.a[0]].abstract or self.classes[k].protocol):
                    o = self.concrete(cls, name)
                    if o is None:
                        return [(attr(b, name), st)]
                    v = o
                return [(self.bind_member(b, cls, v), st)]
            if v is None:
                # attribute or method only known in the single concrete subclass
                o = self.concrete(cls, name)
                if o is not None and o.op == 'func':
                    return [(self.bind_member(b, cls, o), st)]
            t = attr(b, name)
            self.type_field(cls, name, t)
            return [(t, st)]
        if op == 'path':
            if name == 'parent' and len(b.a) >= 2:
                return [(path(b.a[:-1]), st)]
            if name == 'name' and b.a[-1].op in ('sym', 'elem', 'const', 'attr', 'idx', 'cat'):
                return [(b.a[-1], st)]
        if is_const(b):
            if isinstance(cval(b), str) and name in CONST_PATH_ATTR:
                r = getattr(PurePosixPath(cval(b)), name)
                if name in ('parts', 'suffixes'):
                    return [(mk('tuple', *[const(x) for x in r]), st)]
                if name == 'parents':
                    return [(mk('tuple', *[const(str(x)) for x in r]), st)]
                return [(const(str(r)), st)]
            return [(mk('bmeth', b, name), st)]
        return [(attr(b, name), st)]

    def get_attr_simple(self, b, name, st):
        outs = self.get_attr(b, name, st)
        return outs[0][0]

    def is_cached(self, p):
        g = self.classes[p.a[0]].props[p.a[1]].get('get')
        return g is not None and any(d.endswith('cached_property') for d in self.funcs[g.a[0]].decos)

    def get_prop(self, p, b, st, node):
        g = self.classes[p.a[0]].props[p.a[1]].get('get')
        return self.call_func(g, b, [], [], st, node, prop=True)

    def concrete(self, cls, name):
        """the one non-abstract override in subclasses"""
        found = []
        for q in getattr(self, 'subclasses', {}).get(cls, ()):
            c = self.classes[q]
            if name in c.props:
                found.append(mk('prop', q, name))
            elif name in c.attrs and c.attrs[name].op == 'func' and not self.funcs[c.attrs[name].a[0]].abstract:
                found.append(c.attrs[name])
        return found[0] if len(found) == 1 else None

    def bind_member(self, b, cls, v):
        if v.op == 'func':
            f = self.funcs[v.a[0]]
            if 'builtins.staticmethod' in f.decos:
                return v
            if 'builtins.classmethod' in f.decos:
                return mk('bound', mk('cls', cls), v)
            if f.cls is not None:
                return mk('bound', b, v)
        return v

    def class_of(self, t, st):
        h = self.hobj(t, st)
        if h is not None:
            return h.cls if h.kind == 'inst' else None
        if t in self.types:
            return self.types[t]
        return None

    def type_field(self, cls, name, t):
        if t in self.types:
            return
        for k in self.mro(cls):
            c = self.classes.get(k)
            if not c:
                continue
            for (nm, ann, val) in c.ann:
                if nm == name:
                    self.apply_annotation(ann, t, c.module)
                    return

    def resolve_ann(self, node, module):
        """annotation -> ('one', cls) | ('list', cls) | None"""
        if node is None:
            return None
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            try:
                node = ast.parse(node.value, mode='eval').body
            except SyntaxError:
                return None
        if isinstance(node, ast.Name) or isinstance(node, ast.Attribute):
            parts = []
            x = node
            while isinstance(x, ast.Attribute):
                parts.append(x.attr)
                x = x.value
            if not isinstance(x, ast.Name):
                return None
            fr = self.base.frames[self.modules[module]['frame']]
            t = fr.get(x.id)
            for p in reversed(parts):
                if t is None:
                    return None
                t = self.static_attr(t, p)
            if t is not None and t.op == 'cls':
                return ('one', t.a[0])
            return None
        if isinstance(node, ast.Subscript):
            nm = node.value
            nm = nm.id if isinstance(nm, ast.Name) else nm.attr if isinstance(nm, ast.Attribute) else ''
            if nm in ('list', 'List', 'Sequence', 'Iterable', 'Iterator', 'tuple', 'Tuple', 'set', 'Set', 'frozenset'):
                sl = node.slice
                if isinstance(sl, ast.Tuple) and sl.elts:
                    sl = sl.elts[0]
                r = self.resolve_ann(sl, module)
                if r and r[0] == 'one':
                    return ('list', r[1])
            if nm == 'Optional':
                return self.resolve_ann(node.slice, module)
        if isinstance(node, ast.BinOp):
            return self.resolve_ann(node.left, module) or self.resolve_ann(node.right, module)
        return None

    def apply_annotation(self, node, t, module):
        if not isinstance(t, T) or is_const(t) or t.op in ('obj', 'func', 'cls', 'enum', 'tuple', 'cat', 'path', 'exc'):
            return
        r = self.resolve_ann(node, module)
        if r is None:
            return
        c = self.classes.get(r[1])
        if c is None or c.is_enum or any(x.startswith('builtins.') and x[9:] in ('str', 'int') for x in self.ext_bases(r[1])):
            return
        if r[0] == 'one':
            if t not in self.types:
                self.types[t] = r[1]
        else:
            if t not in self.elem_types:
                self.elem_types[t] = r[1]

    # ================================================================ calls
    def call(self, fn, args, kwargs, st, node):
        op = fn.op
        if op == 'func':
            return self.call_func(fn, None, args, kwargs, st, node)
        if op == 'bound':
            if fn.a[1].op == 'func':
                return self.call_func(fn.a[1], fn.a[0], args, kwargs, st, node)
            return self.call(fn.a[1], [fn.a[0]] + list(args), kwargs, st, node)
        if op == 'cls':
            return self.instantiate(fn, args, kwargs, st, node)
        if op == 'ext':
            return self.ext_call(fn.a[0], args, kwargs, st, node)
        if op == 'bmeth':
            return self.method_call(fn.a[0], fn.a[1], args, kwargs, st, node)
        if op == 'attr':
            return self.method_call(fn.a[0], fn.a[1], args, kwargs, st, node)
        if op == 'partial':
            kw = dict(fn.a[2])
            kw.update(dict(kwargs))
            return self.call(fn.a[0], list(fn.a[1]) + list(args), list(kw.items()), st, node)
        if op == 'getter':
            return self.apply_getter(fn, args[0], st, node)
        h = self.hobj(fn, st)
        if h is not None and h.kind == 'inst':
            k, m = self.class_lookup(h.cls, '__call__')
            if m is not None:
                return self.call_func(m, fn, args, kwargs, st, node)
        cls = self.class_of(fn, st)
        if cls:
            k, m = self.class_lookup(cls, '__call__')
            if m is not None:
                return self.call_func(m, fn, args, kwargs, st, node)
        sargs = tuple(self.snap(a, st) for a in args)
        skw = tuple(sorted(((k, self.snap(v, st)) for k, v in kwargs), key=lambda kv: kv[0]))
        res = mk('ocall', fn, sargs, skw)
        st.emit(Ev('ocall', fn, sargs, skw, res, self.site(node)))
        self.may_raise(('OtherError',), st, node, res)
        return [(res, st)]

    def apply_getter(self, fn, x, st, node):
        if fn.a[0] == 'attr':
            vals = [(x, st)]
            for p in fn.a[1].split('.'):
                vals = [r for v, s in vals for r in self.get_attr(v, p, s, node)]
            return vals
        return self.subscript(x, fn.a[1], st, node)

    def stop_spec(self, qual):
        if qual in self.no_stop:
            return None
        if qual in self.stops:
            return self.stops[qual]
        for pat, spec in self.stops.items():
            if pat.endswith('*') and qual.startswith(pat[:-1]):
                return spec
        if self.time_stop and qual in self.DEFAULT_STOPS:
            return self.DEFAULT_STOPS[qual]
        return None

    DEFAULT_STOPS = {
        'bead.tech.timestamp.time_from_timestamp': 'pure',
        'bead.tech.timestamp.timestamp': 'pure',
        'bead.tech.timestamp.time_from_user': 'pure',
        'bead.tech.timestamp.parse_iso8601': 'pure',
        'bead.tech.identifier.uuid': 'pure',
        'tracelog.TRACELOG': 'pure',
        'bead_cli.main.get_version_info': 'pure',
    }

    def bind_args(self, fi, fterm, selfT, args, kwargs, st, node):
        """-> dict name -> term, or raises Inconclusive"""
        a = fi.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        given = list(args)
        if selfT is not None:
            given = [selfT] + given
        star = [g for g in given if g.op == 'star']
        if star:
            given_plain = []
            for g in given:
                if g.op == 'star':
                    break
                given_plain.append(g)
            starT = star[0].a[0]
            missing = pos[len(given_plain):]
            if a.vararg is None:
                for i, nm in enumerate(missing):
                    given_plain.append(mk('idx', starT, const(i)))
                given = given_plain
            else:
                given = given_plain
        for i, nm in enumerate(pos):
            if i < len(given):
                vals[nm] = given[i]
        extra = given[len(pos):]
        if a.vararg:
            if star:
                vals[a.vararg.arg] = star[0].a[0]
            else:
                vals[a.vararg.arg] = mk('tuple', *extra)
        elif extra:
            raise Inconclusive(f'too many arguments for {fi.qual}')
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        rest = []
        for k, v in kwargs:
            if k in names:
                vals[k] = v
            elif k == '**':
                rest.append((k, v))
            else:
                rest.append((k, v))
        if a.kwarg:
            ents = [('kv', const(k), v) if k != '**' else ('all', v) for k, v in rest]
            vals[a.kwarg.arg] = self.new_container('dict', ents, st)
        defaults = fterm.a[2]
        for nm, d in zip(pos[len(pos) - len(defaults):], defaults):
            if nm not in vals:
                vals[nm] = d
        for x, d in zip(a.kwonlyargs, fterm.a[3]):
            if x.arg not in vals and d is not None:
                vals[x.arg] = d
        for nm in pos + [x.arg for x in a.kwonlyargs]:
            if nm not in vals:
                vals[nm] = mk('sym', f'?{fi.qual}.{nm}')
        return vals

    def call_func(self, fterm, selfT, args, kwargs, st, node, prop=False):
        fi = self.funcs[fterm.a[0]]
        qual = fi.display
        if fi.cls is not None and selfT is None and 'builtins.staticmethod' not in fi.decos and args:
            pass
        self.stats['calls'] += 1
        vals = self.bind_args(fi, fterm, selfT, args, kwargs, st, node)
        a = fi.node.args
        order = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                self.apply_annotation(x.annotation, vals[x.arg], fi.module)
        if fi.cls and order and order[0] in vals and 'builtins.staticmethod' not in fi.decos:
            s0 = vals[order[0]]
            if s0.op in ('sym', 'attr', 'idx', 'call', 'mcall', 'elem') and s0 not in self.types:
                self.types[s0] = fi.cls
        spec = self.stop_spec(qual)
        if (spec is None and self.zip_cache == 'stop' and fi.module == 'bead.zipopener' and len(order) and self.stack
                and not any(f == fi.file for _, f, _ in self.stack)
                and ('open' in qual.rsplit('.', 1)[-1].lower() or 'get' in qual.rsplit('.', 1)[-1].lower())):
            # the cache of open archives is transparent (decided on its own)
            res = mk('call', 'zipfile.ZipFile', (self.snap(vals[order[-1]], st),), ())
            self.may_raise(EXC_EXT['zipfile.ZipFile'], st, node, res)
            return [(res, st)]
        depth = sum(1 for q, _, _ in self.stack if q == qual)
        if spec is None and (depth >= self.max_recursion or len(self.stack) > self.max_depth):
            spec = 'recursion'
        if spec is not None:
            sargs = tuple(self.snap(vals[nm], st) for nm in order)
            return self.stopped(qual, sargs, spec, fi, st, node)
        self.stats['functions'].add(qual)
        self.consulted.add(fi.file)
        if fi.memo and (self.stack and self.stack[-1][0] != 'memo of ' + qual):
            return self.call_memo(fterm, fi, selfT, args, kwargs, st, node, prop, tuple(self.snap(vals[nm], st) for nm in order))
        caller = st.fp
        fid = self.new_frame(st, fi.module, fterm.a[1] or self.modules[fi.module]['frame'])
        if not fterm.a[1]:
            st.wframe(fid)['%parent'] = const(self.modules[fi.module]['frame'])
        fr = st.wframe(fid)
        fr['%func'] = const(qual)
        if fi.cls:
            fr['%cls'] = const(fi.cls)
            if order:
                fr['%self'] = vals[order[0]]
        fr.update(vals)
        if fi.is_gen:
            fr['%captured'] = TRUE
            oid = st.fresh()
            gargs = tuple(self.snap(vals[nm], st) for nm in order)
            kind = 'cm' if any(d.endswith('contextmanager') for d in fi.decos) else 'gen'
            st.heap[oid] = HObj(kind, data=(mk('genfunc', qual), fterm, fid, None, gargs))
            return [(mk('obj', oid), st)]
        base_trace = st.trace
        base_ids = ({k: v for k, v in st.frames.items() if k != fid}, dict(st.heap))
        n_raised = len(self.sinks[-1])
        self.stack = self.stack + [(qual, fi.file, getattr(node, 'lineno', 0))]
        st.fp = fid
        st.emit(Ev('enter', qual, site=self.site(node)))
        saved_ycb = self.ycb
        self.ycb = self.ycb + [None]
        try:
            if isinstance(fi.node, ast.Lambda):
                outs = [('return', v, s) for v, s in self.ev(fi.node.body, st)]
            else:
                outs = self.exec_block(fi.node.body, st)
        finally:
            self.stack = self.stack[:-1]
            self.ycb = saved_ycb
        res = []
        for kind, val, s in outs:
            if kind in ('next', 'return'):
                s.fp = caller
                if '%captured' not in s.frames.get(fid, {'%captured': 1}):
                    del s.frames[fid]
                s.emit(Ev('leave', qual))
                v = val if kind == 'return' else NONE
                if isinstance(fi.node, ast.FunctionDef) and fi.node.returns is not None:
                    self.apply_annotation(fi.node.returns, v, fi.module)
                res.append((v, s))
            else:
                raise Inconclusive(f'{kind} outside loop')
        for exc, s in self.sinks[-1][n_raised:]:
            if self.stack:
                s.fp = caller
        if self.stack:
            if len(res) > self.merge_limit:
                res = self.merge(res, base_trace, base_ids)
            new = self.sinks[-1][n_raised:]
            if len(new) > self.merge_limit:
                self.sinks[-1][n_raised:] = self.merge(new, base_trace, base_ids, exc=True)
        return res

    def call_memo(self, fterm, fi, selfT, args, kwargs, st, node, prop, sargs):
        """a function that remembers its results: that of an earlier call with
        the same arguments, or a new one"""
        before, base = st.fork(), st.trace
        saved = self.stack
        self.stack = self.stack + [('memo of ' + fi.display, fi.file, getattr(node, 'lineno', 0))]
        try:
            outs = self.call_func(fterm, selfT, args, kwargs, st, node, prop)
        finally:
            self.stack = saved

        def impure(trace):
            return any(ev.kind in ('call', 'mcall') or ev.kind == 'alt' and any(impure(x) for x in ev.x) for ev in trace or ())
        if any(impure(trace_list(s.trace, base)) for _, s in outs):
            outs = outs + [(mk('call', '@remembered', (const(fi.display),) + sargs, ()), before)]
        return outs

    # ---------------------------------------------------------------- joins
    merge_limit = 10
    debug_merge = False

    def merge(self, outs, base_trace, base_ids, exc=False):
        """Join outcomes that differ only in the way they were reached; the
        ways are kept as alternatives of one 'alt' event."""
        groups = {}
        order = []
        for i, (v, s) in enumerate(outs):
            if exc:
                v = mk('exc', v.a[0], '') if v.op == 'exc' and v.a[0] != 'SystemExit' else v
            sub = trace_list(s.trace, base_trace) if self.extends(s.trace, base_trace) else None
            key = ('single', i) if sub is None else (v, self.live_key(v, s, base_ids))
            if key not in groups:
                groups[key] = []
                order.append(key)
            groups[key].append((v, s, sub))
        res = []
        if self.debug_merge:
            print('merge', 'exc' if exc else '', len(outs), '->', len(order), self.stack[-1:] )
        for key in order:
            g = groups[key]
            if len(g) == 1:
                i = next(j for j, o in enumerate(outs) if o[1] is g[0][1])
                res.append(outs[i])
                continue
            v, s, _ = g[0]
            lits = {}
            for t, val in s.lits.items():
                if all(x[1].lits.get(t) is val for x in g):
                    lits[t] = val
            s.lits = lits
            s.nid = max(x[1].nid for x in g)
            s.trace = base_trace
            s.emit(Ev('alt', x=[x[2] for x in g]))
            s.lits = lits
            res.append((v, s))
        return res

    @staticmethod
    def extends(tr, base):
        while tr is not None:
            if tr is base:
                return True
            tr = tr[0]
        return base is None

    def live_key(self, v, s, base_ids):
        """The part of the state that later code can still reach."""
        fids, oids = base_ids
        parts = [s.fp, s.exc, s.pending, tuple((l[0], l[1]) for l in s.loops)]
        seen = set()
        todo = [v] if isinstance(v, T) else []

        def val(x):
            if isinstance(x, T):
                todo.append(x)
            return x

        def frame(fid):
            fr = s.frames.get(fid)
            if fr is None:
                return None
            return frozenset((k, val(x)) for k, x in fr.items())

        def data(d):
            if isinstance(d, dict):
                return frozenset((k, val(x)) for k, x in d.items())
            if isinstance(d, tuple):
                return tuple(data(x) if isinstance(x, tuple) else val(x) for x in d)
            return d

        def obj(oid):
            h = s.heap[oid]
            return (oid, h.kind, h.cls, data(h.data), h.grown, h.loops)

        for fid, fr in fids.items():
            fr2 = s.frames.get(fid)
            if fr2 is not fr:
                parts.append((fid, frame(fid)))
        for oid, h in oids.items():
            h2 = s.heap.get(oid)
            if h2 is not h and h2 is not None:
                parts.append(obj(oid))
                seen.add(oid)
        parts.append(frozenset((k, val(x)) for k, x in s.overlay.items()))
        fseen = set(fids)
        while todo:
            t = todo.pop()
            for x in refs(t):
                if x.op == 'obj' and x.a[0] not in oids and x.a[0] in s.heap and x.a[0] not in seen:
                    seen.add(x.a[0])
                    parts.append(obj(x.a[0]))
                    h = s.heap[x.a[0]]
                    if h.kind in ('gen', 'cm') and isinstance(h.data, tuple):
                        for d in h.data:
                            if isinstance(d, int) and d in s.frames and d not in fseen:
                                fseen.add(d)
                                parts.append((d, frame(d)))
                elif x.op == 'func' and isinstance(x.a[1], int) and x.a[1] in s.frames and x.a[1] not in fseen:
                    fseen.add(x.a[1])
                    parts.append((x.a[1], frame(x.a[1])))
        return tuple(parts)

    def stopped(self, qual, sargs, spec, fi, st, node):
        res = mk('call', qual, sargs, ())
        if isinstance(spec, str) and ':' in spec and spec.split(':')[0] in ('type', 'list'):
            k, c = spec.split(':')
            if k == 'type':
                self.types[res] = c if c != 'self' else self.types.get(sargs[0], fi.cls)
            else:
                self.elem_types[res] = c
        elif callable(spec):
            r = spec(self, qual, sargs, st, node)
            if r is not None:
                return r
        elif isinstance(fi.node, ast.FunctionDef) and fi.node.returns is not None:
            self.apply_annotation(fi.node.returns, res, fi.module)
        if spec != 'pure':
            st.emit(Ev('call', qual, sargs, (), res, self.site(node)))
            self.may_raise(EXC_EXT.get(qual, ('OtherError',)), st, node, res)
        else:
            self.may_raise(EXC_EXT.get(qual, ()), st, node, res)
        return [(res, st)]

    # ---------------------------------------------------------------- classes
    def instantiate(self, cls, args, kwargs, st, node):
        q = cls.a[0]
        c = self.classes[q]
        ext = self.ext_bases(q)
        spec = self.stop_spec(q)
        if spec is not None:
            sargs = tuple(self.snap(x, st) for x in args)
            skw = tuple((k, self.snap(v, st)) for k, v in kwargs)
            res = mk('call', q, sargs, skw)
            self.types[res] = q
            st.emit(Ev('call', q, sargs, skw, res, self.site(node)))
            self.may_raise(('OtherError',) if spec == 'stop' else tuple(spec.split(',')) if isinstance(spec, str) and spec not in ('stop', 'pure') else (), st, node, res)
            return [(res, st)]
        if c.is_enum:
            x = args[0] if args else NONE
            if x.op == 'enum':
                return [(x, st)]
            for m in c.attrs.values():
                if m.op == 'enum' and (m.a[2] is x and x is not NONE or x is attr(m, 'value')):
                    return [(m, st)]
            return [(mk('call', q, (self.snap(x, st),), ()), st)]
        if any(e in ('builtins.Exception', 'builtins.BaseException') or e.endswith('Error') for e in ext):
            return [(mk('exc', q, tuple(self.snap(x, st) for x in args)), st)]
        if 'builtins.str' in ext:
            k, init = self.class_lookup(q, '__init__')
            val = args[0] if args else const('')
            oid = st.fresh()
            st.heap[oid] = HObj('inst', cls=q, data={})
            if init is None or not args:
                if init is not None:
                    return [(val, s) for _, s in self.call_func(init, mk('obj', oid), args, kwargs, st, node)]
                return [(val, st)]
            return [(val, s) for _, s in self.call_func(init, mk('obj', oid), args, kwargs, st, node)]
        oid = st.fresh()
        st.heap[oid] = HObj('inst', cls=q, data={})
        o = mk('obj', oid)
        if any(self.classes[k].is_attrs for k in self.mro(q) if k in self.classes):
            return self.attrs_init(o, q, args, kwargs, st, node)
        k, init = self.class_lookup(q, '__init__')
        if init is None:
            return [(o, st)]
        return [(o, s) for _, s in self.call_func(init, o, args, kwargs, st, node)]

    def attrs_fields(self, q):
        fields = []
        for k in reversed(self.mro(q)):
            c = self.classes.get(k)
            if not c or not c.is_attrs:
                continue
            for (nm, ann, val) in c.ann:
                f = {'name': nm, 'ann': ann, 'module': c.module}
                if isinstance(val, ast.Call):
                    fn = val.func
                    leaf = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', '')
                    if leaf in ('ib', 'field', 'attrib'):
                        for kw in val.keywords:
                            f[kw.arg] = kw.value
                    else:
                        f['default'] = val
                elif val is not None:
                    f['default'] = val
                fields.append(f)
        return fields

    def ev_in_module(self, node, module, st):
        saved = st.fp
        st.fp = self.modules[module]['frame']
        outs = self.ev(node, st)
        for _, s in outs:
            s.fp = saved
        return outs

    def attrs_init(self, o, q, args, kwargs, st, node):
        kw = dict(kwargs)
        pos = list(args)
        states = [st]
        data_of = {}
        fields = self.attrs_fields(q)
        star = kw.pop('**', None)
        states = [(st, {})]
        missing = False
        for f in fields:
            nm = f['name']
            given = None
            kw_only = 'kw_only' in f
            no_init = isinstance(f.get('init'), ast.Constant) and f['init'].value is False
            if no_init:
                pass
            elif not kw_only and pos:
                given = pos.pop(0)
            elif nm.lstrip('_') in kw:
                given = kw.pop(nm.lstrip('_'))
            elif star is not None:
                given = mk('idx', star, const(nm))
            nxt = []
            for s, d in states:
                if given is not None:
                    vals = [(given, s)]
                elif 'default' in f:
                    vals = self.ev_in_module(f['default'], f['module'], s)
                elif 'factory' in f:
                    vals = []
                    for fac, s2 in self.ev_in_module(f['factory'], f['module'], s):
                        vals.extend(self.call(fac, [], [], s2, node))
                else:
                    missing = missing or not no_init
                    vals = [(sym(f'?{q}.{nm}'), s)]
                if 'converter' in f:
                    v2 = []
                    for v, s2 in vals:
                        for cv, s3 in self.ev_in_module(f['converter'], f['module'], s2):
                            v2.extend(self.call(cv, [v], [], s3, node))
                    vals = v2
                for v, s2 in vals:
                    d2 = dict(d)
                    d2[nm] = v
                    self.apply_annotation(f['ann'], v, f['module'])
                    nxt.append((s2, d2))
            states = nxt
        out = []
        if (kw or pos or missing) and star is None:
            # arguments which the class does not have, or needs
            for s, d in states:
                self.raise_(mk('exc', 'TypeError', ''), s, node)
            return []
        for s, d in states:
            s.heap[o.a[0]] = HObj('inst', cls=q, data=d)
            k, post = self.class_lookup(q, '__attrs_post_init__')
            if post is None:
                k, post = self.class_lookup(q, '__post_init__')
            if post is not None:
                out.extend((o, s2) for _, s2 in self.call_func(post, o, [], [], s, node))
            else:
                out.append((o, s))
        return out

    # ---------------------------------------------------------------- methods
    def method_call(self, b, name, args, kwargs, st, node):
        h = self.hobj(b, st)
        if h is not None and h.kind in ('list', 'set', 'dict'):
            hook = self.ohooks.get(name)
            if hook is not None:
                r = hook(self, b, list(args), dict(kwargs), st, node)
                if r is not None:
                    return r
            r = self.container_method(b, h, name, args, kwargs, st, node)
            if r is not None:
                return r
        if h is not None and h.kind == 'gen' and name == '__iter__':
            return [(b, st)]
        if b is NONE and not name.startswith('__'):
            self.raise_(mk('exc', 'AttributeError', f"'NoneType' object has no attribute {name!r}"), st, node)
            return []
        if is_const(b) or b.op == 'cat' and name in ('startswith', 'endswith'):
            r = self.const_method(b, name, args, kwargs, st, node)
            if r is not None:
                return r
        if name in _IDENT_METHODS and not args:
            return [(b.a[0] if b.op == '@rel' else b, st)]
        if name == 'joinpath':
            return [(path([b] + [self.snap(x, st) for x in args]), st)]
        if h is None and not is_const(b) and b.op not in ('ext',):
            cls = self.class_of(b, st)
            if cls is None and name in self.by_method and name not in BUILTIN_METHODS and len(
                    self.by_method[name]) == 1 and not uninterpreted(b):
                q, f = self.by_method[name][0]
                fi = self.funcs[f.a[0]]
                if 'builtins.staticmethod' not in fi.decos:
                    self.types.setdefault(b, q)
                    return self.call_func(f, b, args, kwargs, st, node)
        if b.op == 'dict' and name == 'get':
            r = self.dict_get(b, [self._ent_from_term(e) for e in b.a], args, st, node)
            if r is not None:
                return r
        if name in ('glob', 'rglob') and False:
            pass
        if name == 'format' and is_const(b):
            pass
        sb = self.snap(b, st)
        sargs = tuple(self.snap(a, st) for a in args)
        skw = tuple(sorted(((k, self.snap(v, st)) for k, v in kwargs), key=lambda kv: kv[0]))
        hook = self.mhooks.get(name)
        if hook is not None:
            r = hook(self, sb, list(sargs), dict(skw), st, node)
            if r is not None:
                return r
        if b.op == 'call' and b.a[0] == 'json.JSONEncoder' and name in ('encode', 'iterencode') and len(args) == 1:
            out = []
            for v, s in self.call(mk('ext', 'json.dumps'), args, list(b.a[2]), st, node):
                out.append((v if name == 'encode' else self.new_container('list', [('item', v)], s), s))
            return out
        if name == 'startswith' or name == 'endswith':
            if len(sargs) == 1 and sargs[0].op == 'tuple':
                # any of several prefixes: one atom each
                out = []
                live = [st]
                for p in sargs[0].a:
                    nxt = []
                    for s in live:
                        for bv, s2 in self.branch(mk('mcall', sb, name, (p,), ()), s, node):
                            if bv:
                                out.append((TRUE, s2))
                            else:
                                nxt.append(s2)
                    live = nxt
                return out + [(FALSE, s) for s in live]
        res = mk('mcall', sb, name, sargs, skw)
        moves = name == 'replace' and len(sargs) == 1 and not skw       # of a path, not of a text
        pure = name in PURE_M and not moves
        if not pure:
            st.emit(Ev('mcall', name, (sb,) + sargs, skw, res, self.site(node)))
        elif name in ('glob', 'rglob', 'namelist', 'infolist', 'getinfo', 'exists', 'resolve', 'match', 'sub'):
            st.emit(Ev('query', name, (sb,) + sargs, skw, res, self.site(node)))
        if moves:
            self.may_raise(('OSError',), st, node, res)
        elif name not in NO_RAISE_M:
            self.may_raise(EXC_M.get(name, ('OtherError',)), st, node, res)
        if name == 'pop' and not pure:
            pass
        return [(res, st)]

    def dict_get(self, b, ents, args, st, node):
        k = args[0]
        default = args[1] if len(args) > 1 else NONE
        decided = True
        for e in reversed(ents):
            if e[0] == 'kv':
                r = self.same_key(e[1], k, st)
                if r is True:
                    return [(e[2], st)]
                if r is None:
                    decided = False
            else:
                return None
        if decided:
            return [(default, st)]
        # finite dict, unknown key: one path per key
        out = []
        live = [st]
        for e in ents:
            nxt = []
            for s in live:
                for bv, s2 in self.branch(self.eq_term(k, e[1]), s, node):
                    if bv:
                        out.append((e[2], s2))
                    else:
                        nxt.append(s2)
            live = nxt
        return out + [(default, s) for s in live]

    def container_method(self, b, h, name, args, kwargs, st, node):
        if h.kind == 'set' and name in SETM and len(args) == 1:
            xs = self.finite_set(b, st)
            ys = self.finite_set(args[0], st)
            if ys is None and xs is not None:
                ys = self.finite_items(self.strip_iter(args[0], st), st)
            r = self.set_algebra(SETM[name], xs, ys, st) if ys is not None else None
            if isinstance(r, bool):
                return [(const(r), st)]
            if r is not None and name.endswith('_update'):
                st.heap[b.a[0]] = h.with_data(tuple(('item', x) for x in r))
                return [(NONE, st)]
            if r is not None:
                return [(self.new_container('set', [('item', x) for x in r], st), st)]
            if ys is not None and SETM[name] in '-&':
                outs = self.split_set(SETM[name], xs, self.snap(self.strip_iter(args[0], st), st), st, node)
                if name.endswith('_update'):
                    for v, s in outs:
                        s.heap[b.a[0]] = s.heap[b.a[0]].with_data(s.heap[v.a[0]].data)
                    return [(NONE, s) for v, s in outs]
                return outs
        if name in ('append', 'add', 'appendleft') and len(args) == 1:
            if h.kind == 'set' and name == 'add' and any(e[0] == 'item' and e[1] is args[0] for e in h.data):
                return [(NONE, st)]
            self.add_entry(b, ('item', args[0]), st)
            st.emit(Ev('append', None, (b, self.snap(args[0], st)), site=self.site(node)))
            return [(NONE, st)]
        if name == 'insert':
            self.add_entry(b, ('item', args[1]), st)
            if is_const(args[0]) and cval(args[0]) == 0:
                h2 = st.heap[b.a[0]]
                if h2.data and h2.data[-1][0] == 'item':
                    st.heap[b.a[0]] = h2.with_data((h2.data[-1],) + h2.data[:-1])
            return [(NONE, st)]
        if name in ('extend', 'update') and len(args) == 1:
            hv = self.hobj(args[0], st)
            if hv is not None and hv.kind == 'gen':
                out = []

                def body(v, s):
                    self.add_entry(b, ('item', v), s)
                    return [('next', None, s)]
                for k, v, s in self.iterate(args[0], st, body, node):
                    out.append((NONE, s))
                return out
            self.extend_container(b, args[0], st)
            return [(NONE, st)]
        if name == 'update' and kwargs and not args:
            for k, v in kwargs:
                self.add_entry(b, ('kv', const(k), v), st)
            return [(NONE, st)]
        if name == 'clear':
            st.heap[b.a[0]] = h.with_data((), grown=False)
            return [(NONE, st)]
        if self.unroll:
            r = self.known_removal(b, h, name, args, dict(kwargs), st, node)
            if r is not None:
                return r
        if name in ('remove', 'discard', 'pop', 'popitem', 'popleft', 'difference_update', 'intersection_update'):
            if name == 'pop' and h.kind == 'list' and not h.grown and h.data and all(e[0] == 'item' for e in h.data):
                i = cval(args[0]) if args and is_const(args[0]) else -1 if not args else None
                if i is not None:
                    d = list(h.data)
                    v = d.pop(i)[1]
                    st.heap[b.a[0]] = h.with_data(tuple(d))
                    return [(v, st)]
            if name == 'pop' and h.kind == 'set' and not args and not h.grown and len(h.data) == 1 and h.data[0][0] == 'item':
                st.heap[b.a[0]] = h.with_data(())
                return [(h.data[0][1], st)]
            t = mk('mcall', self.snap(b, st), name, tuple(self.snap(x, st) for x in args), ())
            if name == 'pop' and h.kind == 'dict' and args:
                r = self.dict_get(b, h.data, args, st.fork(), node)
                self_v = r[0][0] if r and len(r) == 1 else t
                ents = tuple(e for e in h.data if not (e[0] == 'kv' and e[1] is args[0]))
                st.heap[b.a[0]] = h.with_data(ents + ((('rest',),) if len(ents) == len(h.data) else ()))
                return [(self_v, st)]
            st.heap[b.a[0]] = h.with_data(h.data + (('rest',),))
            st.emit(Ev('remove', name, (b,) + tuple(self.snap(x, st) for x in args), res=t, site=self.site(node)))
            return [(t, st)]
        if name == 'get' and h.kind == 'dict':
            r = None
            if not h.grown:
                r = self.dict_get(b, h.data, args, st, node)
            if r is not None:
                return r
        if name == 'setdefault' and h.kind == 'dict':
            k = args[0]
            for e in h.data:
                if e[0] == 'kv' and self.same_key(e[1], k, st) is True:
                    return [(e[2], st)]
            v = args[1] if len(args) > 1 else NONE
            self.add_entry(b, ('kv', k, v), st)
            return [(v, st)]
        if name == 'copy':
            oid = st.fresh()
            st.heap[oid] = HObj(h.kind, cls=None, data=h.data, mark=st.trace, loops=len(st.loops), grown=h.grown)
            return [(mk('obj', oid), st)]
        if name in ('items', 'keys', 'values') and h.kind == 'dict':
            return [(mk('mcall', b, name, (), ()), st)]
        if name in ('sort', 'reverse'):
            if name == 'sort':
                data = self.snap(b, st)
                key = self.keyfn(dict(kwargs).get('key'), st, node)
                rev = dict(kwargs).get('reverse', FALSE)
                t = mk('call', 'builtins.sorted', (data,), (('key', key), ('reverse', rev)))
                st.heap[b.a[0]] = HObj('list', data=(('all', t),), mark=st.trace, loops=len(st.loops))
            else:
                if all(e[0] == 'item' for e in h.data):
                    st.heap[b.a[0]] = h.with_data(tuple(reversed(h.data)))
                else:
                    t = mk('call', 'builtins.reversed', (self.snap(b, st),), ())
                    st.heap[b.a[0]] = HObj('list', data=(('all', t),), mark=st.trace, loops=len(st.loops))
            return [(NONE, st)]
        return None

    def known_removal(self, b, h, name, args, kw, st, node):
        """Removing from a container all elements of which are known."""
        if h.grown or any(e[0] not in ('item', 'kv') for e in h.data):
            return None
        d = h.data
        if name in ('pop', 'popleft', 'popitem') and not d:
            self.raise_(mk('exc', 'KeyError' if h.kind != 'list' else 'IndexError', ''), st, node)
            return []

        def without(i, v, s):
            s.heap[b.a[0]] = h.with_data(d[:i] + d[i + 1:])
            return v, s
        if name == 'popleft' and h.kind == 'list':
            return [without(0, d[0][1], st)]
        if name == 'popitem' and h.kind == 'dict':
            last = (list(args) + [kw.get('last', TRUE)])[0]
            if not is_const(last):
                return None
            i = len(d) - 1 if cval(last) else 0
            return [without(i, mk('tuple', *d[i][1:]), st)]
        if name == 'move_to_end' and h.kind == 'dict' and args:
            last = (list(args[1:]) + [kw.get('last', TRUE)])[0]
            for i, x in enumerate(d):
                r = self.same_key(x[1], args[0], st)
                if r is None or not is_const(last):
                    return None
                if r:
                    rest = d[:i] + d[i + 1:]
                    st.heap[b.a[0]] = h.with_data(rest + (x,) if cval(last) else (x,) + rest)
                    return [(NONE, st)]
            self.raise_(mk('exc', 'KeyError', ''), st, node)
            return []
        if name == 'pop' and h.kind == 'set' and not args:
            return [without(i, x[1], st.fork()) for i, x in enumerate(d if self.any_element else d[:1])]      # any of them
        if name in ('remove', 'discard', 'pop') and args and (h.kind != 'list' or name == 'remove'):
            for i, x in enumerate(d):
                r = self.same_key(x[1], args[0], st)
                if r is None:
                    return None
                if r:
                    return [without(i, x[2] if h.kind == 'dict' else NONE, st)]
            if name == 'discard':
                return [(NONE, st)]
            if name == 'pop' and len(args) > 1:
                return [(args[1], st)]
            self.raise_(mk('exc', 'ValueError' if h.kind == 'list' else 'KeyError', ''), st, node)
            return []
        return None

    def const_method(self, b, name, args, kwargs, st, node):
        if not is_const(b):
            return None
        v = cval(b)
        if isinstance(v, str):
            if name == 'join' and len(args) == 1:
                return self.str_join(b, args[0], st, node)
            if name == 'format':
                return self.str_format(v, args, kwargs, st, node)
            if name in STR_PURE and all(is_const(a) for a in args) and not kwargs:
                try:
                    r = getattr(v, name)(*[cval(a) for a in args])
                except Exception:
                    return None
                if isinstance(r, list):
                    return [(self.new_container('list', [('item', const(x)) for x in r], st), st)]
                if isinstance(r, tuple):
                    return [(mk('tuple', *[const(x) for x in r]), st)]
                return [(const(r), st)]
            if name in CONST_PATH_METHODS and all(is_const(a) and isinstance(cval(a), str) for a in args) and not kwargs:
                try:
                    r = getattr(PurePosixPath(v), name)(*[cval(a) for a in args])
                except ValueError:
                    self.raise_(mk('exc', 'ValueError', ''), st, node)
                    return []
                return [(const(r if isinstance(r, bool) else str(r)), st)]
            if name in ('startswith', 'endswith') and args and args[0].op == 'tuple' and all(
                    is_const(x) for x in args[0].a):
                return [(const(getattr(v, name)(tuple(cval(x) for x in args[0].a))), st)]
        return None

    def str_join(self, sep, it, st, node):
        items = self.finite_list(it, st)
        h = self.hobj(it, st)
        if items is None and h is not None and h.kind == 'gen':
            out = []
            lst = self.new_container('list', [], st)

            def body(v, s):
                self.add_entry(lst, ('item', v), s)
                return [('next', None, s)]
            for k, v, s in self.iterate(it, st, body, node):
                if k == 'exhausted':
                    out.extend(self.str_join(sep, lst, s, node))
            return out
        if items is not None:
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(sep)
                parts.append(self.to_str(x, st))
            return [(cat(parts), st)]
        return [(mk('mcall', sep, 'join', (self.snap(it, st),), ()), st)]

    def str_format(self, v, args, kwargs, st, node):
        import string
        out = []
        auto = 0
        kw = dict(kwargs)
        try:
            for lit, field, spec, conv in string.Formatter().parse(v):
                if lit:
                    out.append(const(lit))
                if field is None:
                    continue
                if field == '':
                    x = args[auto]
                    auto += 1
                elif field.isdigit():
                    x = args[int(field)]
                elif field in kw:
                    x = kw[field]
                else:
                    return None
                if spec or conv:
                    x = mk('call', 'builtins.format', (self.snap(x, st), const(spec or conv)), ())
                out.append(self.to_str(x, st))
        except (IndexError, ValueError):
            return None
        return [(cat(out), st)]

    # ---------------------------------------------------------------- key functions
    KAPPA = sym('κ')

    def keyfn(self, f, st, node):
        """Canonical description of a key function: its value on κ."""
        if f is None or f is NONE:
            return mk('key', self.KAPPA)
        if f.op == 'getter':
            x = self.KAPPA
            if f.a[0] == 'attr':
                for p in f.a[1].split('.'):
                    x = attr(x, p)
            else:
                x = mk('idx', x, f.a[1])
            return mk('key', x)
        s = st.fork()
        sinks, self.sinks = self.sinks, [[]]
        try:
            outs = self.call(f, [self.KAPPA], [], s, node)
        except Inconclusive:
            outs = []
        finally:
            self.sinks = sinks
        vals = {self.snap(v, s2) for v, s2 in outs}
        if len(vals) == 1:
            return mk('key', vals.pop())
        return mk('key?', f)

    # ---------------------------------------------------------------- externals
    def ext_call(self, name, args, kwargs, st, node):
        name = self.canon_ext(name)
        if self.unroll and args and name in ('builtins.min', 'builtins.max', 'builtins.sorted'):
            h = self.hobj(args[0], st)
            if h is not None and h.kind == 'gen':
                return [o for c, s in _collect('list')(self, args[:1], [], st, node)
                        for o in self.ext_call(name, [c] + list(args[1:]), kwargs, s, node)]
        hook = self.xhooks.get(name)
        if hook is not None:
            r = hook(self, [self.snap(a, st) for a in args], dict((k, self.snap(v, st)) for k, v in kwargs), st, node)
            if r is not None:
                return r
        m = self.MODELS.get(name)
        if m is not None:
            r = m(self, args, kwargs, st, node)
            if r is not None:
                return r
        if name.startswith('builtins.str.') or name.startswith('builtins.dict.') or name.startswith('builtins.bytes.'):
            if args:
                return self.method_call(args[0], name.split('.')[-1], args[1:], kwargs, st, node)
        if name.startswith('os.path.') and name[8:] in CONST_OSPATH and args and not kwargs and all(
                is_const(a) and isinstance(cval(a), str) for a in args):
            r = getattr(posixpath, name[8:])(*[cval(a) for a in args])
            return [(mk('tuple', *[const(x) for x in r]) if isinstance(r, tuple) else const(r), st)]
        sargs = tuple(self.snap(a, st) for a in args)
        skw = tuple(sorted(((k, self.snap(v, st)) for k, v in kwargs), key=lambda kv: kv[0]))
        spec = self.stop_spec(name)
        if spec is not None and callable(spec):
            r = spec(self, name, sargs, st, node)
            if r is not None:
                return r
        base = name.split('.')[-1]
        if name.startswith('builtins.') and base[0].isupper() and (
                base.endswith('Error') or base in ('Exception', 'BaseException', 'KeyboardInterrupt', 'SystemExit', 'StopIteration')):
            return [(mk('exc', base if base != 'IOError' else 'OSError', sargs), st)]
        res = mk('call', name, sargs, skw)
        pure = name not in ('builtins.' + b for b in IMPURE_BUILTINS) and (
            any(name.startswith(p) for p in PURE_EXT_PREFIX))
        st.emit(Ev('query' if pure else 'call', name, sargs, skw, res, self.site(node)))
        if name not in NO_RAISE and not name.startswith(('re.', 'html.', 'operator.', 'stat.', 'functools.', 'itertools.')):
            self.may_raise(EXC_EXT.get(name, ('OtherError',)), st, node, res)
        return [(res, st)]

    MODELS = {}


def model(*names):
    def deco(f):
        for n in names:
            Interp.MODELS[n] = f
        return f
    return deco


@model('builtins.len')
def _len(e, args, kw, st, node):
    t = args[0]
    items = e.finite_items(t, st)
    h = e.hobj(t, st)
    if h is not None and h.kind == 'inst':
        k, m = e.class_lookup(h.cls, '__len__')
        if m is not None:
            return e.call_func(m, t, [], [], st, node)
    if is_const(t):
        try:
            return [(const(len(cval(t))), st)]
        except TypeError:
            return None
    if items is not None and (h is None or h.kind != 'set'):
        return [(const(len(items)), st)]
    if items is not None and len(items) <= 3:
        # a set: as many elements as there are different ones
        live = [((), st)]
        for x in items:
            nxt = []
            for seen, s in live:
                cur = [s]
                for y in seen:
                    rest = []
                    for s2 in cur:
                        for same, s3 in e.branch(e.eq_term(x, y), s2, node):
                            (nxt if same else rest).append((seen, s3) if same else s3)
                    cur = rest
                nxt.extend((seen + (x,), s2) for s2 in cur)
            live = nxt
        return [(const(len(seen)), s) for seen, s in live]
    return [(mk('call', 'builtins.len', (e.snap(t, st),), ()), st)]


@model('builtins.str', 'os.fspath')
def _str(e, args, kw, st, node):
    if not args:
        return [(const(''), st)]
    if len(args) > 1:
        return None
    return [(e.str_of(args[0], st, node), st)]


@model('pathlib.Path')
def _path(e, args, kw, st, node):
    if not args:
        return [(const('.'), st)]
    if len(args) == 1:
        return [(e.snap(args[0], st), st)]
    return [(path([e.snap(a, st) for a in args]), st)]


@model('pathlib.Path.cwd')
def _cwd(e, args, kw, st, node):
    return [(mk('call', 'os.getcwd', (), ()), st)]


@model('os.path.join')
def _join(e, args, kw, st, node):
    return [(path([e.snap(a, st) for a in args]), st)]


@model('os.path.dirname')
def _dirname(e, args, kw, st, node):
    a = e.snap(args[0], st)
    if a.op == 'path':
        return [(path(a.a[:-1]), st)]


@model('os.path.split')
def _split(e, args, kw, st, node):
    a = e.snap(args[0], st)
    if a.op == 'path':
        return [(mk('tuple', path(a.a[:-1]), a.a[-1]), st)]


@model('os.path.basename')
def _basename(e, args, kw, st, node):
    a = e.snap(args[0], st)
    if a.op == 'path':
        return e.get_attr(a, 'name', st)
    if is_const(a):
        import os
        return [(const(os.path.basename(cval(a))), st)]
    return [(attr(a, 'name'), st)]


def _pathq(method):
    def f(e, args, kw, st, node):
        return e.method_call(e.snap(args[0], st), method, [], [], st, node)
    return f


Interp.MODELS['os.path.exists'] = _pathq('exists')
Interp.MODELS['os.path.lexists'] = _pathq('lexists')
Interp.MODELS['os.path.isdir'] = _pathq('is_dir')
Interp.MODELS['os.path.isfile'] = _pathq('is_file')
Interp.MODELS['os.path.islink'] = _pathq('is_symlink')


@model('os.unlink', 'os.remove')
def _unlink(e, args, kw, st, node):
    return e.method_call(e.snap(args[0], st), 'unlink', [], [], st, node)


@model('builtins.isinstance')
def _isinstance(e, args, kw, st, node):
    x, c = args
    cls = e.class_of(x, st)
    if c.op == 'cls':
        if cls:
            if e.is_subclass(cls, c.a[0]):
                return [(TRUE, st)]
            if e.hobj(x, st) is not None:
                return [(FALSE, st)]
        if x.op == 'enum':
            return [(const(e.is_subclass(x.a[0], c.a[0])), st)]
    if c.op == 'ext' and is_const(x):
        t = getattr(builtins, c.a[0][9:], None) if c.a[0].startswith('builtins.') else None
        if isinstance(t, type):
            return [(const(isinstance(cval(x), t)), st)]
    if c.op == 'ext' and c.a[0] == 'builtins.str' and x.op in ('cat',):
        return [(TRUE, st)]
    if c.op == 'ext' and c.a[0] == 'enum.Enum' and x.op == 'enum':
        return [(TRUE, st)]
    st.emit(Ev('query', 'builtins.isinstance', (e.snap(x, st), e.snap(c, st)), site=e.site(node)))
    return [(mk('call', 'builtins.isinstance', (e.snap(x, st), e.snap(c, st)), ()), st)]


@model('builtins.issubclass')
def _issubclass(e, args, kw, st, node):
    if args[0].op == 'cls' and args[1].op == 'cls':
        return [(const(e.is_subclass(args[0].a[0], args[1].a[0])), st)]
    return None


@model('builtins.callable')
def _callable(e, args, kw, st, node):
    if args[0].op in ('func', 'bound', 'cls', 'partial'):
        return [(TRUE, st)]
    if is_const(args[0]):
        return [(FALSE, st)]
    return None


@model('builtins.getattr')
def _getattr(e, args, kw, st, node):
    if len(args) >= 2 and is_const(args[1]):
        b = args[0]
        h = e.hobj(b, st)
        if len(args) == 3:
            if h is not None and h.kind == 'inst':
                k, v = e.class_lookup(h.cls, cval(args[1]))
                if v is None and cval(args[1]) not in h.data:
                    return [(args[2], st)]
                return e.get_attr(b, cval(args[1]), st, node)
            if e.class_of(b, st) is None:
                return [(mk('call', 'builtins.getattr', tuple(e.snap(a, st) for a in args), ()), st)]
        return e.get_attr(b, cval(args[1]), st, node)
    return None


@model('builtins.setattr')
def _setattr(e, args, kw, st, node):
    if is_const(args[1]):
        return [(NONE, s) for s in e.setattr(args[0], cval(args[1]), args[2], st, node)]
    return None


@model('builtins.bool')
def _bool(e, args, kw, st, node):
    if not args:
        return [(FALSE, st)]
    return [(const(b), s) for b, s in e.branch(args[0], st, node)]


@model('builtins.type')
def _type(e, args, kw, st, node):
    if len(args) == 1:
        if args[0].op == 'enum':
            return [(mk('cls', args[0].a[0]), st)]
        c = e.class_of(args[0], st)
        if c:
            return [(mk('cls', c), st)]
    return None


def _collect(kind):
    def f(e, args, kw, st, node):
        if not args:
            c = e.new_container(kind, [], st)
            if kind == 'dict':
                for k, v in kw:
                    e.add_entry(c, ('kv', const(k), v) if k != '**' else ('all', v), st)
            return [(c, st)]
        it = args[0]
        if kind == 'dict':
            h = e.hobj(it, st)
            c = e.new_container('dict', [], st)
            if h is not None and h.kind == 'dict' or it.op == 'dict':
                e.extend_container(c, it, st)
                for k, v in kw:
                    e.add_entry(c, ('kv', const(k), v) if k != '**' else ('all', v), st)
                return [(c, st)]
            if h is None and it.op not in ('tuple', 'list', 'call'):
                e.add_entry(c, ('all', e.snap(it, st)), st)
                for k, v in kw:
                    e.add_entry(c, ('kv', const(k), v) if k != '**' else ('all', v), st)
                return [(c, st)]

            def body(v, s):
                k = v.a[0] if v.op == 'tuple' else mk('idx', v, const(0))
                x = v.a[1] if v.op == 'tuple' else mk('idx', v, const(1))
                e.add_entry(c, ('kv', k, x), s)
                return [('next', None, s)]
        else:
            if it.op == 'mcall' and it.a[1] == 'keys' and e.hobj(it.a[0], st) is not None:
                it = it.a[0]
            items = e.finite_list(it, st)
            if items is not None and kind in ('tuple',):
                return [(mk('tuple', *items), st)]
            h = e.hobj(it, st)
            if h is None and it.op not in ('tuple', 'list', 'set', 'dict') and not (
                    it.op == 'call' and it.a[0] in ('builtins.map', 'builtins.filter', 'builtins.zip', 'builtins.enumerate',
                                                    'itertools.chain', 'itertools.chain.from_iterable', 'itertools.takewhile',
                                                    'itertools.filterfalse')) and not (
                    it.op == 'mcall' and it.a[1] in ('items', 'values')):
                if kind == 'tuple' or kind == 'list':
                    c = e.new_container('list', [('all', e.snap(it, st))], st)
                    return [(c, st)]
                c = e.new_container('set', [('all', e.snap(it, st))], st)
                return [(c, st)]
            c = e.new_container('set' if kind in ('set', 'frozenset') else 'list', [], st)

            def body(v, s):
                e.add_entry(c, ('item', v), s)
                return [('next', None, s)]
        out = []
        for k, v, s in e.iterate(it, st, body, node):
            if k == 'exhausted':
                if kind == 'tuple':
                    hh = s.heap[c.a[0]]
                    if all(x[0] == 'item' for x in hh.data) and not hh.grown:
                        out.append((mk('tuple', *[x[1] for x in hh.data]), s))
                        continue
                out.append((c, s))
        return out
    return f


for _k in ('list', 'set', 'tuple', 'dict', 'frozenset'):
    Interp.MODELS['builtins.' + _k] = _collect(_k)
Interp.MODELS['collections.OrderedDict'] = _collect('dict')


@model('collections.deque')
def _deque(e, args, kw, st, node):
    if kw or len(args) > 1:
        return None
    return _collect('list')(e, args, kw, st, node)


@model('collections.defaultdict')
def _defaultdict(e, args, kw, st, node):
    oid = st.fresh()
    st.heap[oid] = HObj('dict', cls='defaultdict' + (':' + args[0].a[0].partition('.')[2] if args and args[0].op == 'ext' else ''), data=(), mark=st.trace, loops=len(st.loops))
    return [(mk('obj', oid), st)]


def _materialize(e, it, st, node):
    """-> list of (term describing the elements, state)"""
    h = e.hobj(it, st)
    if h is not None and h.kind == 'gen' or it.op == 'call' and it.a[0] in (
            'builtins.map', 'builtins.filter', 'itertools.chain.from_iterable', 'itertools.takewhile', 'itertools.filterfalse'):
        out = []
        for c, s in _collect('list')(e, [it], [], st, node):
            out.append((e.snap(c, s), s))
        return out
    return [(e.snap(it, st), st)]


@model('builtins.sorted')
def _sorted(e, args, kw, st, node):
    k = dict(kw)
    out = []
    items = e.finite_list(args[0], st)
    if items is not None:
        if e.finite_sorted or len(items) < 2:
            return [(e.new_container('list', [('item', x) for x in items], st), st)]
    for t, s in _materialize(e, args[0], st, node):
        # element type carries over
        res = mk('call', 'builtins.sorted', (t,), (
            ('key', e.keyfn(k.get('key'), s, node)), ('reverse', k.get('reverse', FALSE))))
        if t in e.elem_types:
            e.elem_types[res] = e.elem_types[t]
        out.append((res, s))
    return out


def _minmax(nm):
    def f(e, args, kw, st, node):
        k = dict(kw)
        if len(args) > 1:
            if all(is_const(a) for a in args):
                return [(const((min if nm == 'min' else max)(cval(a) for a in args)), st)]
            return [(mk('call', 'builtins.' + nm, tuple(e.snap(a, st) for a in args), ()), st)]
        out = []
        for t, s in _materialize(e, args[0], st, node):
            kws = [('key', e.keyfn(k.get('key'), s, node))]
            if 'default' in k:
                kws.append(('default', e.snap(k['default'], s)))
            res = mk('call', 'builtins.' + nm, (t,), tuple(sorted(kws, key=lambda x: x[0])))
            if t in e.elem_types:
                e.types[res] = e.elem_types[t]
            if 'default' not in k:
                e.may_raise(('ValueError',), s, node, res)
            out.append((res, s))
        return out
    return f


Interp.MODELS['builtins.min'] = _minmax('min')
Interp.MODELS['builtins.max'] = _minmax('max')


def _anyall(isany):
    def f(e, args, kw, st, node):
        def body(v, s):
            out = []
            for b, s2 in e.branch_value(v, s, node):
                out.append(('break', None, s2) if b == isany else ('next', None, s2))
            return out
        out = []
        for k, v, s in e.iterate(args[0], st, body, node):
            if k == 'exhausted':
                out.append((const(not isany), s))
            elif k == 'break':
                out.append((const(isany), s))
        return out
    return f


def _collected(e, it, st, node):
    """-> [(items or None, state)]; generators are run"""
    h = e.hobj(it, st)
    if h is not None and h.kind == 'gen' or it.op == 'call' and it.a[0] in ('builtins.map', 'builtins.filter', 'itertools.chain.from_iterable', 'itertools.takewhile', 'itertools.filterfalse'):
        return [(e.finite_list(c, s), s) for c, s in _collect('list')(e, [it], [], st, node)]
    return [(e.finite_list(it, st), st)]


@model('functools.reduce')
def _reduce(e, args, kw, st, node):
    if len(args) not in (2, 3) or kw:
        return None
    out = []
    got = _collected(e, args[1], st, node)
    if any(items is None for items, _ in got):
        return None
    for items, s in got:
        items = list(args[2:]) + items
        if not items:
            e.raise_(mk('exc', 'TypeError', 'reduce() of empty iterable with no initial value'), s, node)
            continue
        live = [(items[0], s)]
        for x in items[1:]:
            live = [o for v, s2 in live for o in e.call(args[0], [v, x], [], s2, node)]
        out.extend(live)
    return out


@model('builtins.sum')
def _sum(e, args, kw, st, node):
    if not args:
        return None
    start = args[1] if len(args) > 1 else dict(kw).get('start', const(0))
    out = []
    for items, s in _collected(e, args[0], st, node):
        if items is None:
            for t, s2 in _materialize(e, args[0], st, node):
                out.append((mk('call', 'builtins.sum', (t,) + ((start,) if start is not const(0) else ()), ()), s2))
            return out
        live = [(start, s)]
        for x in items:
            live = [o for v, s2 in live for o in e.binop(ast.Add(), v, x, s2, node)]
        out.extend(live)
    return out


Interp.MODELS['builtins.any'] = _anyall(True)
Interp.MODELS['builtins.all'] = _anyall(False)


@model('builtins.next')
def _next(e, args, kw, st, node):
    it = args[0]
    stripped = e.strip_iter(it, st)
    h = e.hobj(stripped, st)
    if h is None or h.kind not in ('gen', 'list', 'set', 'dict'):
        return None

    def body(v, s):
        return [('break', v, s)]
    out = []
    if e.unroll and h.kind == 'set':
        items = e.finite_items(stripped, st)
        if items:
            return [(x, st.fork()) for x in (items if e.any_element else items[:1])]
    for k, v, s in e.iterate(stripped, st, body, node):
        if k == 'break':
            out.append((v, s))
        elif len(args) > 1:
            out.append((args[1], s))
        else:
            e.raise_(mk('exc', 'StopIteration', ''), s, node)
    return out


@model('builtins.iter')
def _iter(e, args, kw, st, node):
    if len(args) == 2:
        return [(mk('call', 'builtins.iter', (e.snap(args[0], st) if args[0].op != 'func' else args[0], args[1]), ()), st)]
    return [(args[0], st)]


@model('builtins.map', 'builtins.filter', 'builtins.zip', 'builtins.enumerate', 'itertools.chain',
       'itertools.chain.from_iterable', 'builtins.reversed')
def _lazy(e, args, kw, st, node):
    return None


def _mk_lazy(name):
    def f(e, args, kw, st, node):
        return [(mk('call', name, tuple(args), ()), st)]
    return f


for _n in ('builtins.map', 'builtins.filter', 'builtins.zip', 'builtins.enumerate', 'itertools.chain',
           'itertools.chain.from_iterable', 'itertools.takewhile', 'itertools.filterfalse'):
    Interp.MODELS[_n] = _mk_lazy(_n)


@model('builtins.reversed')
def _reversed(e, args, kw, st, node):
    items = e.finite_list(args[0], st)
    if items is not None:
        return [(e.new_container('list', [('item', x) for x in reversed(items)], st), st)]
    return [(mk('call', 'builtins.reversed', (e.snap(args[0], st),), ()), st)]


@model('functools.partial')
def _partial(e, args, kw, st, node):
    return [(mk('partial', args[0], tuple(args[1:]), tuple(sorted(kw, key=lambda x: x[0]))), st)]


@model('operator.attrgetter')
def _attrgetter(e, args, kw, st, node):
    if len(args) == 1 and is_const(args[0]):
        return [(mk('getter', 'attr', cval(args[0])), st)]
    return None


@model('operator.itemgetter')
def _itemgetter(e, args, kw, st, node):
    if len(args) == 1:
        return [(mk('getter', 'item', args[0]), st)]
    return None


@model('contextlib.closing', 'contextlib.suppress', 'contextlib.nullcontext')
def _ctx(e, args, kw, st, node):
    return None


@model('contextlib.closing')
def _closing(e, args, kw, st, node):
    return [(mk('call', 'contextlib.closing', tuple(args), ()), st)]


@model('contextlib.suppress')
def _suppress(e, args, kw, st, node):
    return [(mk('call', 'contextlib.suppress', tuple(args), ()), st)]


@model('sys.exit', 'os._exit', 'builtins.exit', 'builtins.quit')
def _exit(e, args, kw, st, node):
    st.emit(Ev('call', 'sys.exit', tuple(e.snap(a, st) for a in args), (), None, e.site(node)))
    e.raise_(mk('exc', 'SystemExit', tuple(e.snap(a, st) for a in args)), st, node)
    return []


@model('copy.deepcopy', 'copy.copy')
def _copy(e, args, kw, st, node):
    h = e.hobj(args[0], st)
    if h is not None and h.kind in ('list', 'set', 'dict'):
        oid = st.fresh()
        st.heap[oid] = HObj(h.kind, cls=h.cls, data=h.data, mark=st.trace, loops=len(st.loops), grown=h.grown)
        return [(mk('obj', oid), st)]
    return [(args[0], st)]


@model('attr.has', 'attrs.has', 'dataclasses.is_dataclass')
def _has(e, args, kw, st, node):
    x = args[0]
    q = x.a[0] if x.op == 'cls' else e.class_of(x, st)
    if x.op in ('cls', 'enum') or q:
        return [(const(bool(q) and any(e.classes[k].is_attrs for k in e.mro(q) if k in e.classes)), st)]
    return None


def field_values(e, x, st, node):
    """-> [([(name, value)], state)] of an attrs instance"""
    states = [([], st)]
    for f in e.attrs_fields(e.class_of(x, st)):
        states = [(acc + [(f['name'], v)], s2) for acc, s in states for v, s2 in e.get_attr(x, f['name'], s, node)]
    return states


def deep_fields(e, x, st, node, recurse, flt=None, ser=None):
    """-> [(value with attrs instances turned to dicts, state)]"""
    cls = e.class_of(x, st)
    if cls and any(e.classes[k].is_attrs for k in e.mro(cls) if k in e.classes):
        outs = []
        for fields, s in field_values(e, x, st, node):
            states = [([], s)]
            for n, v in fields:
                states = [(acc + [('kv', const(n), v2)], s3) for acc, s2 in states
                          for v2, s3 in (deep_fields(e, v, s2, node, True) if recurse else [(v, s2)])]
            outs += [(e.new_container('dict', acc, s2), s2) for acc, s2 in states]
        return outs
    items = e.finite_list(x, st) if x.op != 'const' else None
    if items is not None and recurse:
        states = [([], st)]
        for i in items:
            states = [(acc + [('item', v)], s2) for acc, s in states for v, s2 in deep_fields(e, i, s, node, True)]
        return [(e.new_container('list', acc, s), s) for acc, s in states]
    return [(x, st)]


@model('attr.asdict', 'attrs.asdict', 'dataclasses.asdict')
def _asdict(e, args, kw, st, node):
    kw = dict(kw)
    if not e.class_of(args[0], st) or set(kw) - {'recurse', 'filter'}:
        return None
    if kw.get('filter', NONE) is not NONE:
        if not is_const(kw.get('recurse', TRUE)) or cval(kw.get('recurse', TRUE)):
            return None
        states = []
        for fields, s in field_values(e, args[0], st, node):
            live = [([], s)]
            for n, v in fields:
                oid = s.fresh()
                nxt = []
                for acc, s2 in live:
                    s2.heap[oid] = HObj('inst', cls='attr.Attribute', data={'name': const(n)})
                    for r, s3 in e.call(kw['filter'], [mk('obj', oid), v], [], s2, node):
                        for keep, s4 in e.branch(r, s3, node):
                            nxt.append((acc + [('kv', const(n), v)] if keep else acc, s4))
                live = nxt
            states += live
        return [(e.new_container('dict', acc, s), s) for acc, s in states]
    r = kw.get('recurse', TRUE)
    if not is_const(r):
        return None
    return deep_fields(e, args[0], st, node, bool(cval(r))) if cval(r) else [
        (e.new_container('dict', [('kv', const(n), v) for n, v in fields], s), s) for fields, s in field_values(e, args[0], st, node)]


@model('attr.astuple', 'attrs.astuple')
def _astuple(e, args, kw, st, node):
    kw = dict(kw)
    if not e.class_of(args[0], st) or not is_const(kw.get('recurse', TRUE)) or cval(kw.get('recurse', TRUE)):
        return None
    return [(mk('tuple', *[v for n, v in fields]), s) for fields, s in field_values(e, args[0], st, node)]


@model('attr.fields', 'attrs.fields')
def _fields(e, args, kw, st, node):
    if args[0].op != 'cls':
        return None
    out = []
    for f in e.attrs_fields(args[0].a[0]):
        oid = st.fresh()
        st.heap[oid] = HObj('inst', cls='attr.Attribute', data={'name': const(f['name'])})
        out.append(mk('obj', oid))
    return [(mk('tuple', *out), st)]


@model('attr.fields_dict', 'attrs.fields_dict')
def _fields_dict(e, args, kw, st, node):
    if args[0].op != 'cls':
        return None
    return [(e.new_container('dict', [('kv', const(f['name']), sym('field ' + f['name'])) for f in e.attrs_fields(args[0].a[0])], st), st)]


@model('builtins.vars')
def _vars(e, args, kw, st, node):
    h = e.hobj(args[0], st) if args else None
    if h is None or h.kind != 'inst':
        return None
    return [(e.new_container('dict', [('kv', const(n), v) for n, v in h.data.items()], st), st)]


@model('attr.evolve', 'attrs.evolve', 'dataclasses.replace')
def _evolve(e, args, kw, st, node):
    b = args[0]
    cls = e.class_of(b, st)
    if not cls:
        return [(mk('call', 'attr.evolve', (e.snap(b, st),), tuple(sorted((k, e.snap(v, st)) for k, v in kw))), st)]
    given = dict(kw)
    states = [(st, [])]
    for f in e.attrs_fields(cls):
        nm = f['name']
        nxt = []
        for s, acc in states:
            if nm in given:
                nxt.append((s, acc + [(nm, given[nm])]))
            else:
                for v, s2 in e.get_attr(b, nm, s, node):
                    nxt.append((s2, acc + [(nm, v)]))
        states = nxt
    out = []
    for s, kws in states:
        oid = s.fresh()
        s.heap[oid] = HObj('inst', cls=cls, data={})
        # evolve passes the values back through __init__
        out.extend(e.attrs_init(mk('obj', oid), cls, [], kws, s, node))
    return out


@model('builtins.super')
def _super(e, args, kw, st, node):
    if len(args) == 2 and args[0].op == 'cls':
        return [(mk('super', args[0].a[0], args[1]), st)]
    return None


@model('builtins.int', 'builtins.float')
def _num(e, args, kw, st, node):
    return None


@model('builtins.max')
def _max(e, args, kw, st, node):
    return _minmax('max')(e, args, kw, st, node)


@model('builtins.object.__init__', 'builtins.str.__init__', 'builtins.object')
def _objinit(e, args, kw, st, node):
    return [(NONE, st)]


@model('textwrap.dedent')
def _dedent(e, args, kw, st, node):
    return [(args[0], st)]


@model('typing.TypeVar')
def _typevar(e, args, kw, st, node):
    return [(mk('ext', 'typing.TypeVar'), st)]


@model('typing.cast')
def _cast(e, args, kw, st, node):
    return [(args[1], st)]


@model('builtins.hasattr')
def _hasattr(e, args, kw, st, node):
    b = args[0]
    if is_const(b) and is_const(args[1]):
        return [(const(hasattr(cval(b), cval(args[1]))), st)]
    return None


@model('builtins.open')
def _open(e, args, kw, st, node):
    k = dict(kw)
    mode = args[1] if len(args) > 1 else k.get('mode', const('r'))
    p = e.snap(args[0], st)
    k.pop('mode', None)
    k.pop('file', None)
    skw = tuple(sorted(((a, e.snap(v, st)) for a, v in k.items()), key=lambda x: x[0]))
    res = mk('call', 'builtins.open', (p, mode), skw)
    st.emit(Ev('call', 'builtins.open', (p, mode), skw, res, e.site(node)))
    e.may_raise(('OSError',), st, node, res)
    return [(res, st)]
