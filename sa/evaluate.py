"""Statement and expression transfer functions."""
import ast

from .engine import (depends_on_fs, 
    Engine, Func, Cls, HObj, Ev, Path, Inconclusive, AnchorLost, trace_list, _OPS, _IDENT_METHODS,
    EXC_EXT, EXC_M, NO_RAISE, NO_RAISE_M, PURE_EXT_PREFIX, IMPURE_BUILTINS, BUILTIN_METHODS)
from .terms import (EXT_CONST, 
    T, mk, const, NONE, TRUE, FALSE, is_const, cval, sym, attr, cat, path, walk, contains, show)


_SETCMP = {ast.Eq: '==', ast.NotEq: '==', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}


class Evaluator(Engine):

    # ================================================================ statements
    def exec_block(self, stmts, st):
        """-> list of (kind, value, state); raises go to the current sink"""
        live = [st]
        done = []
        for stmt in stmts:
            nxt = []
            for s in live:
                for o in self.exec_stmt(stmt, s):
                    if o[0] == 'next':
                        nxt.append(o[2])
                    else:
                        done.append(o)
            live = self.dedupe(nxt)
            if not live:
                break
            if len(live) > self.max_paths:
                raise Inconclusive('too many paths')
        return [('next', None, s) for s in live] + done

    def dedupe(self, states):
        return states

    def exec_stmt(self, n, st):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Inconclusive('statement ' + type(n).__name__)
        return m(n, st)

    def x_Pass(self, n, st):
        return [('next', None, st)]

    x_Global_names = None

    def x_Global(self, n, st):
        fr = st.wframe(st.fp)
        fr['%global'] = const(tuple(n.names) + (cval(fr['%global']) if '%global' in fr else ()))
        return [('next', None, st)]

    def x_Nonlocal(self, n, st):
        fr = st.wframe(st.fp)
        fr['%nonlocal'] = const(tuple(n.names) + (cval(fr['%nonlocal']) if '%nonlocal' in fr else ()))
        return [('next', None, st)]

    def x_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [('next', None, st)]
        return [('next', None, s) for _, s in self.ev(n.value, st)]

    def x_Return(self, n, st):
        if n.value is None:
            return [('return', NONE, st)]
        return [('return', v, s) for v, s in self.ev(n.value, st)]

    def x_Break(self, n, st):
        return [('break', None, st)]

    def x_Continue(self, n, st):
        return [('continue', None, st)]

    def x_Assign(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            states = [s]
            for tgt in n.targets:
                states = [s3 for s2 in states for s3 in self.assign(tgt, v, s2)]
            out.extend(states)
        return [('next', None, s) for s in out]

    def x_AnnAssign(self, n, st):
        if n.value is None:
            return [('next', None, st)]
        out = []
        for v, s in self.ev(n.value, st):
            out.extend(self.assign(n.target, v, s))
        return [('next', None, s) for s in out]

    def x_AugAssign(self, n, st):
        load = self._as_load(n.target)
        out = []
        for cur, s in self.ev(load, st):
            for v, s2 in self.ev(n.value, s):
                h = self.hobj(cur, s2)
                if h is not None and h.kind in ('list', 'set', 'dict') and isinstance(n.op, (ast.Add, ast.BitOr)):
                    self.extend_container(cur, v, s2)
                    out.append(s2)
                    continue
                for r, s3 in self.binop(n.op, cur, v, s2, n):
                    out.extend(self.assign(n.target, r, s3))
        return [('next', None, s) for s in out]

    def _as_load(self, t):
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Name(t.id, ast.Load()), t)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
        raise Inconclusive('augassign target')

    def x_Delete(self, n, st):
        states = [st]
        for tgt in n.targets:
            nxt = []
            for s in states:
                if isinstance(tgt, ast.Name):
                    s.wframe(s.fp).pop(tgt.id, None)
                    nxt.append(s)
                elif isinstance(tgt, ast.Subscript):
                    for b, s2 in self.ev(tgt.value, s):
                        for k, s3 in self.ev(tgt.slice, s2):
                            nxt.extend(self.delitem(b, k, s3, n))
                elif isinstance(tgt, ast.Attribute):
                    for b, s2 in self.ev(tgt.value, s):
                        nxt.append(s2)
                else:
                    raise Inconclusive('delete')
            states = nxt
        return [('next', None, s) for s in states]

    def delitem(self, b, k, st, node):
        h = self.hobj(b, st)
        if h is not None and h.kind == 'dict':
            ents = tuple(e for e in h.data if not (e[0] == 'kv' and e[1] is k))
            if len(ents) == len(h.data):
                ents = ents + (('rest',),)
            st.heap[b.a[0]] = h.with_data(ents)
            st.emit(Ev('delitem', None, (b, self.snap(k, st)), site=self.site(node)))
            return [st]
        st.emit(Ev('delitem', None, (self.snap(b, st), self.snap(k, st)), site=self.site(node)))
        st.overlay.pop(mk('idx', b, k), None)
        self.may_raise(('KeyError',), st, node, mk('idx', b, k))
        return [st]

    def x_Assert(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            if b:
                out.append(('next', None, s))
            else:
                self.raise_(mk('exc', 'AssertionError', ''), s, n)
        return out

    def x_If(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            out.extend(self.exec_block(n.body if b else n.orelse, s))
        return out

    def x_Import(self, n, st):
        for a in n.names:
            if a.asname:
                st.wframe(st.fp)[a.asname] = self.resolve_module(a.name)
            else:
                top = a.name.split('.')[0]
                self.resolve_module(a.name)
                self.store_name(top, self.resolve_module(top), st)
        return [('next', None, st)]

    def x_ImportFrom(self, n, st):
        mod = self.frame_module(st, st.fp)
        m = self.modules[mod]
        if n.level:
            parts = mod.split('.')
            if not m['pkg']:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            base = '.'.join(parts + ([n.module] if n.module else []))
        else:
            base = n.module
        bt = self.resolve_module(base)
        for a in n.names:
            if bt.op == 'mod':
                v = None
                sub = base + '.' + a.name
                fr = st.frames.get(self.modules[base]['frame']) or self.base.frames[self.modules[base]['frame']]
                v = fr.get(a.name)
                if v is None:
                    v = self.base.frames[self.modules[base]['frame']].get(a.name)
                if v is None and sub in self.files:
                    v = self.resolve_module(sub)
                if v is None:
                    v = mk('ext', base + '.' + a.name)
            else:
                n = self.canon_ext(base + '.' + a.name)
                v = EXT_CONST.get(n) or mk('ext', n)
            self.store_name(a.asname or a.name, v, st)
        return [('next', None, st)]

    CANON = {'posixpath.': 'os.path.', 'json.decoder.JSONDecodeError': 'json.JSONDecodeError'}

    def canon_ext(self, name):
        if name.startswith('posixpath.'):
            return 'os.path.' + name[10:]
        if name in ('pathlib.PurePath', 'pathlib.PosixPath', 'pathlib.PurePosixPath'):
            return 'pathlib.Path'
        if name == 'os.fspath':
            return name
        return name

    # ---- definitions
    def x_FunctionDef(self, n, st):
        f, st = self.make_func(n, st)
        self.store_name(n.name, f, st)
        return [('next', None, st)]

    def enclosing_scope(self, st):
        """Frame a nested function closes over (class frames are skipped)."""
        fid = st.fp
        if '%class' in st.frames[fid]:
            fid = self.frame_parent(st, fid)
        return fid

    def make_func(self, n, st, name=None):
        mod = self.frame_module(st, st.fp)
        fr = st.frames[st.fp]
        pre = None
        if '%class' in fr:
            pre = cval(fr['%class'])
        elif '%func' in fr:
            pre = cval(fr['%func']) + '.<locals>'
        else:
            pre = mod
        nm = name or getattr(n, 'name', f'<lambda:{n.lineno}:{n.col_offset}>')
        qual = f'{pre}.{nm}'
        decos = []
        decoterms = []
        for d in getattr(n, 'decorator_list', []):
            outs = self.ev(d, st)
            if outs:
                t, st = outs[0]
                decoterms.append(t)
                if t.op == 'ext':
                    decos.append(t.a[0])
                elif t.op == 'attr':
                    decos.append('.' + t.a[1])
                elif t.op == 'propset':
                    decos.append('.setter')
                elif t.op == 'call' and t.a[0] in ('functools.lru_cache', 'functools.cache'):
                    decos.append(t.a[0])
                elif t.op == 'func':
                    decos.append('repo:' + t.a[0])
                else:
                    decos.append('?')
        scope = self.enclosing_scope(st)
        key = qual
        old = self.funcs.get(key)
        if old is not None and old.node is not n:
            key = f'{qual}@{n.lineno}'
        if key not in self.funcs:
            f = Func(key, n, mod, None, cval(fr['%class']) if '%class' in fr else None,
                     decos, self.modules[mod]['file'])
            # (a property and its setter are different functions)
            f.display = qual + '.setter' if '.setter' in decos else qual
            f.memo = any(x in ('functools.lru_cache', 'functools.cache') for x in decos)
            self.funcs[key] = f
        # defaults evaluated now
        defaults = []
        for d in n.args.defaults:
            outs = self.ev(d, st)
            if not outs:
                raise Inconclusive('default')
            v, st = outs[0]
            defaults.append(v)
        kwd = []
        for d in n.args.kw_defaults:
            if d is None:
                kwd.append(None)
            else:
                outs = self.ev(d, st)
                v, st = outs[0]
                kwd.append(v)
        ismod = '%parent' not in st.frames[scope]
        t = mk('func', key, 0 if ismod else scope, tuple(defaults), tuple(kwd))
        if not ismod:
            # keep captured frames alive
            st.wframe(scope)['%captured'] = TRUE
        for dname, dt in zip(reversed(decos), reversed(decoterms)):
            if dname in ('functools.wraps', 'functools.lru_cache', 'functools.cache'):
                continue
            if dname.startswith('repo:'):
                # repo decorator: apply it
                outs = self.call(dt, [t], [], st, n)
                if outs:
                    t, st = outs[0]
        return t, st

    def x_ClassDef(self, n, st):
        mod = self.frame_module(st, st.fp)
        fr = st.frames[st.fp]
        pre = cval(fr['%class']) if '%class' in fr else (
            cval(fr['%func']) + '.<locals>' if '%func' in fr else mod)
        qual = f'{pre}.{n.name}'
        bases, ext = [], []
        for b in n.bases:
            outs = self.ev(b, st)
            if not outs:
                continue
            t, st = outs[0]
            if t.op == 'cls':
                bases.append(t.a[0])
            elif t.op == 'ext':
                ext.append(t.a[0])
        c = Cls(qual, n, mod, bases, ext)
        c.file = self.modules[mod]['file']
        self.classes[qual] = c
        c.protocol = 'typing.Protocol' in ext
        c.is_enum = any(e.startswith('enum.') for e in ext) or any(
            self.classes[b].is_enum for b in bases if b in self.classes)
        for d in n.decorator_list:
            outs = self.ev_decorator(d, st)
            if outs in ('attr.s', 'attr.attrs', 'attr.define', 'attrs.define', 'attr.frozen', 'attrs.frozen',
                        'dataclasses.dataclass'):
                c.is_attrs = {'name': outs, **{k.arg: k.value.value for k in (d.keywords if isinstance(d, ast.Call) else ())
                                               if isinstance(k.value, ast.Constant)}}
        fid = self.new_frame(st, mod, st.fp)
        st.wframe(fid)['%class'] = const(qual)
        if '%func' in fr:
            st.wframe(fid)['%func'] = fr['%func']
        saved = st.fp
        st.fp = fid
        order = []
        for stmt in n.body:
            if isinstance(stmt, ast.AnnAssign) and isinstance(stmt.target, ast.Name):
                order.append((stmt.target.id, stmt.annotation, stmt.value))
                if stmt.value is None:
                    continue
            if isinstance(stmt, ast.FunctionDef):
                f, st = self.make_func(stmt, st)
                decos = self.funcs[f.a[0]].decos if f.op == 'func' else []
                if any(d in ('builtins.property', 'cached_property.cached_property',
                             'functools.cached_property', 'abc.abstractproperty') for d in decos):
                    c.props.setdefault(stmt.name, {})['get'] = f
                    st.wframe(fid)[stmt.name] = mk('propset', qual, stmt.name)
                elif any(d.endswith('.setter') for d in decos):
                    c.props.setdefault(stmt.name, {})['set'] = f
                else:
                    st.wframe(fid)[stmt.name] = f
                continue
            outs = [o for o in self.exec_stmt(stmt, st) if o[0] == 'next']
            if not outs:
                raise Inconclusive('class body')
            st = outs[0][2]
        st.fp = saved
        for k, v in st.frames[fid].items():
            if k.startswith('%') or v.op == 'propset':
                continue
            if c.is_enum and v.op not in ('func',) and not k.startswith('__'):
                v = mk('enum', qual, k, v if is_const(v) else const(None))
            c.attrs[k] = v
        c.ann = order
        if not any(True for _ in ()):
            pass
        del st.frames[fid]
        self.store_name(n.name, mk('cls', qual), st)
        return [('next', None, st)]

    def ev_decorator(self, d, st):
        call = d
        if isinstance(d, ast.Call):
            call = d.func
        outs = self.ev(call, st.fork())
        if outs and outs[0][0].op == 'ext':
            return outs[0][0].a[0]
        return None

    # ---- assignment targets
    def assign(self, tgt, v, st):
        if isinstance(tgt, ast.Name):
            self.store_name(tgt.id, v, st)
            return [st]
        if isinstance(tgt, (ast.Tuple, ast.List)):
            return self.unpack(tgt, v, st)
        if isinstance(tgt, ast.Attribute):
            out = []
            for b, s in self.ev(tgt.value, st):
                out.extend(self.setattr(b, tgt.attr, v, s, tgt))
            return out
        if isinstance(tgt, ast.Subscript):
            out = []
            for b, s in self.ev(tgt.value, st):
                if isinstance(tgt.slice, ast.Slice):
                    h = self.hobj(b, s)
                    x = tgt.slice
                    if h is None or h.kind != 'list' or x.step is not None:
                        raise Inconclusive('slice assignment')
                    items = self.finite_list(v, s)
                    whole = x.lower is None and x.upper is None
                    s.heap[b.a[0]] = h.with_data(tuple(('item', y) for y in items) if whole and items is not None else
                                                 (('rest',),) if whole else h.data + (('rest',),))
                    s.heap[b.a[0]].grown = h.grown or not (whole and items is not None)
                    s.emit(Ev('setitem', None, (b, NONE, self.snap(v, s)), site=self.site(tgt)))
                    out.append(s)
                    continue
                for k, s2 in self.ev(tgt.slice, s):
                    out.extend(self.setitem(b, k, v, s2, tgt))
            return out
        if isinstance(tgt, ast.Starred):
            return self.assign(tgt.value, v, st)
        raise Inconclusive('assign target')

    def unpack(self, tgt, v, st):
        elts = tgt.elts
        items = None
        if v.op == 'tuple':
            items = list(v.a)
        else:
            h = self.hobj(v, st)
            if h is not None and h.kind == 'list' and not h.grown and all(e[0] == 'item' for e in h.data):
                items = [e[1] for e in h.data]
        stars = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        if items is not None and not stars and len(items) == len(elts):
            vals = items
        elif items is not None and stars and len(items) >= len(elts) - 1:
            i = stars[0]
            k = len(items) - (len(elts) - 1)
            lst = self.new_container('list', [('item', x) for x in items[i:i + k]], st)
            vals = items[:i] + [lst] + items[i + k:]
        elif items is not None:
            self.raise_(mk('exc', 'ValueError', f'{len(items)} values to unpack'), st, tgt)
            return []
        else:
            vals = [self.subscript_pure(v, const(i), st) for i in range(len(elts))]
        states = [st]
        for e, x in zip(elts, vals):
            states = [s2 for s in states for s2 in self.assign(e, x, s)]
        return states

    def subscript_pure(self, v, k, st):
        return mk('idx', self.snap(v, st), k)

    def hobj(self, t, st):
        if isinstance(t, T) and t.op == 'obj':
            return st.heap.get(t.a[0])
        return None

    def new_container(self, kind, entries, st):
        oid = st.fresh()
        st.heap[oid] = HObj(kind, data=tuple(entries), mark=st.trace, loops=len(st.loops))
        return mk('obj', oid)

    def setattr(self, b, name, v, st, node):
        h = self.hobj(b, st)
        cls = None
        if h is not None and h.kind == 'inst':
            cls = h.cls
        elif b in self.types:
            cls = self.types[b]
        if cls:
            k, p = self.class_lookup(cls, name)
            if p is not None and p.op == 'prop':
                setter = self.classes[p.a[0]].props[p.a[1]].get('set')
                if setter is not None:
                    return [s for _, s in self.call_func(setter, b, [v], [], st, node)]
        if h is not None and h.kind == 'inst':
            d = dict(h.data)
            d[name] = v
            st.heap[b.a[0]] = h.with_data(d)
            st.emit(Ev('setattr', name, (b, self.snap(v, st)), site=self.site(node), x=h.cls))
            return [st]
        if b.op == 'cls':
            return [st]
        st.emit(Ev('setattr', name, (self.snap(b, st), self.snap(v, st)), site=self.site(node)))
        st.overlay[attr(b, name)] = v
        return [st]

    def loop_ctx(self, h, st):
        """Loops entered since the container was created, with path conditions."""
        ctx = []
        for (it, el, lits0) in st.loops[h.loops:]:
            ctx.append([it, el, lits0])
        res = []
        for i, (it, el, lits0) in enumerate(ctx):
            nxt = ctx[i + 1][2] if i + 1 < len(ctx) else st.lits
            new = tuple(sorted(((k, v) for k, v in nxt.items() if k not in lits0), key=lambda kv: kv[0].n))
            res.append(mk('ctx', it, el, tuple(mk('lit', k, const(v)) for k, v in new)))
        return tuple(res)

    def add_entry(self, b, ent, st):
        h = st.heap[b.a[0]]
        if len(st.loops) > h.loops:
            ctx = self.loop_ctx(h, st)
            if ent[0] == 'item':
                ent = ('comp', ctx, ent[1])
            elif ent[0] == 'kv':
                ent = ('kvcomp', ctx, ent[1], ent[2])
            elif ent[0] == 'all':
                ent = ('comp', ctx, mk('star', ent[1]))
            elif ent[0] == 'comp':
                ent = ('comp', ctx + ent[1], ent[2])
            elif ent[0] == 'kvcomp':
                ent = ('kvcomp', ctx + ent[1], ent[2], ent[3])
            if ent in h.data:
                return
        if h.kind == 'set' and (ent in h.data or ent[0] == 'item' and any(e[0] == 'item' and self.same_key(e[1], ent[1], st) for e in h.data)):
            return
        if h.kind == 'dict' and ent[0] == 'kv':
            if h.data and all(e[0] == 'kv' for e in h.data) and any(self.same_key(e[1], ent[1], st) for e in h.data):
                # the position of an existing key is kept
                st.heap[b.a[0]] = h.with_data(tuple(('kv', e[1], ent[2]) if self.same_key(e[1], ent[1], st) else e for e in h.data))
                return
            data = tuple(e for e in h.data if not (e[0] == 'kv' and e[1] is ent[1]))
            st.heap[b.a[0]] = h.with_data(data + (ent,))
            return
        st.heap[b.a[0]] = h.with_data(h.data + (ent,))

    def same_key(self, a, b, st):
        """Are these equal?  True / False / None"""
        if a is b:
            return True
        r = self.compare_static('==', a, b, st)
        if r is None and self.decide is not None:
            r = self.decide(self, self.eq_term(a, b), st)
        return r

    def entries_of(self, v, st):
        """Entries contributed by iterating/merging v, or None"""
        h = self.hobj(v, st)
        if h is not None and h.kind in ('list', 'set'):
            return list(h.data) + ([('rest',)] if h.grown else [])
        if v.op == 'tuple':
            return [('item', x) for x in v.a]
        if v.op in ('list', 'set'):
            return [self._ent_from_term(e) for e in v.a]
        return None

    def _ent_from_term(self, e):
        if e.op in ('item', 'kv', 'comp', 'kvcomp', 'all'):
            return (e.op,) + e.a
        return ('rest',)

    def extend_container(self, b, v, st):
        h = st.heap[b.a[0]]
        if h.kind == 'dict':
            hv = self.hobj(v, st)
            if hv is not None and hv.kind == 'dict':
                for e in hv.data:
                    self.add_entry(b, e, st)
            elif v.op == 'dict':
                for e in v.a:
                    self.add_entry(b, self._ent_from_term(e), st)
            else:
                self.add_entry(b, ('all', v), st)
            return
        ents = self.entries_of(v, st)
        if ents is None:
            self.add_entry(b, ('all', self.snap(v, st)), st)
        else:
            for e in ents:
                self.add_entry(b, e, st)

    def setitem(self, b, k, v, st, node):
        h = self.hobj(b, st)
        if h is not None and h.kind == 'dict':
            self.add_entry(b, ('kv', k, v), st)
            st.emit(Ev('setitem', None, (b, self.snap(k, st), self.snap(v, st)), site=self.site(node)))
            return [st]
        if h is not None and h.kind == 'list':
            if is_const(k) and isinstance(cval(k), int) and not h.grown and all(x[0] == 'item' for x in h.data) and (
                    -len(h.data) <= cval(k) < len(h.data)):
                data = list(h.data)
                data[cval(k)] = ('item', v)
                st.heap[b.a[0]] = h.with_data(tuple(data))
                return [st]
            st.heap[b.a[0]] = h.with_data(h.data + (('rest',),))
            return [st]
        st.emit(Ev('setitem', None, (self.snap(b, st), self.snap(k, st), self.snap(v, st)), site=self.site(node)))
        st.overlay[mk('idx', b, k)] = v
        return [st]

    # ---- control flow
    def x_Raise(self, n, st):
        if n.exc is None:
            exc = st.exc or mk('exc', 'RuntimeError', '')
            self.raise_(exc, st, n)
            return []
        for v, s in self.ev(n.exc, st):
            self.raise_(self.to_exc(v, s), s, n)
        return []

    def to_exc(self, v, st):
        if v.op == 'exc':
            return v
        name = self.exc_name(v)
        if name:
            return mk('exc', name, '')
        h = self.hobj(v, st)
        if h is not None and h.kind == 'inst':
            return mk('exc', h.cls, v)
        if v.op == 'call' and v.a[0].startswith('builtins.'):
            return mk('exc', v.a[0][9:], v)
        return mk('exc', 'OtherError', v)

    def x_Try(self, n, st):
        fp = st.fp
        base_trace = st.trace
        base_ids = (dict(st.frames), dict(st.heap))
        self.sinks.append([])
        try:
            outs = self.exec_block(n.body, st)
        finally:
            raised = self.sinks.pop()
        if len(raised) > self.merge_limit and not any(h.name for h in n.handlers):
            for exc, s in raised:
                s.fp = fp
            raised = self.merge(raised, base_trace, base_ids, exc=True)
        if n.finalbody:
            self.sinks.append([])
        try:
            res = []
            for kind, val, s in outs:
                if kind == 'next' and n.orelse:
                    res.extend(self.exec_block(n.orelse, s))
                else:
                    res.append((kind, val, s))
            for exc, s in raised:
                s.fp = fp
                res.extend(self.handle(n.handlers, exc, s, n))
        finally:
            if n.finalbody:
                raised2 = self.sinks.pop()
        if len(res) > self.merge_limit:
            res = self.merge_kinds(res, base_trace, base_ids)
        if not n.finalbody:
            return res
        final = []
        for kind, val, s in res:
            for k2, v2, s2 in self.exec_block(n.finalbody, s):
                final.append((kind, val, s2) if k2 == 'next' else (k2, v2, s2))
        for exc, s in raised2:
            s.fp = fp
            for k2, v2, s2 in self.exec_block(n.finalbody, s):
                if k2 == 'next':
                    self.sinks[-1].append((exc, s2))
                else:
                    final.append((k2, v2, s2))
        return final

    def merge_kinds(self, outs, base_trace, base_ids):
        res = []
        for k in dict.fromkeys(o[0] for o in outs):
            sub = [(v if v is not None else NONE, s) for k2, v, s in outs if k2 == k]
            if len(sub) > self.merge_limit:
                sub = self.merge(sub, base_trace, base_ids)
            res.extend((k, v if k == 'return' else None, s) for v, s in sub)
        return res

    def handler_names(self, h, st):
        if h.type is None:
            return ['BaseException']
        outs = self.ev(h.type, st.fork())
        if not outs:
            return [None]
        t, s = outs[0]
        if t.op == 'tuple':
            return [self.exc_name(x) for x in t.a]
        return [self.exc_name(t)]

    def handle(self, handlers, exc, st, node):
        done = []
        for h in handlers:
            names = self.handler_names(h, st)
            m = [self.exc_matches(exc, nm) for nm in names]
            if not any(m) and None in m and exc.op == 'exc':
                # one of the kinds of failure which the exception stands for
                narrow = mk('exc', names[m.index(None)], *exc.a[1:])
                done.extend(self.handle([h], narrow, st.fork(), node))
                continue
            if any(x is True for x in m):
                saved = st.exc
                st.exc = exc
                st.emit(Ev('catch', exc.a[0], site=self.site(h), x=tuple(names)))
                if h.name:
                    self.store_name(h.name, exc, st)
                outs = self.exec_block(h.body, st)
                for o in outs:
                    o[2].exc = saved
                return done + outs
        self.sinks[-1].append((exc, st))
        return done

    def x_With(self, n, st):
        return self.with_items(n.items, n.body, st, n)

    def with_items(self, items, body, st, n):
        if not items:
            return self.exec_block(body, st)
        it = items[0]
        out = []
        for v, s in self.ev(it.context_expr, st):
            out.extend(self.with_one(v, it.optional_vars, lambda s2: self.with_items(items[1:], body, s2, n), s, n))
        return out

    def with_one(self, v, target, body, st, node):
        h = self.hobj(v, st)
        fp = st.fp

        def bind(val, s):
            if target is None:
                return [s]
            return self.assign(target, val, s)

        if h is not None and h.kind == 'cm':
            # generator based context manager of the repository
            return self.run_cm(h, bind, body, st, node)
        if h is not None and h.kind == 'inst':
            k, enter = self.class_lookup(h.cls, '__enter__')
            if enter is not None:
                out = []
                for val, s in self.call_func(enter, v, [], [], st, node):
                    for s2 in bind(val, s):
                        out.extend(self.guard_body(
                            body, s2,
                            lambda s3, exc: [x for _, x in self.call(
                                self.get_attr_simple(v, '__exit__', s3), [NONE, NONE, NONE], [], s3, node)]))
                return out
        if v.op == 'call' and v.a[0] == 'contextlib.closing':
            inner = v.a[1][0]
            out = []
            for s2 in bind(inner, st):
                out.extend(self.guard_body(
                    body, s2, lambda s3, exc: [x for _, x in self.method_call(inner, 'close', [], [], s3, node)]))
            return out
        if v.op == 'call' and v.a[0] == 'contextlib.suppress':
            names = [self.exc_name(x) for x in v.a[1]]
            self.sinks.append([])
            try:
                outs = body(st)
            finally:
                raised = self.sinks.pop()
            for exc, s in raised:
                s.fp = fp
                if any(self.exc_matches(exc, nm) is True for nm in names):
                    s.emit(Ev('catch', exc.a[0], site=self.site(node), x=tuple(names)))
                    outs.append(('next', None, s))
                else:
                    self.sinks[-1].append((exc, s))
            return outs
        if v.op == 'call' and v.a[0] == 'contextlib.nullcontext':
            out = []
            for s2 in bind(v.a[1][0] if v.a[1] else NONE, st):
                out.extend(body(s2))
            return out
        out = []
        for s2 in bind(v, st):
            def leave(s3, exc):
                s3.emit(Ev('mcall', '__exit__', (v, const(exc is not None)), site=self.site(node)))
                return [s3]
            out.extend(self.guard_body(body, s2, leave))
        return out

    def guard_body(self, body, st, leave):
        """run body; leave(state, exc) on every exit"""
        fp = st.fp
        self.sinks.append([])
        try:
            outs = body(st)
        finally:
            raised = self.sinks.pop()
        res = []
        for kind, val, s in outs:
            for s2 in leave(s, None):
                res.append((kind, val, s2))
        for exc, s in raised:
            s.fp = fp
            for s2 in leave(s, exc):
                self.sinks[-1].append((exc, s2))
        return res

    def run_cm(self, h, bind, body, st, node):
        fp = st.fp
        saved = self.save_ctx()
        results = []

        def cb(val, s):
            # body of the with statement runs in the consumer's context, but
            # its exceptions are thrown into the generator
            inner_stack, inner_ycb = self.stack, self.ycb
            gen_fp = s.fp
            self.stack, self.ycb = saved[0], saved[1]
            s.fp = fp
            res = []
            try:
                for s2 in bind(val, s):
                    for kind, v2, s3 in body(s2):
                        s3.pending = (kind, v2)
                        s3.fp = gen_fp
                        res.append((NONE, s3))
            finally:
                self.stack, self.ycb = inner_stack, inner_ycb
            for exc, s3 in self.sinks[-1]:
                s3.fp = gen_fp
            return res

        out = []
        for kind, v, s in self.run_gen(h.data, cb, st, node):
            s.fp = fp
            pend = s.pending
            s.pending = None
            out.append(pend if pend is None else (pend[0], pend[1], s))
        return [o for o in out if o is not None]

    def save_ctx(self):
        return (list(self.stack), list(self.ycb))

    # ---- loops
    def x_For(self, n, st):
        out = []
        for it, s in self.ev(n.iter, st):
            def body(v, s2):
                res = []
                for s3 in self.assign(n.target, v, s2):
                    res.extend(self.exec_block(n.body, s3))
                return res
            for kind, val, s2 in self.iterate(it, s, body, n):
                if kind == 'exhausted':
                    if n.orelse:
                        out.extend(self.exec_block(n.orelse, s2))
                    else:
                        out.append(('next', None, s2))
                elif kind == 'break':
                    out.append(('next', None, s2))
                else:
                    out.append((kind, val, s2))
        return out

    def x_While(self, n, st):
        it = mk('while', self.site(n).func, n.lineno)

        def body(s):
            res = []
            for b, s2 in self.cond(n.test, s):
                if b:
                    res.extend(self.exec_block(n.body, s2))
                else:
                    res.append(('stop', None, s2))
            return res
        out = []
        loop = self.unrolled_while if self.unroll else self.abstract_loop
        for kind, val, s in loop(it, None, body, st, n, is_while=True):
            if kind == 'exhausted':
                if n.orelse:
                    out.extend(self.exec_block(n.orelse, s))
                else:
                    out.append(('next', None, s))
            elif kind == 'break':
                out.append(('next', None, s))
            else:
                out.append((kind, val, s))
        return out

    def unrolled_while(self, it, el, body, st, node, is_while=True):
        """A loop of a scenario in which everything is known."""
        live, done = [st], []
        for _ in range(self.unroll):
            nxt = []
            for s in live:
                for kind, val, s2 in body(s):
                    if kind in ('next', 'continue'):
                        nxt.append(s2)
                    else:
                        done.append(('exhausted' if kind == 'stop' else kind, val, s2))
            live = nxt
            self.push_path(len(live))
            if not live:
                return done
        raise Inconclusive(f'loop at line {node.lineno} does not end in the scenario')

    def strip_iter(self, it, st):
        """Peel order/copy wrappers off an iterable."""
        while True:
            if it.op == 'call' and it.a[0] in (
                    'builtins.list', 'builtins.tuple', 'builtins.iter', 'builtins.sorted', 'builtins.set',
                    'builtins.frozenset', 'builtins.reversed', 'collections.deque') and len(it.a[1]) == 1:
                it = it.a[1][0]
                continue
            if it.op == 'mcall' and it.a[1] in ('keys', 'copy') and not it.a[2]:
                it = it.a[0]
                continue
            if it.op == 'slice' and all(is_const(x) and cval(x) is None for x in it.a[1:3]):
                it = it.a[0]
                continue
            return it

    def iterate(self, it, st, body, node):
        """Run body(value, state) for the elements of `it`.
        -> outcomes; normal exhaustion has kind 'exhausted'."""
        it = self.strip_iter(it, st)
        if it.op in ('call', 'mcall') and self.iterhooks:
            hook = self.iterhooks.get(it.a[0] if it.op == 'call' else it.a[1])
            if hook is not None:
                r = hook(self, it, st, body, node)
                if r is not None:
                    return r
        h = self.hobj(it, st)
        if h is not None and h.kind == 'gen':
            return self.iterate_gen(h, st, body, node)
        if h is not None and h.kind == 'inst':
            k, itf = self.class_lookup(h.cls, '__iter__')
            if itf is not None:
                out = []
                for v, s in self.call_func(itf, it, [], [], st, node):
                    out.extend(self.iterate(v, s, body, node))
                return out
        ents = None
        if self.unroll and h is not None and h.kind == 'list' and not h.grown and all(e[0] == 'item' for e in h.data):
            return self.iterate_list(it, st, body)
        if self.unroll and h is not None and h.kind == 'set' and not h.grown and len(h.data) > 1 and all(
                e[0] == 'item' for e in h.data):
            # the order is not known
            return [o for d in self.set_orders
                    for o in self.iterate(mk('tuple', *[e[1] for e in h.data[::d]]), st.fork(), body, node)]
        if h is not None and h.kind in ('list', 'set', 'dict'):
            ents = list(h.data)
            if h.kind == 'dict':
                ents = [(('item', e[1]) if e[0] == 'kv' else ('comp', e[1], e[2]) if e[0] == 'kvcomp' else e)
                        for e in ents]
            if h.grown:
                ents = [('loopall', self.snap(it, st))]
        elif it.op in ('list', 'set'):
            ents = [self._ent_from_term(e) for e in it.a]
        elif it.op == 'dict':
            ents = [(('item', e.a[0]) if e.op == 'kv' else ('comp', e.a[0], e.a[1]) if e.op == 'kvcomp' else ('rest',))
                    for e in it.a]
        elif it.op == 'tuple':
            ents = [('item', x) for x in it.a]
        elif is_const(it) and isinstance(cval(it), (tuple, str, frozenset)):
            ents = [('item', const(x)) for x in cval(it)]
        elif it.op == 'cls' and self.classes[it.a[0]].is_enum:
            ents = [('item', v) for v in self.classes[it.a[0]].attrs.values() if v.op == 'enum']
        elif it.op == 'mcall' and it.a[1] in ('items', 'values') and not it.a[2]:
            d = it.a[0]
            src = None
            hd = self.hobj(d, st)
            if hd is not None and hd.kind == 'dict' and not hd.grown:
                src = hd.data
            elif d.op == 'dict':
                src = [self._ent_from_term(e) for e in d.a]
            if src is not None and all(e[0] in ('kv', 'kvcomp') for e in src):
                pair = (lambda k, v: mk('tuple', k, v)) if it.a[1] == 'items' else (lambda k, v: v)
                ents = [(('item', pair(e[1], e[2])) if e[0] == 'kv' else ('comp', e[1], pair(e[2], e[3])))
                        for e in src]
        elif it.op == 'call' and it.a[0] == 'builtins.enumerate':
            inner = it.a[1][0]

            def body2(v, s):
                return body(mk('tuple', mk('index', self.snap(inner, s)), v), s)
            items = self.finite_list(inner, st)
            if items is not None:
                ents = [('item', mk('tuple', const(i), x)) for i, x in enumerate(items)]
            else:
                return self.iterate(inner, st, body2, node)
        elif it.op == 'call' and it.a[0] == 'builtins.zip' and it.a[1]:
            lists = [self.finite_list(x, st) for x in it.a[1]]
            if all(x is not None for x in lists):
                ents = [('item', mk('tuple', *xs)) for xs in zip(*lists)]
            else:
                inner = it.a[1][0]
                rest = it.a[1][1:]

                def body3(v, s):
                    return body(mk('tuple', v, *[mk('elem', self.snap(r, s), 0) for r in rest]), s)
                return self.iterate(inner, st, body3, node)
        elif it.op == 'call' and it.a[0] in ('itertools.chain',):
            outs = [('exhausted', None, st)]
            res = []
            for sub in it.a[1]:
                nxt = []
                for k, v, s in outs:
                    for o in self.iterate(sub, s, body, node):
                        (nxt if o[0] == 'exhausted' else res).append(o)
                outs = nxt
            return outs + res
        elif it.op == 'call' and it.a[0] == 'itertools.chain.from_iterable':
            return self.iterate(it.a[1][0], st, lambda v, s: self._flat(v, s, body, node), node)
        elif it.op == 'call' and it.a[0] == 'builtins.iter' and len(it.a[1]) == 2:
            fn, sentinel = it.a[1]

            def bodyw(s):
                res = []
                for v, s2 in self.call(fn, [], [], s, node):
                    for b, s3 in self.branch(self.eq_term(v, sentinel), s2, node):
                        res.extend([('stop', None, s3)] if b else body(v, s3))
                return res
            wit = mk('while', self.site(node).func, getattr(node, 'lineno', 0))
            loop = self.unrolled_while if self.unroll else self.abstract_loop
            return loop(wit, None, bodyw, st, node, is_while=True)
        elif it.op == 'call' and it.a[0] == 'builtins.range' and all(is_const(x) for x in it.a[1]):
            r = range(*[cval(x) for x in it.a[1]])
            if len(r) <= 8:
                ents = [('item', const(x)) for x in r]
        elif it.op == 'call' and it.a[0] == 'builtins.map' and len(it.a[1]) == 2:
            fn = it.a[1][0]

            def body4(v, s):
                res = []
                for r, s2 in self.call(fn, [v], [], s, node):
                    res.extend(body(r, s2))
                return res
            return self.iterate(it.a[1][1], st, body4, node)
        elif it.op == 'call' and it.a[0] == 'itertools.takewhile' and len(it.a[1]) == 2:
            fn = it.a[1][0]

            def body6(v, s):
                return [o for r, s2 in self.call(fn, [v], [], s, node) for b, s3 in self.branch(r, s2, node)
                        for o in (body(v, s3) if b else [('@taken', None, s3)])]
            return [('exhausted', None, o[2]) if o[0] == '@taken' else o for o in self.iterate(it.a[1][1], st, body6, node)]
        elif it.op == 'call' and it.a[0] in ('builtins.filter', 'itertools.filterfalse') and len(it.a[1]) == 2:
            fn = it.a[1][0]
            keep = it.a[0] == 'builtins.filter'

            def body5(v, s):
                res = []
                outs = [(v, s)] if fn is NONE else self.call(fn, [v], [], s, node)
                for r, s2 in outs:
                    for b, s3 in self.branch(r, s2, node):
                        res.extend(body(v, s3) if b == keep else [('next', None, s3)])
                return res
            return self.iterate(it.a[1][1], st, body5, node)
        if ents is not None:
            live = [st]
            done = []
            for e in ents:
                nxt = []
                for s in live:
                    if e[0] == 'item':
                        outs = body(e[1], s)
                    elif e[0] == 'comp':
                        outs = self.iterate_comp(e[1], e[2], s, body, node)
                    elif e[0] == 'all':
                        outs = self.iterate(e[1], s, body, node)
                    elif e[0] == 'loopall':
                        outs = self.loop_over(e[1], s, body, node)
                    else:
                        outs = self.loop_over(self.snap(it, s), s, body, node)
                    for o in outs:
                        if o[0] in ('next', 'continue', 'exhausted'):
                            nxt.append(o[2])
                        else:
                            done.append(o)
                live = nxt
                if not live:
                    break
            return [('exhausted', None, s) for s in live] + done
        return self.loop_over(self.snap(it, st), st, body, node)

    def iterate_list(self, it, st, body):
        """Over a known list, which the body may change."""
        live, done, i = [st], [], 0
        while live:
            nxt = []
            for s in live:
                data = s.heap[it.a[0]].data
                if i >= len(data):
                    done.append(('exhausted', None, s))
                    continue
                if data[i][0] != 'item' or i > 100:
                    raise Inconclusive('list changed by the loop')
                for o in body(data[i][1], s):
                    if o[0] in ('next', 'continue', 'exhausted'):
                        nxt.append(o[2])
                    else:
                        done.append(o)
            live = nxt
            i += 1
        return done

    def _flat(self, v, s, body, node):
        outs = self.iterate(v, s, body, node)
        return [(('next', None, x[2]) if x[0] == 'exhausted' else x) for x in outs]

    def finite_list(self, t, st):
        t = self.strip_iter(t, st)
        if t.op == 'tuple':
            return list(t.a)
        h = self.hobj(t, st)
        if h is not None and h.kind in ('list',) and not h.grown and all(e[0] == 'item' for e in h.data):
            return [e[1] for e in h.data]
        return None

    def iterate_comp(self, ctx, value, st, body, node):
        """Iterate over the values a comprehension produced: the loops of the
        comprehension are re-entered (loop fusion)."""
        if not ctx:
            if value.op == 'star':
                return self._flat(value.a[0], st, body, node)
            return body(value, st)
        c = ctx[0]
        it, el, lits = c.a

        def inner(s):
            for l in lits:
                if not self.assume(s, l.a[0], cval(l.a[1]), node):
                    return [('next', None, s)]
            res = []
            for o in self.iterate_comp(ctx[1:], value, s, body, node):
                res.append(o if o[0] != 'exhausted' else ('next', None, o[2]))
            return res
        return self.abstract_loop(it, el, inner, st, node)

    def elem_of(self, it, st):
        k = sum(1 for l in st.loops if l[0] is it)
        el = mk('elem', it, k)
        if it in self.elem_types:
            self.types[el] = self.elem_types[it]
        if it.op == 'mcall' and it.a[1] == 'items' and not it.a[2]:
            ke = mk('elem', it.a[0], k)
            el2 = mk('tuple', ke, mk('idx', it.a[0], ke))
            return el, el2
        if it.op == 'mcall' and it.a[1] == 'values' and not it.a[2]:
            ke = mk('elem', it.a[0], k)
            v = mk('idx', it.a[0], ke)
            return ke, v
        if it.op == 'call' and it.a[0] == 'os.walk':
            return el, mk('tuple', mk('idx', el, const(0)), mk('idx', el, const(1)), mk('idx', el, const(2)))
        return el, el

    def loop_over(self, it, st, body, node):
        el, val = self.elem_of(it, st)
        return self.abstract_loop(it, el, lambda s: body(val, s), st, node)

    def abstract_loop(self, it, el, body, st, node, is_while=False):
        """One abstract iteration, widened to any number."""
        fp = st.fp
        nloops = len(st.loops)
        base = st
        widened_vars = set()
        widened_objs = {}
        gen_marks = [(lst, len(lst)) for lst in self.gen_exits]
        for attempt in range(4):
            s = base.fork()
            for lst, k in gen_marks:
                del lst[k:]
            loopid = (it, nloops)
            for (fid, name) in widened_vars:
                if fid in s.frames and name in s.frames[fid]:
                    s.wframe(fid)[name] = mk('lv', it, name, self._lvkey(base.frames[fid].get(name)))
            for (oid, what) in widened_objs:
                h = s.heap[oid]
                if what is None:
                    s.heap[oid] = h.with_data(h.data, grown=True)
                else:
                    d = dict(h.data)
                    d[what] = mk('lv', it, '.' + what, self._lvkey(dict(base.heap[oid].data).get(what)))
                    s.heap[oid] = h.with_data(d)
            start_trace = s.trace
            s.loops = s.loops + ((it, el, dict(s.lits)),)
            self.sinks.append([])
            try:
                outs = body(s)
            finally:
                raised = self.sinks.pop()
            # what did the iterations that may be followed by another one change?
            changed_vars, changed_objs = set(), set()
            for kind, val, s2 in outs:
                if kind not in ('next', 'continue', 'exhausted'):
                    continue
                for fid, fr in base.frames.items():
                    fr2 = s2.frames.get(fid)
                    if fr2 is None or fr2 is fr:
                        continue
                    ref = fr
                    for name, v2 in fr2.items():
                        if name.startswith('%'):
                            continue
                        v0 = ref.get(name)
                        cur = mk('lv', it, name, self._lvkey(v0)) if (fid, name) in widened_vars else v0
                        if v0 is not None and v2 is not cur and v2 is not v0:
                            changed_vars.add((fid, name))
                for oid, h in base.heap.items():
                    h2 = s2.heap.get(oid)
                    if h2 is None or h2 is h:
                        continue
                    if h.kind == 'inst' and h2.kind == 'inst':
                        for name, v2 in h2.data.items():
                            v0 = h.data.get(name)
                            cur = mk('lv', it, '.' + name, self._lvkey(v0)) if (oid, name) in widened_objs else v0
                            if v0 is not None and v2 is not cur and v2 is not v0:
                                changed_objs.add((oid, name))
                    elif h.kind in ('list', 'set', 'dict'):
                        if h2.data != h.data:
                            changed_objs.add((oid, None))
            new_vars = changed_vars - widened_vars
            new_objs = {o for o in changed_objs if o not in widened_objs}
            if not new_vars and not new_objs:
                break
            widened_vars |= new_vars
            for o in new_objs:
                widened_objs[o] = True
        # assemble
        iters = []
        again = []
        exits = []
        for kind, val, s2 in outs:
            sub = trace_list(s2.trace, start_trace)
            if kind in ('next', 'continue', 'exhausted'):
                p = Path('next', None, s2, sub)
                iters.append(p)
                again.append(s2)
            else:
                exits.append((kind, val, s2, sub))
        loop_ev = Ev('loop', it, site=self.site(node), x=iters, res=el)
        res = []
        # normal exhaustion (zero or more iterations)
        if not is_while:
            ex = base.fork()
            self._after_loop(ex, base, again, widened_vars, widened_objs, it)
            # what holds after every completed iteration holds for every element
            if again and not any(x.op == 'obj' for x in walk(it)):
                for l, v in again[0].lits.items():
                    if l not in ex.lits and contains(l, el) and not depends_on_fs(l) \
                            and not any(x.op in ('lv', 'obj', 'phi') for x in walk(l)) \
                            and all(s2.lits.get(l) is v for s2 in again):
                        ex.lits[l] = v
            if self.faults is not None:
                for s2 in again:
                    for l in s2.lits:
                        if l.op == 'succeeded':
                            ex.lits[l] = True
            ex.emit(loop_ev)
            res.append(('exhausted', None, ex))
        exits_raise = [('raise', exc, s2, trace_list(s2.trace, start_trace)) for exc, s2 in raised]
        gen_outs = [(o[0], o[1], o[2], trace_list(o[2].trace, start_trace))
                    for lst, k in gen_marks for o in lst[k:]]
        for kind, val, s2, sub in gen_outs:
            s2.loops = base.loops
            s2.trace = base.trace
            s2.emit(loop_ev)
            s2.emit(Ev('iter', it, site=self.site(node), res=el))
            for e in sub:
                s2.emit(e)
            for (oid, what) in widened_objs:
                if what is None:
                    self._merge_container(s2, oid, base, again)
        for kind, val, s2, sub in exits + exits_raise:
            s2.loops = base.loops
            s2.trace = base.trace
            s2.emit(loop_ev)
            s2.emit(Ev('iter' if kind != 'stop' else 'loopend', it, site=self.site(node), res=el))
            for e in sub:
                s2.emit(e)
            s2.fp = fp
            # containers grown in earlier iterations
            for (oid, what) in widened_objs:
                if what is None:
                    self._merge_container(s2, oid, base, again)
            if kind == 'raise':
                self.sinks[-1].append((val, s2))
            elif kind == 'stop':
                res.append(('exhausted', None, s2))
            else:
                res.append((kind, val, s2))
        return res

    def _lvkey(self, v0):
        return v0 if v0 is not None else const(None)

    def _merge_container(self, s, oid, base, again):
        h0 = s.heap[oid]
        data = list(h0.data)
        for s2 in again:
            h2 = s2.heap.get(oid)
            if h2 is None:
                continue
            for e in h2.data:
                if e not in data:
                    data.append(e)
        s.heap[oid] = h0.with_data(tuple(data), grown=base.heap[oid].grown if oid in base.heap else False)

    def _after_loop(self, ex, base, again, wvars, wobjs, it):
        for (fid, name) in wvars:
            if fid in ex.frames:
                vals = []
                for s2 in again:
                    v = s2.frames.get(fid, {}).get(name)
                    if v is not None and v not in vals:
                        vals.append(self.snap(v, s2))
                init = self.snap(base.frames[fid][name], base) if name in base.frames[fid] else NONE
                ex.wframe(fid)[name] = mk('phi', it, name, init, tuple(vals))
        # variables first assigned inside the loop
        for s2 in again[:1]:
            for fid, fr in base.frames.items():
                fr2 = s2.frames.get(fid)
                if fr2 is None or fr2 is fr:
                    continue
                for name, v in fr2.items():
                    if name not in fr and not name.startswith('%'):
                        ex.wframe(fid)[name] = mk('phi', it, name, const(None), (self.snap(v, s2),))
        for s2 in again:
            for k, v in s2.heap.items():
                if k not in ex.heap:
                    ex.heap[k] = v
            for k, v in s2.overlay.items():
                if k not in ex.overlay:
                    pass
        if again:
            ex.nid = max(ex.nid, max(s2.nid for s2 in again))
        for (oid, what) in wobjs:
            if what is None:
                self._merge_container(ex, oid, base, again)
            else:
                h = ex.heap[oid]
                d = dict(h.data)
                vals = []
                for s2 in again:
                    v = s2.heap[oid].data.get(what)
                    if v is not None and v not in vals:
                        vals.append(self.snap(v, s2))
                d[what] = mk('phi', it, '.' + what, self.snap(d[what], base), tuple(vals))
                ex.heap[oid] = h.with_data(d)

    # ---- generators
    gen_exits = ()

    def iterate_gen(self, h, st, body, node):
        fp = st.fp
        results = []
        outer_stack, outer_ycb = self.stack, self.ycb
        early = []

        def cb(val, s):
            gen_fp = s.fp
            istack, iycb = self.stack, self.ycb
            self.stack, self.ycb = outer_stack, outer_ycb
            self.sinks.append([])
            s.fp = fp
            res = []
            try:
                for o in body(val, s):
                    if o[0] in ('next', 'continue', 'exhausted'):
                        o[2].fp = gen_fp
                        res.append((NONE, o[2]))
                    else:
                        early.append(o)
            finally:
                self.stack, self.ycb = istack, iycb
                # exceptions of the consumer do not enter the generator
                early.extend(('raise', exc, s2) for exc, s2 in self.sinks.pop())
            return res

        saved = self.gen_exits
        self.gen_exits = saved + (early,)
        try:
            outs = self.run_gen(h.data, cb, st, node)
        finally:
            self.gen_exits = saved
        for kind, val, s in outs:
            s.fp = fp
            results.append(('exhausted', None, s))
        for kind, val, s in early:
            s.fp = fp
            if kind == 'raise':
                self.sinks[-1].append((val, s))
            else:
                results.append((kind, val, s))
        return results

    def run_gen(self, data, cb, st, node):
        """data: ('func', fterm, frame) | ('comp', node, frame)"""
        kind = data[0]
        if not isinstance(kind, T):
            raise Inconclusive('generator')
        if kind.op == 'genexp':
            gnode, frame = data[1], data[2]
            saved = st.fp
            st.fp = frame
            res = []

            def rec(i, s):
                if i == len(gnode.generators):
                    out = []
                    for v, s2 in self.ev(gnode.elt, s):
                        out.extend(('next', None, s3) for _, s3 in cb(v, s2))
                    return out
                g = gnode.generators[i]
                out = []
                first = data[3] if i == 0 else None
                its = [(first, s)] if first is not None else self.ev(g.iter, s)
                for it, s2 in its:
                    def body(v, s3):
                        o2 = []
                        for s4 in self.assign(g.target, v, s3):
                            o2.extend(self.comp_ifs(g.ifs, s4, lambda s5: rec(i + 1, s5)))
                        return o2
                    for o in self.iterate(it, s2, body, gnode):
                        out.append(('next', None, o[2]) if o[0] == 'exhausted' else o)
                return out
            self.ycb = self.ycb + [None]
            try:
                res = rec(0, st)
            finally:
                self.ycb = self.ycb[:-1]
            for o in res:
                o[2].fp = saved
            return res
        fi = self.funcs[data[1].a[0]]
        if len(self.stack) > self.max_depth:
            raise Inconclusive('depth')
        saved_fp = st.fp
        st.fp = data[2]
        self.stack = self.stack + [(fi.display, fi.file, 0)]
        self.ycb = self.ycb + [cb]
        try:
            outs = self.exec_block(fi.node.body, st)
        finally:
            self.stack = self.stack[:-1]
            self.ycb = self.ycb[:-1]
        res = []
        for kind, val, s in outs:
            s.fp = saved_fp
            res.append(('next', val, s))
        return res

    def comp_ifs(self, ifs, st, k):
        if not ifs:
            return k(st)
        out = []
        for b, s in self.cond(ifs[0], st):
            if b:
                out.extend(self.comp_ifs(ifs[1:], s, k))
            else:
                out.append(('next', None, s))
        return out

    # ================================================================ conditions
    def cond(self, n, st):
        """-> list of (bool, state)"""
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(not b, s) for b, s in self.cond(n.operand, st)]
        if isinstance(n, ast.BoolOp):
            isand = isinstance(n.op, ast.And)
            live = [st]
            out = []
            for i, v in enumerate(n.values):
                nxt = []
                for s in live:
                    for b, s2 in self.cond(v, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((b, s2))
                live = nxt
            return out + [(isand, s) for s in live]
        out = []
        for v, s in self.ev(n, st):
            out.extend(self.branch_value(v, s, n))
        return out

    def branch_value(self, v, s, n):
        if v.op == 'bool':
            return self.branch_value(v.a[0], s, n)
        return self.branch(v, s, n)

    # ================================================================ expressions
    def ev(self, n, st):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Inconclusive('expression ' + type(n).__name__)
        return m(n, st)

    def ev_list(self, nodes, st):
        """Evaluate left to right -> list of (values, state)"""
        acc = [([], st)]
        for n in nodes:
            nxt = []
            for vals, s in acc:
                if isinstance(n, ast.Starred):
                    for v, s2 in self.ev(n.value, s):
                        nxt.append((vals + [mk('star', v)], s2))
                else:
                    for v, s2 in self.ev(n, s):
                        nxt.append((vals + [v], s2))
            acc = nxt
        return acc

    def e_Constant(self, n, st):
        return [(const(n.value), st)]

    def e_Name(self, n, st):
        v = self.load_name(n.id, st, n)
        if v is None:
            # unbound on this path
            s = st
            self.raise_(mk('exc', 'NameError', n.id), s, n)
            return []
        return [(v, st)]

    def e_NamedExpr(self, n, st):
        out = []
        for v, s in self.ev(n.value, st):
            for s2 in self.assign(n.target, v, s):
                out.append((v, s2))
        return out

    def e_Tuple(self, n, st):
        out = []
        for vals, s in self.ev_list(n.elts, st):
            if any(v.op == 'star' for v in vals):
                c = self.new_container('list', [], s)
                for v in vals:
                    if v.op == 'star':
                        self.extend_container(c, v.a[0], s)
                    else:
                        self.add_entry(c, ('item', v), s)
                h = s.heap[c.a[0]]
                if all(e[0] == 'item' for e in h.data):
                    out.append((mk('tuple', *[e[1] for e in h.data]), s))
                else:
                    out.append((c, s))
            else:
                out.append((mk('tuple', *vals), s))
        return out

    def e_List(self, n, st, kind='list'):
        out = []
        for vals, s in self.ev_list(n.elts, st):
            c = self.new_container(kind, [], s)
            for v in vals:
                if v.op == 'star':
                    self.extend_container(c, v.a[0], s)
                else:
                    self.add_entry(c, ('item', v), s)
            out.append((c, s))
        return out

    def e_Set(self, n, st):
        return self.e_List(n, st, 'set')

    def e_Dict(self, n, st):
        acc = [([], st)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for ents, s in acc:
                if k is None:
                    for vv, s2 in self.ev(v, s):
                        nxt.append((ents + [('all', vv)], s2))
                else:
                    for kk, s2 in self.ev(k, s):
                        for vv, s3 in self.ev(v, s2):
                            nxt.append((ents + [('kv', kk, vv)], s3))
            acc = nxt
        out = []
        for ents, s in acc:
            c = self.new_container('dict', [], s)
            for e in ents:
                if e[0] == 'all':
                    self.extend_container(c, e[1], s)
                else:
                    self.add_entry(c, e, s)
            out.append((c, s))
        return out

    def e_Lambda(self, n, st):
        t, s = self.make_func(n, st)
        return [(t, s)]

    def e_IfExp(self, n, st):
        out = []
        for b, s in self.cond(n.test, st):
            out.extend(self.ev(n.body if b else n.orelse, s))
        return out

    def e_BoolOp(self, n, st):
        isand = isinstance(n.op, ast.And)
        live = [st]
        out = []
        for i, v in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in live:
                for val, s2 in self.ev(v, s):
                    if last:
                        out.append((val, s2))
                        continue
                    for b, s3 in self.branch_value(val, s2, v):
                        if b == isand:
                            nxt.append(s3)
                        else:
                            # the deciding value; booleans become constants
                            if val.op in ('cmp', 'not') or self.is_boolish(val):
                                val2 = const(b)
                            else:
                                val2 = val
                            out.append((val2, s3))
            live = nxt
        return out

    def is_boolish(self, t):
        if t.op == 'mcall' and t.a[1] in ('startswith', 'endswith', 'exists', 'is_dir', 'is_file', 'is_symlink'):
            return True
        if t.op == 'call' and (t.a[0].startswith('os.path.is') or t.a[0] in (
                'os.path.exists', 'builtins.isinstance', 'builtins.hasattr')):
            return True
        return t.op in ('cmp', 'not') or (is_const(t) and isinstance(cval(t), bool))

    def e_UnaryOp(self, n, st):
        out = []
        for v, s in self.ev(n.operand, st):
            if isinstance(n.op, ast.Not):
                r = self.truth(v, s)
                if r is not None:
                    out.append((const(not r), s))
                else:
                    out.append((v.a[0] if v.op == 'not' and self.is_boolish(v.a[0]) else mk('not', v), s))
            elif isinstance(n.op, ast.USub) and is_const(v) and isinstance(cval(v), (int, float)):
                out.append((const(-cval(v)), s))
            elif isinstance(n.op, ast.Invert) and is_const(v) and type(cval(v)) is int:
                out.append((const(~cval(v)), s))
            else:
                out.append((mk('un', type(n.op).__name__, v), s))
        return out

    def e_BinOp(self, n, st):
        out = []
        for a, s in self.ev(n.left, st):
            for b, s2 in self.ev(n.right, s):
                out.extend(self.binop(n.op, a, b, s2, n))
        return out

    def finite_set(self, t, st):
        """Elements of a set-like value with known elements, or None."""
        t0 = t
        t = self.strip_iter(t, st)
        if t0.op == 'mcall' and t0.a[1] in ('items', 'values'):
            return None
        h = self.hobj(t, st)
        kind = h.kind if h is not None else t.op
        if kind == 'dict' and t is t0:
            return None          # not a set, although its keys are
        if kind in ('set', 'dict') or is_const(t) and isinstance(cval(t), frozenset):
            return self.finite_items(t, st)
        return None

    def member(self, x, items, st):
        """Is x one of items? True / False / None"""
        undecided = False
        for i in items:
            r = self.same_key(x, i, st)
            if r is None:
                r = st.lits.get(self.eq_term(x, i))
            if r:
                return True
            if r is None:
                undecided = True
        return None if undecided else False

    def set_algebra(self, o, xs, ys, st):
        """-> list of elements, bool for comparisons, None if undecided"""
        inx = [self.member(x, ys, st) for x in xs]
        if o == '|':
            iny = [self.member(y, xs, st) for y in ys]
            return None if None in iny else xs + [y for y, m in zip(ys, iny) if not m]
        if o in ('-', '&'):
            if None in inx:
                return None
            return [x for x, m in zip(xs, inx) if m == (o == '&')]
        iny = [self.member(y, xs, st) for y in ys]
        if o == '^':
            if None in inx or None in iny:
                return None
            return [x for x, m in zip(xs, inx) if not m] + [y for y, m in zip(ys, iny) if not m]
        sub = False if False in inx else None if None in inx else True
        sup = False if False in iny else None if None in iny else True
        if o == '<=':
            return sub
        if o == '>=':
            return sup
        if o == 'isdisjoint':
            return False if True in inx else None if None in inx else True
        if False in (sub, sup):
            return {'==': False, '<': False if sub is False else (True if sub else None),
                    '>': False if sup is False else (True if sup else None)}[o]
        if None in (sub, sup):
            return None
        return o == '=='

    def split_set(self, o, xs, other, st, node):
        """Difference or intersection with undecided membership: one path per answer."""
        live = [((), st)]
        for x in xs:
            nxt = []
            for got, s in live:
                for isin, s2 in self.branch(mk('cmp', 'in', x, other), s, node):
                    nxt.append((got + ((x,) if isin == (o == '&') else ()), s2))
            live = nxt
        return [(self.new_container('set', [('item', x) for x in got], s), s) for got, s in live]

    def binop(self, op, a, b, st, node):
        o = _OPS[type(op)]
        if o in '-&^|':
            xs = self.finite_set(a, st)
            ys = self.finite_set(b, st) if xs is not None else None
            if ys is not None:
                r = self.set_algebra(o, xs, ys, st)
                if r is not None:
                    return [(self.new_container('set', [('item', x) for x in r], st), st)]
                if o in '-&':
                    return self.split_set(o, xs, self.snap(b, st), st, node)
        if is_const(a) and is_const(b) and not (o == '%' and isinstance(cval(a), str)):
            x, y = cval(a), cval(b)
            try:
                if o == '+':
                    return [(const(x + y), st)]
                if o == '-':
                    return [(const(x - y), st)]
                if o == '*' and not isinstance(x, (str, bytes)) or o == '*' and isinstance(y, int) and y < 200:
                    return [(const(x * y), st)]
                if o == '**' and abs(y) < 10:
                    return [(const(x ** y), st)]
                if o == '/' and isinstance(x, (int, float)) and isinstance(y, (int, float)):
                    return [(const(x / y), st)]
                if o == '//':
                    return [(const(x // y), st)]
                if o in ('|', '&') and isinstance(x, int):
                    return [(const(x | y if o == '|' else x & y), st)]
            except Exception:
                pass
        ha, hb = self.hobj(a, st), self.hobj(b, st)
        if o == '+' and (ha is not None and ha.kind == 'list' or hb is not None and hb.kind == 'list'):
            c = self.new_container('list', [], st)
            self.extend_container(c, a, st)
            self.extend_container(c, b, st)
            return [(c, st)]
        if o == '|' and (ha is not None and ha.kind in ('set', 'dict')):
            c = self.new_container(ha.kind, [], st)
            self.extend_container(c, a, st)
            self.extend_container(c, b, st)
            return [(c, st)]
        if o == '+' and a.op == 'tuple' and b.op == 'tuple':
            return [(mk('tuple', *(a.a + b.a)), st)]
        if o == '+' and (a.op == 'tuple' and not a.a):
            return [(b, st)]
        if o == '+' and self.strish(a, st) or o == '+' and self.strish(b, st):
            return [(cat([a, b]), st)]
        if o == '/' and not (self.numish(a) or self.numish(b)):
            return [(path([a, b]), st)]
        if o == '%' and (is_const(a) and isinstance(cval(a), str)):
            r = self.percent(cval(a), b, st)
            if r is not None:
                return [(r, st)]
        for q in (a, b):
            h = self.hobj(q, st)
            if h is not None and h.kind == 'inst':
                meth = {'+': '__add__', '-': '__sub__', '/': '__truediv__', '|': '__or__'}.get(o)
                k, m = self.class_lookup(h.cls, meth) if meth else (None, None)
                if m is not None and q is a:
                    return self.call_func(m, a, [b], [], st, node)
        return [(mk('bin', o, self.snap(a, st), self.snap(b, st)), st)]

    def strish(self, t, st):
        return (is_const(t) and isinstance(cval(t), str)) or t.op == 'cat' or (
            t.op == 'mcall' and t.a[1] in ('join', 'replace', 'strip', 'format')) or (
            t.op == 'call' and t.a[0] in ('builtins.str', 'builtins.repr', 'html.escape', 'glob.escape'))

    def numish(self, t):
        return is_const(t) and isinstance(cval(t), (int, float)) or (
            t.op == 'bin' and t.a[0] in '*-') or (t.op == 'call' and t.a[0] in ('builtins.int', 'builtins.len', 'builtins.float'))

    def percent(self, fmt, b, st):
        import re
        parts = re.split(r'(%[sdr])', fmt)
        if '%' in ''.join(p for p in parts if not re.match(r'%[sdr]$', p)):
            return None
        args = list(b.a) if b.op == 'tuple' else [b]
        out = []
        for p in parts:
            if p in ('%s', '%d'):
                if not args:
                    return None
                out.append(self.to_str(args.pop(0), st))
            elif p == '%r':
                out.append(mk('call', 'builtins.repr', (self.snap(args.pop(0), st),), ()))
            else:
                out.append(const(p))
        return cat(out)

    def to_str(self, t, st):
        t = self.snap(t, st)
        if is_const(t) and not isinstance(cval(t), str):
            return const(str(cval(t)))
        return t.a[0] if t.op == '@rel' else t

    def e_JoinedStr(self, n, st):
        acc = [([], st)]
        for v in n.values:
            nxt = []
            for parts, s in acc:
                if isinstance(v, ast.Constant):
                    nxt.append((parts + [const(v.value)], s))
                else:
                    for x, s2 in self.ev(v.value, s):
                        if v.conversion == 114:
                            p = mk('call', 'builtins.repr', (self.snap(x, s2),), ())
                        elif v.format_spec is not None:
                            spec = v.format_spec
                            spec = [q.value for q in spec.values if isinstance(q, ast.Constant)] if isinstance(spec, ast.JoinedStr) and \
                                all(isinstance(q, ast.Constant) for q in spec.values) else None
                            p = mk('call', 'builtins.format', (self.snap(x, s2),) + ((const(''.join(spec)),) if spec else ()), ())
                        else:
                            p = self.str_of(x, s2, n)
                        nxt.append((parts + [p], s2))
            acc = nxt
        return [(cat(p), s) for p, s in acc]

    def str_of(self, x, s, n):
        h = self.hobj(x, s)
        if h is not None and h.kind == 'inst':
            return mk('strof', x)
        return self.to_str(x, s)

    def e_Compare(self, n, st):
        out = []
        items = [n.left] + n.comparators
        for vals, s in self.ev_list(items, st):
            if len(n.ops) == 1:
                out.extend(self.cmp_value(n.ops[0], vals[0], vals[1], s, n))
            else:
                live = [s]
                for i, op in enumerate(n.ops):
                    nxt = []
                    for s1 in live:
                        for v, s2 in self.cmp_value(op, vals[i], vals[i + 1], s1, n):
                            if i == len(n.ops) - 1:
                                out.append((v, s2))
                            else:
                                for b, s3 in self.branch_value(v, s2, n):
                                    if b:
                                        nxt.append(s3)
                                    else:
                                        out.append((FALSE, s3))
                    live = nxt
        return out

    def cmp_value(self, op, a, b, st, n):
        # membership in dict views / heap containers
        if isinstance(op, (ast.In, ast.NotIn)):
            b = self.strip_iter(b, st)
            neg = isinstance(op, ast.NotIn)
            h = self.hobj(b, st)
            if h is not None and h.kind == 'inst':
                k, m = self.class_lookup(h.cls, '__contains__')
                if m is not None:
                    return [(mk('not', v) if neg else v, s) for v, s in self.call_func(m, b, [a], [], st, n)]
            if h is not None and h.kind in ('list', 'set', 'dict'):
                if not h.data and not h.grown:
                    return [(const(neg), st)]
                r = self.compare_static('in', a, b, st)
                if r is not None:
                    return [(const(r != neg), st)]
        elif type(op) in _SETCMP:
            xs = self.finite_set(a, st)
            ys = self.finite_set(b, st) if xs is not None else None
            if ys is not None:
                r = self.set_algebra('==' if isinstance(op, ast.NotEq) else _SETCMP[type(op)], xs, ys, st)
                if r is not None:
                    return [(const(r != isinstance(op, ast.NotEq)), st)]
        t, neg = self.cmp_term(op, self.snap_cmp(a, st), self.snap_cmp(b, st), st)
        r = self.truth(t, st)
        if r is not None:
            return [(const(r != neg), st)]
        if isinstance(op, (ast.Eq, ast.NotEq)):
            xs, ys = self.components(a, st), self.components(b, st)
            if xs is not None and ys is not None and len(xs) <= 6:
                if len(xs) != len(ys):
                    return [(const(neg), st)]
                # equal exactly when all components are
                live, out = [st], []
                for x, y in zip(xs, ys):
                    nxt = []
                    for s in live:
                        for same, s2 in self.branch(self.eq_term(self.snap_cmp(x, s), self.snap_cmp(y, s)), s, n):
                            if same:
                                nxt.append(s2)
                            else:
                                out.append((const(neg), s2))
                    live = nxt
                return out + [(const(not neg), s) for s in live]
        return [(mk('not', t) if neg else t, st)]

    def components(self, t, st):
        """elements of a tuple or list of known length"""
        if t.op == 'tuple':
            return list(t.a) if not any(x.op == 'star' for x in t.a) else None
        h = self.hobj(t, st)
        if h is not None and h.kind == 'list' and not h.grown and all(e[0] == 'item' for e in h.data):
            return [e[1] for e in h.data]
        return None

    def snap_cmp(self, t, st):
        h = self.hobj(t, st)
        if h is not None and h.kind in ('list', 'set', 'dict'):
            if not h.data and not h.grown:
                return t
            return self.snap(t, st)
        if t.op == 'tuple':
            return self.snap(t, st)
        return t

    def e_Attribute(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            out.extend(self.get_attr(b, n.attr, s, n))
        return out

    def e_Subscript(self, n, st):
        out = []
        for b, s in self.ev(n.value, st):
            if isinstance(n.slice, ast.Slice):
                parts = [n.slice.lower, n.slice.upper, n.slice.step]
                nodes = [p if p is not None else ast.Constant(None) for p in parts]
                for vals, s2 in self.ev_list(nodes, s):
                    out.append((self.slice(b, vals, s2), s2))
            else:
                for k, s2 in self.ev(n.slice, s):
                    out.extend(self.subscript(b, k, s2, n))
        return out

    def slice(self, b, vals, st):
        if is_const(b) and all(is_const(v) for v in vals) and isinstance(cval(b), (str, tuple, bytes)):
            return const(cval(b)[slice(*[cval(v) for v in vals])])
        if b.op == 'tuple' and all(is_const(v) for v in vals):
            return mk('tuple', *b.a[slice(*[cval(v) for v in vals])])
        items = self.finite_list(b, st) if self.hobj(b, st) is not None else None
        if items is not None and all(is_const(v) for v in vals):
            return self.new_container('list', [('item', x) for x in items[slice(*[cval(v) for v in vals])]], st)
        h = self.hobj(b, st)
        if h is not None and h.kind == 'list' and all(is_const(v) and cval(v) is None for v in vals[:2]):
            # full copy / reversal
            oid = st.fresh()
            st.heap[oid] = HObj('list', data=h.data, mark=st.trace, loops=len(st.loops), grown=h.grown)
            if is_const(vals[2]) and cval(vals[2]) == -1 and all(e[0] == 'item' for e in h.data):
                st.heap[oid] = st.heap[oid].with_data(tuple(reversed(h.data)))
            return mk('obj', oid)
        return mk('slice', self.snap(b, st), *[self.snap(v, st) for v in vals])

    def subscript(self, b, k, st, node):
        key = mk('idx', b, k)
        if key in st.overlay:
            return [(st.overlay[key], st)]
        if b.op == 'tuple' and is_const(k) and isinstance(cval(k), int):
            try:
                return [(b.a[cval(k)], st)]
            except IndexError:
                self.raise_(mk('exc', 'IndexError', ''), st, node)
                return []
        if b.op == 'cls':
            c = self.classes[b.a[0]]
            if c.is_enum and is_const(k) and k.a[1] in c.attrs:
                return [(c.attrs[cval(k)], st)]
            if c.is_enum:
                self.may_raise(('KeyError',), st, node, key)
                return [(mk('idx', b, k), st)]
            return [(b, st)]       # generic alias
        if b.op == 'ext':
            return [(b, st)]
        if is_const(b) and is_const(k):
            try:
                return [(const(cval(b)[cval(k)]), st)]
            except Exception:
                self.raise_(mk('exc', 'IndexError', ''), st, node)
                return []
        h = self.hobj(b, st)
        ents = None
        if h is not None and h.kind == 'dict':
            ents = h.data if not h.grown else None
            isd = True
        elif b.op == 'dict':
            ents = tuple(self._ent_from_term(e) for e in b.a)
        if ents is not None:
            decided = True
            for e in reversed(ents):
                if e[0] == 'kv':
                    r = self.same_key(e[1], k, st)
                    if r is True:
                        return [(e[2], st)]
                    if r is None:
                        decided = False
                else:
                    decided = False
            if h is not None and h.kind == 'dict' and (h.cls or '').startswith('defaultdict') and decided:
                return self.default_factory(b, h, k, st, node)
            if decided:
                self.raise_(mk('exc', 'KeyError', key), st, node)
                return []
            if (len(ents) <= 6 and all(x[0] == 'kv' for x in ents) and not (h is not None and (h.cls or '').startswith('defaultdict'))
                    and any(getattr(self.hobj(x[2], st), 'kind', None) == 'inst' for x in ents)):
                return self.which(b, k, ents, st, node, key)
        if h is not None and h.kind == 'dict' and (h.cls or '').startswith('defaultdict'):
            return self.default_factory(b, h, k, st, node)
        if h is not None and h.kind == 'list' and is_const(k) and isinstance(cval(k), int) and not h.grown and all(
                e[0] == 'item' for e in h.data):
            try:
                return [(h.data[cval(k)][1], st)]
            except IndexError:
                self.raise_(mk('exc', 'IndexError', ''), st, node)
                return []
        if h is not None and h.kind == 'inst':
            kk, m = self.class_lookup(h.cls, '__getitem__')
            if m is not None:
                return self.call_func(m, b, [k], [], st, node)
        sb = self.snap(b, st)
        t = mk('idx', sb, self.snap(k, st))
        self.may_raise(('KeyError',) if not (is_const(k) and isinstance(cval(k), int)) else ('IndexError',),
                       st, node, t)
        return [(t, st)]

    def which(self, b, k, ents, st, node, key):
        """element of a dictionary of objects: one path for each"""
        out = []
        known = self.truth(mk('cmp', 'in', self.snap_cmp(k, st), self.snap_cmp(b, st)), st)
        kk = self.snap_cmp(k, st)
        for i, x in enumerate(reversed(ents)):
            if i == len(ents) - 1 and known is True:
                self.assume(st, self.eq_term(kk, self.snap_cmp(x[1], st)), True, node)
                return out + [(x[2], st)]
            rest = None
            for same, s in self.branch(self.eq_term(kk, self.snap_cmp(x[1], st)), st, node):
                if same:
                    out.append((x[2], s))
                else:
                    rest = s
            if rest is None:
                return out
            st = rest
        self.raise_(mk('exc', 'KeyError', key), st, node)
        return out

    def default_factory(self, b, h, k, st, node):
        if self.unroll and h.cls.partition(':')[2] in ('list', 'set', 'dict') and not h.grown:
            c = self.new_container(h.cls.partition(':')[2], [], st)
            self.add_entry(b, ('kv', k, c), st)
            return [(c, st)]
        t = mk('idx', b, self.snap(k, st))
        if t in st.overlay:
            return [(st.overlay[t], st)]
        c = self.new_container('list', [], st)
        st.heap[c.a[0]].grown = True
        st.overlay[t] = c
        return [(c, st)]

    def e_Starred(self, n, st):
        return [(mk('star', v), s) for v, s in self.ev(n.value, st)]

    def e_Slice(self, n, st):
        raise Inconclusive('slice')

    def e_ListComp(self, n, st):
        return self.comp(n, st, 'list')

    def e_SetComp(self, n, st):
        return self.comp(n, st, 'set')

    def e_DictComp(self, n, st):
        return self.comp(n, st, 'dict')

    def comp(self, n, st, kind):
        c = self.new_container(kind, [], st)
        saved = st.fp
        fid = self.new_frame(st, self.frame_module(st, saved), saved)
        if '%func' in st.frames[saved]:
            st.wframe(fid)['%func'] = st.frames[saved]['%func']
        st.wframe(saved).setdefault('%captured', TRUE)

        def rec(i, s):
            if i == len(n.generators):
                out = []
                if kind == 'dict':
                    for k, s2 in self.ev(n.key, s):
                        for v, s3 in self.ev(n.value, s2):
                            self.add_entry(c, ('kv', k, v), s3)
                            out.append(('next', None, s3))
                else:
                    for v, s2 in self.ev(n.elt, s):
                        self.add_entry(c, ('item', v), s2)
                        out.append(('next', None, s2))
                return out
            g = n.generators[i]
            out = []
            for it, s2 in self.ev(g.iter, s):
                def body(v, s3):
                    o2 = []
                    for s4 in self.assign(g.target, v, s3):
                        o2.extend(self.comp_ifs(g.ifs, s4, lambda s5: rec(i + 1, s5)))
                    return o2
                for o in self.iterate(it, s2, body, n):
                    out.append(('next', None, o[2]) if o[0] == 'exhausted' else o)
            return out
        st.fp = fid
        res = []
        for o in rec(0, st):
            if o[0] == 'next':
                o[2].fp = saved
                res.append((c, o[2]))
        return res

    def e_GeneratorExp(self, n, st):
        saved = st.fp
        out = []
        for it, s in self.ev(n.generators[0].iter, st):
            fid = self.new_frame(s, self.frame_module(s, saved), saved)
            if '%func' in s.frames[saved]:
                s.wframe(fid)['%func'] = s.frames[saved]['%func']
            s.wframe(saved).setdefault('%captured', TRUE)
            s.wframe(fid)['%captured'] = TRUE
            oid = s.fresh()
            s.heap[oid] = HObj('gen', data=(mk('genexp', self.site(n).func, n.lineno, n.col_offset), n, fid, it, ()))
            out.append((mk('obj', oid), s))
        return out

    def e_Yield(self, n, st):
        vals = [(NONE, st)] if n.value is None else self.ev(n.value, st)
        out = []
        for v, s in vals:
            out.extend(self.ycb[-1](v, s))
        return out

    def e_YieldFrom(self, n, st):
        out = []
        for it, s in self.ev(n.value, st):
            cb = self.ycb[-1]

            def body(v, s2):
                return [('next', None, s3) for _, s3 in cb(v, s2)]
            for o in self.iterate(it, s, body, n):
                if o[0] == 'exhausted':
                    out.append((NONE, o[2]))
        return out

    def e_Call(self, n, st):
        # super()
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and not n.args:
            fr = st.frames[st.fp]
            slf = None
            fid = st.fp
            q = cval(fr['%cls']) if '%cls' in fr else None
            first = fr.get('%self')
            if q and first is not None:
                return [(mk('super', q, first), st)]
        out = []
        for fn, s in self.ev(n.func, st):
            for args, s2 in self.ev_list(n.args, s):
                kws = [([], s2)]
                for kw in n.keywords:
                    nxt = []
                    for acc, s3 in kws:
                        for v, s4 in self.ev(kw.value, s3):
                            nxt.append((acc + [(kw.arg, v)], s4))
                    kws = nxt
                for kwargs, s3 in kws:
                    a2 = self.flatten_star(args, s3)
                    k2 = self.flatten_kw(kwargs, s3)
                    out.extend(self.call(fn, a2, k2, s3, n))
        return out

    def flatten_star(self, args, st):
        out = []
        for a in args:
            if a.op == 'star':
                items = self.finite_list(a.a[0], st)
                if items is None:
                    out.append(mk('star', self.snap(a.a[0], st)))
                else:
                    out.extend(items)
            else:
                out.append(a)
        return out

    def flatten_kw(self, kws, st):
        out = []
        for k, v in kws:
            if k is None:
                h = self.hobj(v, st)
                ents = h.data if h is not None and h.kind == 'dict' else None
                if v.op == 'dict':
                    ents = [self._ent_from_term(e) for e in v.a]
                if ents is not None and all(e[0] == 'kv' and is_const(e[1]) for e in ents):
                    out.extend((cval(e[1]), e[2]) for e in ents)
                else:
                    out.append(('**', self.snap(v, st)))
            else:
                out.append((k, v))
        return out

    def e_Await(self, n, st):
        raise Inconclusive('await')

    def x_Match(self, n, st):
        out = []
        for subj, s in self.ev(n.subject, st):
            live = [s]
            for case in n.cases:
                nxt = []
                for s1 in live:
                    for b, s2 in self.match_pat(case.pattern, subj, s1):
                        if b and case.guard is not None:
                            for g, s3 in self.cond(case.guard, s2):
                                if g:
                                    out.extend(self.exec_block(case.body, s3))
                                else:
                                    nxt.append(s3)
                        elif b:
                            out.extend(self.exec_block(case.body, s2))
                        else:
                            nxt.append(s2)
                live = nxt
            out.extend(('next', None, s1) for s1 in live)
        return out

    def match_pat(self, p, v, st):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store_name(p.name, v, st)
                return [(True, st)]
            out = []
            for b, s in self.match_pat(p.pattern, v, st):
                if b and p.name:
                    self.store_name(p.name, v, s)
                out.append((b, s))
            return out
        if isinstance(p, ast.MatchValue):
            out = []
            for x, s in self.ev(p.value, st):
                for t, s2 in self.cmp_value(ast.Eq(), v, x, s, p):
                    out.extend(self.branch(t, s2, p))
            return out
        if isinstance(p, ast.MatchSingleton):
            out = []
            for t, s2 in self.cmp_value(ast.Is(), v, const(p.value), st, p):
                out.extend(self.branch(t, s2, p))
            return out
        if isinstance(p, ast.MatchOr):
            live = [st]
            out = []
            for q in p.patterns:
                nxt = []
                for s in live:
                    for b, s2 in self.match_pat(q, v, s):
                        (out if b else nxt).append((b, s2) if b else s2)
                live = nxt
            return out + [(False, s) for s in live]
        if isinstance(p, ast.MatchSequence):
            items = None
            if v.op == 'tuple':
                items = list(v.a)
            else:
                h = self.hobj(v, st)
                if h is not None and h.kind == 'list' and not h.grown and all(e[0] == 'item' for e in h.data):
                    items = [e[1] for e in h.data]
            if items is None:
                raise Inconclusive('match pattern')
            stars = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            if len(items) < len(p.patterns) - len(stars) or not stars and len(items) > len(p.patterns):
                return [(False, st)]
            if stars:
                i, k = stars[0], len(items) - (len(p.patterns) - 1)
                rest, items = items[i:i + k], items[:i] + [None] + items[i + k:]
            live, out = [st], []
            for q, x in zip(p.patterns, items):
                nxt = []
                for s in live:
                    if x is None:
                        if q.name:
                            self.store_name(q.name, self.new_container('list', [('item', y) for y in rest], s), s)
                        nxt.append(s)
                        continue
                    for b, s2 in self.match_pat(q, x, s):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((False, s2))
                live = nxt
            return [(True, s) for s in live] + out
        raise Inconclusive('match pattern')
