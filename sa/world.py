"""An abstract directory tree: entries with known or symbolic names.  Gives
meaning to directory listings and file type queries below a root path term."""
from .engine import Inconclusive
from .flow import rel
from .terms import T, mk, const, sym, attr, is_const, cval, path, TRUE, FALSE


class Link:
    """A symbolic link; kind 'dir' / 'file' / 'broken' is what it points to.
    children: what is visible through it."""

    def __init__(self, kind, children=None):
        self.kind = kind
        self.children = children or {}


FILE = None


def key(name):
    return name if isinstance(name, T) else const(name)


class FsWorld:

    def __init__(self, root, tree, prune=True):
        self.root = root
        self.tree = tree
        self.reads = set()

    # ---------------------------------------------------------------- tree
    def children(self, node):
        return node.children if isinstance(node, Link) else node

    def lookup(self, p):
        """-> (known, node): known is False when the tree does not tell"""
        comps = rel(p, self.root)
        if comps is None:
            return False, None
        node = self.tree
        for x in comps:
            ch = self.children(node) if not (node is FILE) else None
            if ch is None:
                return True, KeyError
            found = KeyError
            for n, sub in ch.items():
                if key(n) is x:
                    found = sub
            if found is KeyError:
                if not is_const(x) or any(isinstance(n, T) for n in ch):
                    return False, None
                return True, KeyError
            node = found
        return True, node

    def is_dir(self, node):
        return isinstance(node, dict) or isinstance(node, Link) and node.kind == 'dir'

    def is_file(self, node):
        return node is FILE or isinstance(node, Link) and node.kind == 'file'

    def paths(self, node=None, at=None, links=False):
        """All (comps, node) below the root, parents first."""
        node = self.tree if at is None else node
        at = at or ()
        for n, sub in self.children(node).items():
            c = at + (key(n),)
            yield c, sub
            if isinstance(sub, dict) or links and isinstance(sub, Link) and sub.kind == 'dir':
                yield from self.paths(sub, c, links)

    def term(self, comps):
        return path((self.root,) + tuple(comps))

    # ---------------------------------------------------------------- hooks
    def _q(self, f, missing=False):
        def hook(e, recv, args, kw, st, node):
            known, n = self.lookup(recv)
            if not known:
                return None
            self.reads.add(recv)
            return [(const(missing if n is KeyError else bool(f(n))), st)]
        return hook

    def _is_dir(self, e, recv, args, kw, st, node):
        known, n = self.lookup(recv)
        if known:
            nf = kw.get('follow_symlinks')
            r = n is not KeyError and self.is_dir(n) and not (nf is FALSE and isinstance(n, Link))
            return [(const(r), st)]

    def _is_file(self, e, recv, args, kw, st, node):
        known, n = self.lookup(recv)
        if known:
            nf = kw.get('follow_symlinks')
            r = n is not KeyError and self.is_file(n) and not (nf is FALSE and isinstance(n, Link))
            return [(const(r), st)]

    def _list(self, e, p, st, make):
        known, n = self.lookup(p)
        if not known or n is KeyError or not self.is_dir(n):
            return None
        return [(e.new_container('list', [('item', make(key(x))) for x in self.children(n)], st), st)]

    def listdir(self, e, args, kw, st, node):
        if args:
            return self._list(e, args[0], st, lambda x: x)

    def scandir(self, e, args, kw, st, node):
        if args:
            return self._list(e, args[0], st, lambda x: path((args[0], x)))

    def iterdir(self, e, recv, args, kw, st, node):
        return self._list(e, recv, st, lambda x: path((recv, x)))

    def glob(self, recursive):
        def hook(e, recv, args, kw, st, node):
            pat = cval(args[0]) if args and is_const(args[0]) else None
            known, n = self.lookup(recv)
            if not known or n is KeyError or not self.is_dir(n) or pat not in ('*', '**', '**/*'):
                return None
            if pat == '*' and not recursive:
                return self.iterdir(e, recv, (), {}, st, node)
            comps = rel(recv, self.root)
            out = []
            if pat == '**':
                if not recursive:
                    out.append(recv)
            for c, sub in self.paths(self.children(n), comps):
                if pat == '**' and not isinstance(sub, dict):
                    continue
                out.append(self.term(c))
            return [(e.new_container('list', [('item', x) for x in out], st), st)]
        return hook

    def relative_to(self, e, recv, args, kw, st, node):
        if len(args) == 1:
            r = rel(recv, args[0])
            if r is not None:
                return [(path(r) if r else const('.'), st)]
            if rel(recv, self.root) is not None and rel(args[0], self.root) is not None:
                e.raise_(mk('exc', 'ValueError', ''), st, node)
                return []

    def is_relative_to(self, e, recv, args, kw, st, node):
        if len(args) == 1 and rel(recv, self.root) is not None and rel(args[0], self.root) is not None:
            return [(const(rel(recv, args[0]) is not None), st)]

    def relpath(self, e, args, kw, st, node):
        if len(args) == 2:
            r = rel(args[0], args[1])
            if r is not None:
                return [(path(r) if r else const('.'), st)]

    def walk_iter(self, e, it, st, body, node):
        """Iteration over os.walk(top): subdirectories removed from the list by
        the loop body are not visited."""
        if it.op == 'mcall':
            top, pos, kw = it.a[0], it.a[2], dict(it.a[3])
            follow = kw.get('follow_symlinks', pos[2] if len(pos) > 2 else FALSE)
            topdown = kw.get('top_down', pos[0] if pos else TRUE)
        else:
            top, pos, kw = it.a[1][0] if it.a[1] else dict(it.a[2]).get('top'), it.a[1], dict(it.a[2])
            follow = kw.get('followlinks', pos[3] if len(pos) > 3 else FALSE)
            topdown = kw.get('topdown', pos[1] if len(pos) > 1 else TRUE)
        if top is None or follow not in (TRUE, FALSE) or topdown not in (TRUE, FALSE):
            return None
        known, n = self.lookup(top)
        if not known:
            return None
        if n is KeyError or not self.is_dir(n):
            return [('exhausted', None, st)]

        def visit(p, n, s):
            ch = self.children(n)
            dirs = [key(x) for x, sub in ch.items() if self.is_dir(sub)]
            files = [key(x) for x, sub in ch.items() if not self.is_dir(sub)]
            by = {key(x): sub for x, sub in ch.items()}

            def sub_dirs(names, states):
                outs = states
                for x in names:
                    sub = by.get(x)
                    if sub is None or isinstance(sub, Link) and follow is FALSE:
                        continue
                    nxt = []
                    for o in outs:
                        if o[0] not in ('next', 'continue', 'exhausted'):
                            nxt.append(o)
                            continue
                        nxt.extend(visit(path((p, x)), sub, o[2]))
                    outs = nxt
                return outs

            if topdown is FALSE:
                res = []
                for o in sub_dirs(dirs, [('next', None, s)]):
                    if o[0] not in ('next', 'continue', 'exhausted'):
                        res.append(o)
                        continue
                    d = e.new_container('list', [('item', x) for x in dirs], o[2])
                    f = e.new_container('list', [('item', x) for x in files], o[2])
                    res.extend(body(mk('tuple', p, d, f), o[2]))
                return res
            d = e.new_container('list', [('item', x) for x in dirs], s)
            f = e.new_container('list', [('item', x) for x in files], s)
            res = []
            for o in body(mk('tuple', p, d, f), s):
                if o[0] not in ('next', 'continue', 'exhausted'):
                    res.append(o)
                    continue
                left = e.finite_list(d, o[2])
                if left is None:
                    raise Inconclusive('directories visited by os.walk')
                res.extend(sub_dirs(left, [('next', None, o[2])]))
            return res
        outs = visit(top, n, st)
        return [(('exhausted', None, o[2]) if o[0] in ('next', 'continue') else o) for o in outs]

    def prepare(self, e, st):
        for c, n in self.paths(links=True):
            p = self.term(c)
            st.overlay[attr(p, 'path')] = p

    def options(self):
        return dict(
            mhooks=dict(
                exists=self._q(lambda n: not (isinstance(n, Link) and n.kind == 'broken')), is_dir=self._is_dir,
                is_file=self._is_file, is_symlink=self._q(lambda n: isinstance(n, Link)), iterdir=self.iterdir,
                glob=self.glob(False), rglob=self.glob(True), relative_to=self.relative_to,
                is_relative_to=self.is_relative_to),
            xhooks={'os.listdir': self.listdir, 'os.scandir': self.scandir, 'os.path.relpath': self.relpath,
                    'os.path.lexists': lambda e, a, k, st, node: self._q(lambda n: True)(e, a[0], (), {}, st, node)},
            iterhooks={'os.walk': self.walk_iter, 'walk': self.walk_iter},
            prepare=self.prepare, finite_sorted=True, max_recursion=8)
