"""An abstract zip archive: member names are known constants, what the members
hold is symbolic.  Gives meaning to the calls of zipfile and json when a rule
analyses code that reads an archive."""
from .terms import T, mk, const, sym, attr, is_const, cval, walk, NONE

FILE = sym('archive_file')


def stream(name):
    return sym(f'stream:{name}')


def content(name):
    return sym(f'bytes:{name}')


def info(name):
    return sym(f'info:{name}')


def member_of(t):
    """Name of the member whose content t is derived from, or None"""
    found = set()
    for x in walk(t):
        if x.op == 'sym' and x.a[0].startswith(('stream:', 'bytes:')):
            found.add(x.a[0].split(':', 1)[1])
    return found.pop() if len(found) == 1 else None


class ZipWorld:
    META = 'meta/bead'
    MANIFEST = 'meta/manifest'

    def __init__(self, names, meta=None, manifest=None, file=FILE, tag=''):
        """meta: dict key -> term, manifest: dict name -> term; None: not decodable
        tag: tells apart what archives used together hold"""
        self.tag = tag
        self.names = list(names)
        self.meta = meta
        self.manifest = manifest
        self.file = file

    # ---------------------------------------------------------------- zip
    def mine(self, recv):
        return any(x.op == 'call' and x.a[0] == 'zipfile.ZipFile' and (not self.tag or x.a[1][:1] == (self.file,)) for x in walk(recv))

    def _name(self, t):
        if is_const(t) and isinstance(cval(t), str):
            return cval(t)
        if t.op == 'sym' and t.a[0].startswith('info:' + self.tag):
            return t.a[0][5 + len(self.tag):]

    def namelist(self, e, recv, args, kw, st, node):
        if self.mine(recv):
            return [(e.new_container('list', [('item', const(n)) for n in self.names], st), st)]

    def infolist(self, e, recv, args, kw, st, node):
        if self.mine(recv):
            return [(e.new_container('list', [('item', info(self.tag + n)) for n in self.names], st), st)]

    def _lookup(self, make):
        def f(e, recv, args, kw, st, node):
            if not self.mine(recv):
                return None
            a = args[0] if args else kw.get('name')
            n = self._name(a) if a is not None else None
            if n is None:
                return None
            mode = args[1] if len(args) > 1 else kw.get('mode')
            if mode is not None and not (is_const(mode) and cval(mode) == 'r'):
                return None
            if n not in self.names:
                e.raise_(mk('exc', 'KeyError', ''), st, node)
                return []
            return [(make(self.tag + n), st)]
        return f

    def json_load(self, e, args, kw, st, node):
        a = args[0] if args else None
        n = member_of(a) if a is not None else None
        if n is not None:
            if not n.startswith(self.tag):
                return None
            n = n[len(self.tag):]
        d = self.meta if n == self.META else self.manifest if n == self.MANIFEST else None
        if n is None:
            return None
        if d is None or n not in self.names:
            e.raise_(mk('exc', 'json.JSONDecodeError', ''), st, node)
            return []
        return [(e.new_container('dict', [('kv', const(k), v) for k, v in d.items()], st), st)]

    def prepare(self, e, st):
        for n in self.names:
            st.overlay[attr(info(self.tag + n), 'filename')] = const(n)

    def options(self):
        return dict(
            mhooks=dict(namelist=self.namelist, infolist=self.infolist, getinfo=self._lookup(info),
                        open=self._lookup(stream), read=self._lookup(content)),
            xhooks={'json.load': self.json_load, 'json.loads': self.json_load},
            prepare=self.prepare)


def together(*worlds):
    """options for the use of several archives"""
    def first(fs):
        def f(*a):
            for g in fs:
                r = g(*a)
                if r is not None:
                    return r
        return f

    def prepare(e, st):
        for w in worlds:
            w.prepare(e, st)
    opts = [w.options() for w in worlds]
    return dict(
        mhooks={k: first([o['mhooks'][k] for o in opts]) for k in opts[0]['mhooks']},
        xhooks={k: first([o['xhooks'][k] for o in opts]) for k in opts[0]['xhooks']},
        prepare=prepare)


def on_archive(c, method, args=(), file=FILE, get=None):
    """Script: open an archive, then call a method of it (or read attribute get)."""
    cls = c.a.lookup_qual('bead.ziparchive.ZipArchive')
    c.anchor(cls is not None and cls.op == 'cls', 'ZipArchive')

    def script(e, st):
        outs = []
        for o, s in e.call(cls, [file], [], st, None):
            for f, s2 in e.get_attr(o, method, s):
                if get:
                    outs.append((f, s2))
                else:
                    outs.extend(e.call(f, list(args), [], s2, None))
        return outs
    return script
