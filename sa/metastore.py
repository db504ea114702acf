"""The metadata file of a workspace as a variable: what was written last is
read back.  Known keys, unknown values."""
from .engine import Ev, Inconclusive
from .save import json_dict
from .std import *
from .terms import *
from .terms import T

STORE = sym('@metadata')


def term(x):
    """nested dict -> dict snapshot term"""
    if isinstance(x, dict):
        return mk('dict', *[mk('kv', const(k), term(v)) for k, v in x.items()])
    return x


def plain(t):
    """dict snapshot term -> nested dict; None if not completely known"""
    if not (isinstance(t, T) and t.op == 'dict'):
        return t
    out = {}
    for x in t.a:
        if x.op != 'kv' or not is_const(x.a[0]):
            return None
        v = plain(x.a[1])
        if v is None:
            return None
        out[cval(x.a[0])] = v
    return out


def rebuild(e, t, st):
    if t.op == 'dict' and all(x.op == 'kv' for x in t.a):
        return e.new_container('dict', [('kv', x.a[0], rebuild(e, x.a[1], st)) for x in t.a], st)
    if t.op == 'list' and all(x.op == 'item' for x in t.a):
        return e.new_container('list', [('item', rebuild(e, x.a[0], st)) for x in t.a], st)
    return t


class MetaStore:

    def __init__(self, initial, failing=False):
        self.initial = term(initial)
        self.failing = failing

    def get(self, st):
        return st.overlay.get(STORE, self.initial)

    def put(self, e, t, st, node):
        st.emit(Ev('call', '@meta', (t,), site=e.site(node)))
        st.overlay[STORE] = t

    def load(self, e, qual, sargs, st, node):
        return [(rebuild(e, self.get(st), st), st)]

    def dump(self, e, qual, sargs, st, node):
        if self.failing:
            s2 = st.fork()
            e.raise_(mk('exc', 'OSError', ''), s2, node)
        self.put(e, e.snap(sargs[0], st), st, node)
        return [(NONE, st)]

    def write_file(self, e, qual, sargs, st, node):
        d = json_dict(e.snap(sargs[1], st)) if len(sargs) > 1 else None
        if d is None:
            return None
        self.put(e, d, st, node)
        return [(NONE, st)]

    def json_load(self, e, args, kw, st, node):
        if args and any(x.op == 'sym' and x.a[0].startswith(('stream:', 'bytes:')) for x in walk(args[0])):
            return None
        return [(rebuild(e, self.get(st), st), st)]

    def json_dump(self, e, args, kw, st, node):
        self.put(e, e.snap(args[0], st), st, node)
        return [(NONE, st)]

    def options(self):
        return dict(
            stops={PERSIST + '.file_load': self.load, PERSIST + '.file_dump': self.dump, FS + '.write_file': self.write_file},
            xhooks={'json.load': self.json_load, 'json.loads': self.json_load, 'json.dump': self.json_dump})
