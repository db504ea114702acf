"""The content of the box index along a path: the SQL statements of the path's
trace are replayed, with transactions, on symbolic rows."""
from .engine import Inconclusive
from .boxsearch import Boxes, INDEX_NAME, location
from .flow import events, effects
from .ordering import Undecided
from .sqlworld import SqlWorld, WrongParameters, parse, Insert, Delete, Update, Select, Create, Drop, Other, writable
from .terms import *

KEY = {'beads': ('name', 'content_id')}
MISSING = 'no database'


def row(**cols):
    return tuple(sorted(cols.items()))


def target_of(t):
    """identity of the database file a connection / path term names"""
    for x in walk(t):
        if x.op == 'const' and isinstance(cval(x), str) and (cval(x).endswith(INDEX_NAME) or INDEX_NAME + '?' in cval(x)):
            return 'index'
    return t


class IndexWorld(Boxes):
    """One indexed box 'A' whose index holds rows {table: [row]}."""

    def __init__(self, files, rows, order, failing=()):
        super().__init__({'A': 'index'}, {'A': files}, {}, order)
        self.sql = LiveSql(rows, order, failing)

    def relative_to(self, e, recv, args, kw, st, node):
        """files of the box are directly in its folder"""
        a = location('A')
        if args and args[0] is a and recv.op == 'path' and recv.a[0] is a and len(recv.a) == 2:
            return [(mk('@rel', recv.a[1]), st)]        # (a path: no text yet)

    def options(self, **kw):
        return super().options(mhooks={'relative_to': self.relative_to, **kw.pop('mhooks', {})}, **kw)

    def final(self, trace):
        """rows of the index file after the path: {table: [row]}"""
        got = self.sql.replay(trace)['index']
        return {t: got.get(t, []) for t in ('beads', 'inputs', *got)}


class LiveSql(SqlWorld):
    def __init__(self, rows, order, failing=()):
        super().__init__(None, failing, order)
        self.initial = rows
        self.keys = {}

    def run(self, e, recv, text, params, st, node):
        if text.op == 'const' and isinstance(cval(text), str):
            try:
                stmt = parse(cval(text), params)
            except WrongParameters:
                stmt = None
            t = getattr(stmt, 'table', None)
            if t is not None and t not in self.replay(trace_of(st), target_of(recv.a[1][0])):
                e.raise_(mk('exc', 'sqlite3.OperationalError', f'no such table: {t}'), st, node)
                return None
            if isinstance(stmt, Create) and stmt.what == 'table':
                self.keys[stmt.name] = tuple(stmt.key or ())
        return super().run(e, recv, text, params, st, node)

    def rows(self, table):
        t = target_of(self.db.a[1][0])
        got = self.replay(trace_of(self.st), t)
        if table not in got:
            raise Inconclusive(f'SQL table {table}')
        return got[table]

    def decide(self, conjs, table, r):
        if not conjs:
            return True
        s = self.e._new_state()
        outs = {v for v, _ in self.all(self.e, conjs, table, r, s, None)}
        if len(outs) != 1:
            raise Inconclusive(f'which rows a statement on {table} concerns')
        return outs.pop()

    def conj(self, e, c, table, row, st, node):
        a, op, b = c
        if op in ('=', '!=') and 'tuple' not in (a[0], b[0]):
            return [(self.same(self.value(a, table, row), self.value(b, table, row)) == (op == '='), st)]
        return super().conj(e, c, table, row, st, node)

    def same(self, x, y):
        if x is y:
            return True
        v = self.order.decide(self.e, self.e.eq_term(x, y), None)
        if v is None:
            try:
                (a, _), (b, _) = self.order.rank(x), self.order.rank(y)
                if a != b and 'tuple' not in (a, b):
                    return False        # (what they mean is different: so are the texts of the scenario)
            except Undecided:
                pass
            raise Inconclusive(f'is {x!r} {y!r}?'[:200])
        return v

    def replay(self, trace, pending_of=None):
        """committed content of each database; with pending_of: what the open
        connection to that database sees"""
        dbs = {'index': {k: list(v) for k, v in self.initial.items()}}
        open_ = {}
        auto = set()

        def see(conn):
            t = target_of(conn.a[1][0])
            if conn not in open_:
                open_[conn] = {k: list(v) for k, v in dbs.setdefault(t, {}).items()}
            return open_[conn]

        def publish(conn):
            if conn in open_:
                dbs[target_of(conn.a[1][0])] = open_.pop(conn)
        def step(ev, loop):
            if ev.fn == '@connect':
                open_.pop(ev.res, None)
                if len(ev.args) > 2:
                    auto.add(ev.res)
            elif ev.fn == '@sql':
                conn = ev.args[0]
                if writable(conn) is False:
                    return
                self.change(see(conn), ev.x, loop)
                if isinstance(ev.x, Create) and ev.x.what == 'table':      # (does not wait for a commit)
                    dbs[target_of(conn.a[1][0])].setdefault(ev.x.name, [])
                if conn in auto:
                    publish(conn)
            elif ev.fn == '@commit' or ev.fn == '__exit__' and ev.kind == 'mcall' and is_db(ev.args[0]) and ev.args[1] is FALSE:
                publish(ev.args[0])
            elif ev.fn in ('@rollback', '@close') or ev.fn == '__exit__' and ev.kind == 'mcall' and is_db(ev.args[0]):
                open_.pop(ev.args[0], None)
            else:
                for ef in effects(ev):
                    if ef.kind == 'delete' and ef.path is not None and target_of(ef.path) in dbs:
                        dbs[target_of(ef.path)] = {}
                        open_.clear()
                    elif ef.kind == 'rename' and ef.extra is not None:
                        src, dst = target_of(ef.path), target_of(ef.extra)
                        if src in dbs or dst in dbs:
                            dbs[dst] = dbs.pop(src, {})

        def mark(loop):
            for tables in [*dbs.values(), *open_.values()]:
                for rows in tables.values():
                    rows[:] = [tuple(x for x in r if x[0] != '#loop') if ('#loop', loop) in r else r for r in rows]

        def play(trace, loop):
            for i, ev in enumerate(trace):
                if ev.kind == 'loop':
                    for p in ev.x:
                        play(p.trace, i if loop is None else loop)
                    left = i + 1 < len(trace) and trace[i + 1].kind == 'iter' and trace[i + 1].fn is ev.fn
                    if loop is None and not left:
                        mark(i)
                elif ev.kind == 'alt':
                    raise Inconclusive('alternative ways')
                else:
                    step(ev, loop)
        play(trace, None)
        if pending_of is not None:
            for conn, v in open_.items():
                if target_of(conn.a[1][0]) == pending_of:
                    return v
            return dbs.setdefault(pending_of, {})
        return dbs

    def change(self, tables, stmt, loop):
        if isinstance(stmt, Create):
            if stmt.what == 'table' and not stmt.ifnot and tables.get(stmt.name):
                raise Inconclusive('CREATE TABLE')
            if stmt.what == 'table':
                tables.setdefault(stmt.name, [])
            return
        if isinstance(stmt, Drop):
            if stmt.what == 'table':
                tables.pop(stmt.name, None)
            return
        if isinstance(stmt, Other):
            if stmt.verb in ('pragma', 'begin', 'savepoint', 'release', 'analyze', 'vacuum'):
                return
            raise Inconclusive(f'SQL {stmt.text}'[:150])
        rows = tables.setdefault(stmt.table, [])
        if isinstance(stmt, Insert):
            cols = stmt.columns or self.schema.get(stmt.table)
            if cols is None:
                raise Inconclusive('columns')
            for vals in stmt.rows:
                new = dict(zip(cols, vals))
                key = self.keys.get(stmt.table, KEY.get(stmt.table))
                clash = [r for r in rows if key and all(self.same(dict(r)[k], new[k]) for k in key)]
                if clash and stmt.replace == 'ignore':
                    continue
                if clash and stmt.replace != 'replace':
                    raise Inconclusive('constraint violation')
                for r in clash:
                    rows.remove(r)
                if loop is not None:
                    new['#loop'] = loop         # some, not necessarily all, rows of a loop
                rows.append(row(**new))
        elif isinstance(stmt, Delete):
            self.tables_seen(tables)
            rows[:] = [r for r in rows if not self.decide(stmt.where, stmt.table, r)]
        elif isinstance(stmt, Update):
            self.tables_seen(tables)
            rows[:] = [row(**{**dict(r), **{c: self.value(v, stmt.table, r) for c, v in stmt.sets}})
                       if self.decide(stmt.where, stmt.table, r) else r for r in rows]
        else:
            raise Inconclusive('SQL')

    def tables_seen(self, tables):
        self.current = tables

    def isin(self, e, a, sel, table, r, st, node):
        # sub-select of a statement being replayed: sees the open transaction
        cur = getattr(self, 'current', None)
        if cur is None:
            return super().isin(e, a, sel, table, r, st, node)
        cols = a[1] if a[0] == 'tuple' else [a]
        for x in cur.get(sel.table, ()):
            if self.decide(sel.where, sel.table, x):
                if all(self.same(self.value(c, table, r), self.value(d, sel.table, x)) for c, d in zip(cols, sel.columns)):
                    return [(True, st)]
        return [(False, st)]


def is_db(t):
    return isinstance(t, T) and t.op == 'call' and t.a[0] == '@db'


def trace_of(st):
    from .engine import trace_list
    return trace_list(st.trace)
