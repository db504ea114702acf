"""SQL statements as seen by the analysis: a small parser for the statements
the index uses, and an abstract database whose tables hold known rows (records
of symbolic column values) that SELECT statements are evaluated against.
Statements that change the database become '@sql' events."""
import re
from collections import namedtuple

from .engine import Ev, Inconclusive
from .terms import T, mk, const, sym, is_const, cval, NONE, TRUE, FALSE, subst

TOKEN = re.compile(r"""\s+|--[^\n]*|/\*.*?\*/|(?P<str>'(?:[^']|'')*')|(?P<qid>"[^"]*"|`[^`]*`|\[[^\]]*\])|(?P<num>\d+(?:\.\d+)?)|(?P<id>[A-Za-z_]\w*)|(?P<par>[:@$]\w+|\?\d*)|(?P<op><=|>=|<>|!=|==|\|\||[-+*/%<>=(),.;&|~])""", re.S)

Insert = namedtuple('Insert', 'table columns rows replace')         # rows: list of value terms
Delete = namedtuple('Delete', 'table where')
Update = namedtuple('Update', 'table sets where')
Select = namedtuple('Select', 'columns table where order limit')
Create = namedtuple('Create', 'what name columns ifnot key text')
Drop = namedtuple('Drop', 'what name')
Other = namedtuple('Other', 'verb text')
# where: list of conjuncts  (left, op, right); a side is ('col', name) / ('val', term) / ('tuple', sides) / ('select', Select)


class WrongParameters(Exception):
    pass


class Parser:

    def __init__(self, text, params):
        self.toks = []
        pos = 0
        while pos < len(text):
            m = TOKEN.match(text, pos)
            if not m:
                raise Inconclusive(f'SQL {text[:60]!r}')
            pos = m.end()
            if m.lastgroup:
                v = m.group(m.lastgroup)
                self.toks.append(('id', v[1:-1].lower()) if m.lastgroup == 'qid' else (m.lastgroup, v.lower() if m.lastgroup == 'id' else v))
        self.i = 0
        self.text = text
        self.params = params
        self.np = 0

    def peek(self, k=0):
        return self.toks[self.i + k][1] if self.i + k < len(self.toks) else None

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def fail(self):
        raise Inconclusive(f'SQL {" ".join(self.text.split())[:80]!r} near {self.peek()!r}')

    def take(self, *vals):
        for v in vals:
            if self.peek() != v:
                self.fail()
            self.i += 1

    def opt(self, *vals):
        if all(self.peek(k) == v for k, v in enumerate(vals)):
            self.i += len(vals)
            return True
        return False

    def ident(self):
        if self.kind() != 'id':
            self.fail()
        v = self.peek()
        self.i += 1
        if self.peek() == '.' and self.kind() == 'op':
            self.i += 1
            return self.ident()
        return v

    def names(self):
        self.take('(')
        out = [self.ident()]
        while self.opt(','):
            out.append(self.ident())
        self.take(')')
        return out

    def param(self, tok):
        if tok.startswith('?'):
            n = int(tok[1:]) - 1 if tok[1:] else self.np
            self.np = n + 1
            if isinstance(self.params, list) and n >= len(self.params):
                raise WrongParameters
            if not isinstance(self.params, list):
                raise Inconclusive('SQL parameters')
            return self.params[n]
        if not isinstance(self.params, dict) or tok[1:] not in self.params:
            raise Inconclusive('SQL parameters')
        return self.params[tok[1:]]

    def side(self):
        k, v = self.kind(), self.peek()
        if k == 'par':
            self.i += 1
            return ('val', self.param(v))
        if k == 'str':
            self.i += 1
            return ('val', const(v[1:-1].replace("''", "'")))
        if k == 'num':
            self.i += 1
            return ('val', const(float(v) if '.' in v else int(v)))
        if v == '(':
            self.i += 1
            if self.peek() == 'select':
                r = ('select', self.select())
            else:
                xs = [self.side()]
                while self.opt(','):
                    xs.append(self.side())
                r = xs[0] if len(xs) == 1 else ('tuple', xs)
            self.take(')')
            return r
        if v == 'null':
            self.i += 1
            return ('val', NONE)
        if k == 'id':
            if self.i + 1 < len(self.toks) and self.peek(1) == '(':
                f = v
                self.i += 2
                args = []
                if not self.opt(')'):
                    args.append(self.side())
                    while self.opt(','):
                        args.append(self.side())
                    self.take(')')
                return ('fn', (f, args))
            return ('col', self.ident())
        self.fail()

    def conj(self):
        neg = self.opt('not')
        a = self.side()
        v = self.peek()
        if v == 'collate':
            self.i += 1
            a = ('fn', ('collate ' + self.ident(), [a]))
            v = self.peek()
        if v in ('=', '==', 'is'):
            self.i += 1
            op = '!=' if v == 'is' and self.opt('not') else '='
        elif v in ('<>', '!='):
            self.i += 1
            op = '!='
        elif v in ('<', '<=', '>', '>='):
            self.i += 1
            op = v
        elif v in ('like', 'glob', 'match', 'regexp', 'between', 'in', 'not'):
            self.i += 1
            op = v
            if v == 'not':
                op = 'not ' + self.peek()
                self.i += 1
        else:
            return (a, 'truth', None) if not neg else (a, 'not truth', None)
        if op.endswith('in') and self.peek() == '(' and self.peek(1) != 'select':
            self.i += 1
            xs = [self.side()]
            while self.opt(','):
                xs.append(self.side())
            self.take(')')
            b = ('list', xs)
        elif op == 'between':
            lo = self.side()
            self.take('and')
            b = ('tuple', [lo, self.side()])
        else:
            b = self.side()
        if self.opt('collate'):
            b = ('fn', ('collate ' + self.ident(), [b]))
        if neg:
            op = {'=': '!=', '!=': '=', '<': '>=', '>': '<=', '<=': '>', '>=': '<'}.get(op, 'not ' + op)
        return (a, op, b)

    def where(self):
        groups = [[]]
        if self.opt('where'):
            groups[-1].append(self.conj())
            while True:
                if self.opt('and'):
                    groups[-1].append(self.conj())
                elif self.opt('or'):
                    groups.append([self.conj()])
                else:
                    break
        if len(groups) == 1:
            return groups[0]
        return [('or', [g[0] if len(g) == 1 else ('and', g) for g in groups])]

    def select(self):
        self.take('select')
        distinct = self.opt('distinct')
        cols = []
        if self.opt('*'):
            cols = ['*']
        else:
            while True:
                c = self.side()
                if self.opt('as'):
                    self.ident()
                cols.append(c)
                if not self.opt(','):
                    break
        self.take('from')
        table = self.ident()
        where = self.where()
        order = None
        if self.opt('group') or self.opt('having') or self.peek() in ('join', 'inner', 'left', ','):
            self.fail()
        if self.opt('order', 'by'):
            order = []
            while True:
                c = self.side()
                desc = self.opt('desc')
                if not desc:
                    self.opt('asc')
                order.append((c, desc))
                if not self.opt(','):
                    break
        limit = None
        if self.opt('limit'):
            limit = self.side()
            if self.opt('offset') or self.opt(','):
                self.fail()
        return Select(cols, table, where, order, limit)

    def statement(self):
        v = self.peek()
        r = None
        if v == 'select':
            r = self.select()
        elif v in ('insert', 'replace'):
            self.i += 1
            mode = 'replace' if v == 'replace' else None
            if v == 'insert' and self.opt('or'):
                mode = self.ident()
            self.take('into')
            t = self.ident()
            cols = self.names() if self.peek() == '(' else None
            if self.peek() == 'select':
                return Other('insert', self.text)
            self.take('values')
            rows = []
            while True:
                self.take('(')
                row = [self.value()]
                while self.opt(','):
                    row.append(self.value())
                self.take(')')
                rows.append(row)
                if not self.opt(','):
                    break
            if self.i < len(self.toks) and self.peek() != ';':
                return Other('insert', self.text)
            r = Insert(t, cols, rows, mode)
        elif v == 'delete':
            self.i += 1
            self.take('from')
            r = Delete(self.ident(), self.where())
        elif v == 'update':
            self.i += 1
            if self.opt('or'):
                self.ident()
            t = self.ident()
            self.take('set')
            sets = []
            while True:
                c = self.ident()
                self.take('=')
                sets.append((c, self.side()))
                if not self.opt(','):
                    break
            r = Update(t, sets, self.where())
        elif v == 'create':
            self.i += 1
            unique = self.opt('unique')
            self.opt('temp')
            what = self.ident()
            ifnot = self.opt('if', 'not', 'exists')
            name = self.ident()
            cols, key = {}, None
            if what == 'table':
                cols, key = self.columns()
            else:
                self.i = len(self.toks)
            return Create(('unique ' if unique else '') + what, name, cols, ifnot, key, self.text)
        elif v == 'drop':
            self.i += 1
            what = self.ident()
            self.opt('if', 'exists')
            r = Drop(what, self.ident())
        else:
            return Other(v, self.text)
        self.opt(';')
        if self.i != len(self.toks):
            self.fail()
        return r

    def value(self):
        s = self.side()
        if s[0] != 'val':
            self.fail()
        return s[1]

    def columns(self):
        """column name -> declaration words"""
        self.take('(')
        cols, key = {}, None
        depth, cur, parts = 1, [], []
        while depth:
            if self.i >= len(self.toks):
                self.fail()
            t = self.peek()
            self.i += 1
            if t == '(':
                depth += 1
            elif t == ')':
                depth -= 1
                if not depth:
                    break
            if t == ',' and depth == 1:
                parts.append(cur)
                cur = []
            else:
                cur.append(t)
        parts.append(cur)
        for p in parts:
            if p[:2] == ['primary', 'key']:
                key = [x for x in p[2:] if x not in ('(', ')', ',')]
            elif p and p[0] in ('foreign', 'unique', 'check', 'constraint'):
                continue
            elif p:
                cols[p[0]] = p[1:]
                if 'primary' in p:
                    key = [p[0]]
        return cols, key


def affinity(decl):
    """Type affinity of a column declaration (SQLite documentation, 3.1)."""
    words = []
    for w in decl:
        if w in ('not', 'null', 'primary', 'unique', 'check', 'default', 'collate', 'references', 'constraint', 'generated', 'as'):
            break
        words.append(w)
    t = ''.join(words).upper()
    if 'INT' in t:
        return 'INTEGER'
    if any(x in t for x in ('CHAR', 'CLOB', 'TEXT')):
        return 'TEXT'
    if 'BLOB' in t or not t:
        return 'BLOB'
    if any(x in t for x in ('REAL', 'FLOA', 'DOUB')):
        return 'REAL'
    return 'NUMERIC'


def parse(text, params=()):
    return Parser(text, params).statement()


def column(table, name):
    return sym(f'{table}.{name}')


DB = '@db'


class SqlWorld:
    """tables: {table: [row id, ...]} each row's columns are symbols
    '<row id>.<column>'; None: nothing known about the content."""

    def __init__(self, tables, failing=(), order=None):
        self.tables = tables        # or a function: connection term -> tables
        self.order = order
        self.schema = {}
        self.failing = failing      # verbs which may also fail
        self.statements = []
        self.cuts = {}              # where only so many rows are asked for

    # ---------------------------------------------------------------- evaluation
    def value(self, s, table, row):
        if s[0] == 'col':
            return self.cell(table, row, s[1])
        if s[0] == 'val':
            return s[1]
        if s[0] == 'fn':
            return mk('call', '@sql:' + s[1][0], tuple(self.value(x, table, row) for x in s[1][1]), ())
        raise Inconclusive(f'SQL {s[0]}')

    def cell(self, table, row, name):
        if isinstance(row, tuple):
            return dict(row)[name]
        if name == 'rowid':
            return mk('call', '@rowid', (sym(row),), ())
        cols = self.schema.get(table)
        if cols is not None and name not in cols:
            raise Inconclusive(f'unknown column {table}.{name}')
        return sym(f'{row}.{name}')

    def conj(self, e, c, table, row, st, node):
        """-> [(bool, state)]"""
        a, op, b = c
        if op == 'truth':
            return e.branch(self.value(a, table, row), st, node)
        if a[0] == 'tuple' and op in ('=', 'is') and b[0] == 'tuple' and len(a[1]) == len(b[1]):
            return self.all(e, [(x, '=', y) for x, y in zip(a[1], b[1])], table, row, st, node)
        if op == 'in' and b[0] == 'select':
            return self.isin(e, a, b[1], table, row, st, node)
        if op == 'in' and b[0] == 'list':
            return self.any(e, [(a, '=', x) for x in b[1]], table, row, st, node)
        if op == 'between':
            return self.all(e, [(a, '>=', b[1][0]), (a, '<=', b[1][1])], table, row, st, node)
        x, y = self.value(a, table, row), self.value(b, table, row)
        if op in ('=', '!='):
            t, neg = e.eq_term(x, y), op == '!='
        elif op == '<':
            t, neg = mk('cmp', '<', x, y), False
        elif op == '>':
            t, neg = mk('cmp', '<', y, x), False
        elif op == '<=':
            t, neg = mk('cmp', '<', y, x), True
        elif op == '>=':
            t, neg = mk('cmp', '<', x, y), True
        else:
            t, neg = mk('call', '@sql:' + op, (x, y), ()), False
        return [(v != neg, s) for v, s in e.branch(t, st, node)]

    def all(self, e, conjs, table, row, st, node):
        live, out = [st], []
        for c in conjs:
            nxt = []
            for s in live:
                rs = self.test(e, c, table, row, s, node)
                for v, s2 in rs:
                    (nxt if v else out).append(s2)
            live = nxt
        return [(True, s) for s in live] + [(False, s) for s in out]

    def test(self, e, c, table, row, st, node):
        if c[0] in ('or', 'and'):
            return (self.any if c[0] == 'or' else self.all)(e, c[1], table, row, st, node)
        return self.conj(e, c, table, row, st, node)

    def any(self, e, conjs, table, row, st, node):
        live, out = [st], []
        for c in conjs:
            nxt = []
            for s in live:
                rs = self.test(e, c, table, row, s, node)
                for v, s2 in rs:
                    (out if v else nxt).append(s2)
            live = nxt
        return [(True, s) for s in out] + [(False, s) for s in live]

    def isin(self, e, a, sel, table, row, st, node):
        cols = a[1] if a[0] == 'tuple' else [a]
        if len(cols) != len(sel.columns):
            raise Inconclusive('SQL IN')
        live, out = [st], []
        for r in self.rows(sel.table):
            nxt = []
            for s in live:
                for v, s2 in self.all(e, sel.where, sel.table, r, s, node):
                    if not v:
                        nxt.append(s2)
                        continue
                    conjs = [(('val', self.value(x, table, row)), '=', ('val', self.value(y, sel.table, r))) for x, y in zip(cols, sel.columns)]
                    for v2, s3 in self.all(e, conjs, table, row, s2, node):
                        (out if v2 else nxt).append(s3)
            live = nxt
        return [(True, s) for s in out] + [(False, s) for s in live]

    def rows(self, table):
        tables = self.tables(self.db) if callable(self.tables) else self.tables
        if table not in tables:
            raise Inconclusive(f'SQL table {table}')
        return tables[table]

    def select(self, e, sel, st, node):
        """-> [(list of row tuple terms, state)]"""
        self.st = st
        res = [([], st)]
        if sel.order is not None and any(self.value(c, sel.table, 'x') is None for c, _ in sel.order):
            raise Inconclusive('SQL ORDER BY')
        for r in self.rows(sel.table):
            nxt = []
            for got, s in res:
                for v, s2 in self.all(e, sel.where, sel.table, r, s, node):
                    nxt.append((got + [r] if v else got, s2))
            res = nxt
        out = []
        for got, s in res:
            if sel.order and self.order is not None:
                for col, desc in reversed(sel.order):
                    got = self.order.arrange(e, [self.value(col, sel.table, r) for r in got], None, desc, s, None, got)[0]
            if sel.limit is not None and len(got) > 1:
                n = sel.limit[1]
                if not sel.order or self.order is None or sel.limit[0] != 'val' or not is_const(n) or type(cval(n)) is not int:
                    raise Inconclusive('SQL LIMIT')
                got = got[:cval(n)] if cval(n) >= 0 else got
            rows = []
            for r in got:
                cols = [('col', c) for c in self.schema.get(sel.table, ())] if sel.columns == ['*'] else sel.columns
                if any(c[0] == 'fn' and c[1][0] in ('count', 'max', 'min', 'sum') for c in cols):
                    raise Inconclusive('SQL aggregate')
                rows.append(mk('tuple', *[self.value(c, sel.table, r) for c in cols]))
            out.append((rows, s))
        return out

    # ---------------------------------------------------------------- hooks
    def params(self, e, args, kw, st):
        if len(args) < 2:
            return []
        t = e.snap(args[1], st)
        if t.op in ('tuple',):
            return list(t.a)
        if t.op == 'list' and all(x.op == 'item' for x in t.a):
            return [x.a[0] for x in t.a]
        if t.op == 'dict' and all(x.op == 'kv' and is_const(x.a[0]) for x in t.a):
            return {cval(x.a[0]): x.a[1] for x in t.a}
        return None

    def run(self, e, recv, text, params, st, node):
        if text.op != 'const' or not isinstance(cval(text), str):
            raise Inconclusive(f'SQL text {text!r}'[:150])
        self.db = recv
        self.e = e
        try:
            stmt = parse(cval(text), params)
        except WrongParameters:
            e.raise_(mk('exc', 'sqlite3.ProgrammingError', 'Incorrect number of bindings supplied.'), st, node)
            return None
        for x in params.values() if isinstance(params, dict) else params or ():
            if x.op in ('@rel', 'list', 'dict', 'set', 'tuple'):
                e.raise_(mk('exc', 'sqlite3.ProgrammingError', f'type of {x!r} is not supported'), st, node)
                return None
        self.statements.append(stmt)
        if isinstance(stmt, Create) and stmt.what == 'table':
            self.schema.setdefault(stmt.name, list(stmt.columns))
        if isinstance(stmt, Select):
            if stmt.limit is not None and stmt.limit[0] == 'val' and is_const(stmt.limit[1]) and type(cval(stmt.limit[1])) is int and cval(stmt.limit[1]) >= 0 and not stmt.where:
                self.cuts[e.site(node)] = cval(stmt.limit[1])
            st.emit(Ev('query', '@select', (recv, text), site=e.site(node), x=stmt))
        else:
            st.emit(Ev('call', '@sql', (recv, text), site=e.site(node), x=stmt))
        if type(stmt).__name__.lower() in self.failing or 'all' in self.failing:
            e.may_raise(('sqlite3.Error',), st, node, mk('call', '@sql', (recv, text, const(len(self.statements))), ()))
        return stmt

    def cursor(self, e, rows, st):
        return e.new_container('list', [('item', r) for r in rows], st)

    def execute(self, e, recv, args, kw, st, node):
        if not (recv.op == 'call' and recv.a[0] == DB):
            return None
        stmt = self.run(e, recv, args[0], self.params(e, args, kw, st), st, node)
        if stmt is None:
            return []
        if isinstance(stmt, Select):
            return [(self.cursor(e, rows, s), s) for rows, s in self.select(e, stmt, st, node)]
        return [(self.cursor(e, [], st), st)]

    def executemany(self, e, recv, args, kw, st, node):
        if not (recv.op == 'call' and recv.a[0] == DB):
            return None

        def body(v, s):
            return [('next', None, s)] if self.run(e, recv, args[0], self.params(e, [args[0], v], {}, s), s, node) is not None else []
        return [(self.cursor(e, [], s), s) for k, v, s in e.iterate(args[1], st, body, node) if k in ('exhausted', 'next')]

    def executescript(self, e, recv, args, kw, st, node):
        if not (recv.op == 'call' and recv.a[0] == DB):
            return None
        if not is_const(args[0]):
            raise Inconclusive('SQL script')
        for part in cval(args[0]).split(';'):
            if part.strip() and self.run(e, recv, const(part), [], st, node) is None:
                return []
        return [(self.cursor(e, [], st), st)]

    def fetchall(self, e, recv, args, kw, st, node):
        return [(recv, st)]

    def fetchmany(self, e, recv, args, kw, st, node):
        h = e.hobj(recv, st)
        n = args[0] if args else kw.get('size', const(1))
        if h is None or h.kind != 'list' or any(x[0] != 'item' for x in h.data) or len(st.loops) > h.loops or not is_const(n) or type(cval(n)) is not int:
            return None
        if h.data:
            self.cuts[e.site(node)] = cval(n)
        else:
            self.cuts.pop(e.site(node), None)       # asked until there is nothing left
        st.heap[recv.a[0]] = h.with_data(h.data[cval(n):])
        return [(self.cursor(e, [x[1] for x in h.data[:cval(n)]], st), st)]

    def fetchone(self, e, recv, args, kw, st, node):
        h = e.hobj(recv, st)
        if h is None or h.kind != 'list' or any(x[0] != 'item' for x in h.data) or len(st.loops) > h.loops:
            return None
        if not h.data:
            return [(NONE, st)]
        st.heap[recv.a[0]] = h.with_data(h.data[1:])
        return [(h.data[0][1], st)]

    def connect(self, e, args, kw, st, node):
        """Connections are read-only exactly when opened by an URI with mode=ro."""
        target = args[0] if args else kw.get('database')
        uri = kw.get('uri', FALSE)
        if uri is not TRUE and starts_with(e.snap(target, st), 'file:'):
            e.raise_(mk('exc', 'sqlite3.OperationalError', 'unable to open database file'), st, node)
            return []
        t = mk('call', DB, (e.snap(target, st), uri), ())
        auto = kw.get('isolation_level') is NONE or kw.get('autocommit') is TRUE
        st.emit(Ev('call', '@connect', (e.snap(target, st), uri) + ((const('auto'),) if auto else ()), site=e.site(node), res=t))
        if 'connect' in self.failing or 'all' in self.failing:
            e.may_raise(('sqlite3.Error',), st, node, t)
        return [(t, st)]

    def simple(self, name):
        def hook(e, recv, args, kw, st, node):
            if recv.op == 'call' and recv.a[0] == DB:
                st.emit(Ev('call', '@' + name, (recv,), site=e.site(node)))
                if name in self.failing or 'all' in self.failing and name == 'commit':
                    e.may_raise(('sqlite3.Error',), st, node, mk('call', '@sql:' + name, (recv,), ()))
                return [(recv if name == 'cursor' else NONE, st)]
        return hook

    def options(self):
        return dict(
            xhooks={'sqlite3.connect': self.connect},
            ohooks={'fetchall': self.fetchall, 'fetchone': self.fetchone, 'fetchmany': self.fetchmany},
            mhooks={'execute': self.execute, 'executemany': self.executemany, 'executescript': self.executescript, 'commit': self.simple('commit'), 'rollback': self.simple('rollback'),
                    'close': self.simple('close'), 'cursor': self.simple('cursor')})


def starts_with(t, text):
    while t.op in ('cat', 'path') and t.a:
        t = t.a[0]
    if t.op == 'mcall' and t.a[1] == 'as_uri':
        return 'file:'.startswith(text)
    return is_const(t) and isinstance(cval(t), str) and cval(t).startswith(text)


def writable(db):
    """Is this connection (term) able to change the database?  True / False / None"""
    target, uri = db.a[1]
    if uri is not TRUE:
        return True
    parts = target.a if target.op == 'cat' else (target,)
    last = parts[-1]
    if not (is_const(last) and isinstance(cval(last), str)):
        return None
    m = re.search(r'[?&]mode=(\w+)', cval(last))
    return not (m and m.group(1) == 'ro') and not re.search(r'[?&]immutable=1', cval(last))
