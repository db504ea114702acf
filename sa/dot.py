"""The structure of a drawing in the DOT language: nodes with the rows of their HTML
labels, and the connections between ports, followed through helper nodes."""
import html.parser
import re

from .terms import *
from .texts import parts

TOKEN = re.compile(r'\s+|//[^\n]*|/\*.*?\*/|#[^\n]*(?=\n)|(?P<q>"(?:\\.|[^"\\])*")|(?P<arrow>->|--)|(?P<p>[\[\]{};,=:])|(?P<id>[^\s\[\]{};,=:"<>]+?(?=->|[\s\[\]{};,=:"<>]|$))', re.S)


class BadDot(Exception):
    pass


def render(t):
    """text, with what is not known as «term»"""
    return ''.join(p if isinstance(p, str) else '«%s»' % re.sub('[^ -~]|["<>&\\\\]', '', repr(p.term)) for p in parts(t))


def tokens(text):
    i, out = 0, []
    while i < len(text):
        if text[i] == '<':
            depth, j = 0, i
            while j < len(text):
                depth += (text[j] == '<') - (text[j] == '>')
                j += 1
                if not depth:
                    break
            else:
                raise BadDot('an HTML text is not closed')
            out.append(('html', text[i + 1:j - 1]))
            i = j
            continue
        m = TOKEN.match(text, i)
        if not m or m.end() == i:
            raise BadDot(f'unexpected {text[i:i + 20]!r}')
        i = m.end()
        if m['q'] is not None:
            out.append(('id', re.sub(r'\\(.)', lambda k: k[1] if k[1] in '"\\' else k[0], m['q'][1:-1], flags=re.S)))
        elif m['arrow']:
            out.append(('op', m['arrow']))
        elif m['p']:
            out.append(('op', m['p']))
        elif m['id']:
            out.append(('id', m['id']))
    return out


class Drawn:
    def __init__(self, text):
        self.nodes = {}         # name: [attributes]
        self.links = []         # ((node, port), (node, port), attributes)
        self.t = tokens(text)
        self.i = 0
        self.graph()

    def peek(self, v):
        return self.i < len(self.t) and self.t[self.i] == ('op', v)

    def take(self, v):
        if self.peek(v):
            self.i += 1
            return True

    def word(self):
        if self.i >= len(self.t) or self.t[self.i][0] == 'op':
            raise BadDot(f'unexpected {self.t[self.i:self.i + 1]}')
        self.i += 1
        return self.t[self.i - 1][1]

    def attributes(self):
        out = {}
        while self.take('['):
            while not self.take(']'):
                k = self.word()
                if self.take('='):
                    out[k.lower()] = self.word()
                else:
                    out[k.lower()] = 'true'
                self.take(',') or self.take(';')
        return out

    def place(self):
        n = self.word()
        port = self.word() if self.take(':') else None
        if self.take(':'):
            self.word()
        return n, port

    def graph(self):
        while self.i < len(self.t) and not self.peek('{'):
            if self.word() == 'graph':
                raise BadDot('not directed')
        self.body()
        if self.i != len(self.t):
            raise BadDot('text after the graph')

    def body(self):
        if not self.take('{'):
            raise BadDot('no body')
        defaults = {}
        while not self.take('}'):
            if self.i >= len(self.t):
                raise BadDot('the graph is not closed')
            if self.take(';'):
                continue
            if self.peek('{'):
                self.body()
                continue
            at = self.place()
            if at[1] is None and at[0].lower() == 'subgraph':
                if not self.peek('{'):
                    self.word()
                self.body()
                continue
            if at[1] is None and at[0].lower() in ('node', 'edge', 'graph') and self.peek('['):
                defaults.setdefault(at[0].lower(), {}).update(self.attributes())
                continue
            if self.take('='):
                self.word()
                continue
            chain = [at]
            while self.take('->'):
                chain.append(self.place())
            if self.peek('--'):
                raise BadDot('undirected connection')
            a = self.attributes()
            if len(chain) == 1:
                self.nodes.setdefault(at[0], []).append({**defaults.get('node', {}), **a})
            for x, y in zip(chain, chain[1:]):
                self.links.append((x, y, {**defaults.get('edge', {}), **a}))

    def rows(self, name):
        """[(ports, texts, colours)] of the label"""
        label = ''.join(a.get('label', '') for a in self.nodes[name])
        return Rows(label).rows

    def connections(self):
        """[(from, to, [labels])] between places which are not helper nodes"""
        out = {}
        for x, y, a in self.links:
            out.setdefault(x, []).append((y, a))
        helper = {n for n, a in self.nodes.items() if not any('<' in k.get('label', '') for k in a)}
        got = []

        def follow(start, at, labels, seen):
            for y, a in out.get(at, ()):
                more = labels + [(a[k], a) for k in ('label', 'xlabel', 'headlabel', 'taillabel') if a.get(k)]
                if y[0] in helper and y not in seen:
                    h = [k['label'] for k in self.nodes[y[0]] if k.get('label')]
                    follow(start, y, more + [(k, a) for k in h], seen | {y})
                elif y[0] not in helper:
                    got.append((start, y, more))
        for x in list(out):
            if x[0] not in helper:
                follow(x, x, [], frozenset())
        return got


class Rows(html.parser.HTMLParser):
    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.rows = []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        if tag == 'tr':
            self.rows.append(([], [], []))
        elif self.rows:
            a = dict(attrs)
            if a.get('port'):
                self.rows[-1][0].append(a['port'])
            if tag == 'td' and a.get('bgcolor'):
                self.rows[-1][2].append(a['bgcolor'])

    handle_startendtag = handle_starttag

    def handle_data(self, data):
        if self.rows and data.strip():
            self.rows[-1][1].append(data.strip())
