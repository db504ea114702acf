"""Effect analysis: every path of the read-only operations (status, box list,
version, reading and verifying archives, reading workspaces, every search and
terminal operation, resolving) is interpreted and every effect on it is
classified.  Without index there must be none; with an index only idempotent
schema statements (CREATE ... IF NOT EXISTS) on the index and SELECT are
allowed.  The classifier is shown to see effects on operations known to have
them on every run (positive control)."""
from ..boxsearch import Boxes, typed, location, FREEZE
from ..cli import run_command, ARGS, ENV, WS
from ..engine import Inconclusive
from ..flow import all_events, events, effects, WRITES
from ..sqlworld import Insert, Delete, Update, Select, Create, writable
from ..std import *
from ..terms import *
from ..terms import T
from .c16 import resolving, N, C, B

ARCHIVE_READ = ('name', 'kind', 'content_id', 'freeze_time_str', 'freeze_time', 'inputs', 'meta_version', 'freeze_name', 'location', 'is_valid')
WORKSPACE_READ = ('is_valid', 'kind', 'inputs', 'meta', 'name')
WORKSPACE_CALLS = ('has_input', 'is_loaded', 'get_input')
SEARCHES = [('by_name', N), ('by_kind', sym('kind')), ('by_content_id', C), ('at_time', sym('t')), ('newer_than', sym('t')), ('older_than', sym('t')),
            ('at_or_newer', sym('t')), ('at_or_older', sym('t')), ('unique', None), (None, None)]
ENDS = ('all', 'first', 'newest', 'oldest', 'newer', 'older')


class Unlisted(Boxes):
    """nothing is known of the files of the box: neither their number nor names"""

    def glob(self, e, recv, args, kw, st, node):
        return None


def worlds(kind):
    args = {'A': kind}, {'A': [sym('file')]}, {'beads': ['b1'], 'inputs': ['i1']}
    return [Boxes(*args), Unlisted(*args)]


def changes(ev):
    """what this event changes, in words (or nothing)"""
    if ev.fn == '@sql':
        conn, s = ev.args[0], ev.x
        if isinstance(s, Create) and s.ifnot:
            return []
        if type(s).__name__ == 'Other' and s.verb in ('pragma', 'begin', 'end', 'explain'):
            return [] if '=' not in s.text else [f'changes a setting of the database: {s.text}']
        return [f'changes the database: {" ".join(str(cval(ev.args[1])).split())}'[:160]]
    if ev.fn == '@select':
        return [] if writable(ev.args[0]) is False else ['queries the database over a connection that is not read-only']
    if ev.fn == '@connect':
        return []
    return [f'{ef.kind} {ef.path!r}'[:160] for ef in effects(ev) if ef.kind not in ('connect', 'sql') or ef.kind == 'connect' and ev.fn == 'sqlite3.connect']


def quiet(c, what, paths, indexed=False):
    paths = list(paths)
    if not paths:
        raise Inconclusive(f'{what} never finishes')
    for p in paths:
        bad = [(ev, w) for ev in events(p.trace) for w in changes(ev)]
        if not indexed:
            bad += [(ev, f'opens or creates a database at {ev.args[0]!r}'[:160]) for ev in events(p.trace) if ev.fn == '@connect' and writable(ev.res) is not False]
        c.require(not bad, what, bad and f'{bad[0][1]} ({bad[0][0].site})', p.trace)


STOPS = {**HASH, **SEARCH, PERSIST + '.file_load': 'pure'}


def control(c):
    """the classifier sees effects where there are some"""
    ws, q = sym('workspace'), WORKSPACE
    seen = {w.split()[0] for p in c.run(WORKSPACE + '.create', [sym('kind')], selfT=ws, excs=set()) for ev in events(p.trace) for w in changes(ev)}
    c.require(seen & {'write', 'mkdir'}, 'Workspace.create', 'no effect found: the classifier does not work')
    w = Boxes({'A': 'index'})

    def script(e, st):
        outs = []
        for b, s in e.call(e.lookup_qual('bead.box_index.BoxIndex'), [location('A')], [], st, None):
            outs.extend(Boxes.method(e, b, 'index_archive_file', [path((location('A'), sym('f')))], s))
        return outs
    o = w.options(xhooks=typed({}, 'text'))
    o['stops'][ARCHIVE + '.validate'] = 'stop'
    seen = [w for p in c.run(script, **o) for ev in events(p.trace) for w in changes(ev)]
    c.require(any('INSERT' in w.upper() for w in seen), 'BoxIndex.index_archive_file', 'no change found: the classifier does not work')


def commands(c):
    quiet(c, 'bead status', run_command(c, 'status', STOPS, excs=set()))
    quiet(c, 'bead box list', run_command(c, 'box list', STOPS, excs=set()))
    quiet(c, 'bead version', run_command(c, 'version', STOPS, excs=set()))

    def env(e, st):
        outs = []
        f = e.lookup_qual('bead_cli.environment.Environment')
        for m, s in e.get_attr(f, 'from_dir', st):
            for v, s2 in e.call(m, [sym('config dir')], [], s, None):
                outs.extend(Boxes.method(e, v, 'get_boxes', [], s2))
        return outs
    quiet(c, 'reading the configuration', c.run(env, stops={BOX: 'pure', **STOPS}, excs=set()))


def archives(c):
    def make(e, st):
        return e.call(e.lookup_qual(ARCHIVE), [sym('file'), sym('box name')], [], st, None)

    def reader(n):
        def script(e, st):
            return [r for v, s in make(e, st) for r in e.get_attr(v, n, s)]
        return script

    def validating(e, st):
        return [r for v, s in make(e, st) for r in Boxes.method(e, v, 'validate', [], s)]
    k = c.a.lookup_qual(ARCHIVE)
    for n in ARCHIVE_READ:
        if c.a.class_lookup(ARCHIVE, n)[1] is not None or n in ('name', 'freeze_time_str'):
            quiet(c, f'archive.{n}', c.run(reader(n), stops=HASH, excs=set()))
    quiet(c, 'archive.validate', c.run(validating, stops=HASH, excs=None, exc_all=False))


def workspaces(c):
    def script(n, call):
        def f(e, st):
            outs = []
            for v, s in e.call(e.lookup_qual(WORKSPACE), [sym('folder')], [], st, None):
                for x, s2 in e.get_attr(v, n, s):
                    outs.extend(e.call(x, [sym('input')], [], s2, None) if call else [(x, s2)])
            return outs
        return f
    for n in WORKSPACE_READ + WORKSPACE_CALLS:
        if c.a.class_lookup(WORKSPACE, n)[1] is not None:
            quiet(c, f'workspace.{n}', c.run(script(n, n in WORKSPACE_CALLS), stops=HASH, excs=set()))


def searches(c):
    for kind in ('raw', 'index'):
        for m, arg in SEARCHES:
            for end in ENDS:
                if m not in (None, 'by_name', 'at_time') and end != 'all':
                    continue
                for multi in (False, True):
                    if multi and end not in ('all', 'first'):
                        continue
                    chain = ([(m, [arg] if arg is not None else [])] if m else []) + [(end, [])]
                    label = '.'.join(x for x, _ in chain)
                    for w in worlds(kind):
                        o = w.options(xhooks=typed({sym('t'): 'time'}, 'text'))
                        quiet(c, f'search {label} in a box {"with" if kind == "index" else "without"} index{" (several boxes)" if multi else ""}',
                              c.run(w.search(chain, multi, lambda e, bs, v, s: [(NONE, s)]), **o), kind == 'index')


def resolve(c):
    for kind in ('raw', 'index'):
        for direct in (False, True):
            for w in worlds(kind):
                o = w.options(xhooks=typed({}, 'text'))
                quiet(c, f'resolving a bead in a box {"with" if kind == "index" else "without"} index', c.run(resolving(w, (), direct), **o), kind == 'index')


def check(c):
    c.rule('control', 'the effect classifier sees known effects', control)
    c.rule('commands', 'status, box list, version and reading the configuration have no effect', commands)
    c.rule('archives', 'reading and verifying an archive has no effect', archives)
    c.rule('workspaces', 'reading a workspace has no effect', workspaces)
    c.rule('searches', 'no search changes anything', searches)
    c.rule('resolve', 'resolving changes nothing', resolve)
