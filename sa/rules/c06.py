"""Field by field comparison of provenance terms: the metadata member written
by saving (workspace metadata with several inputs, every field a distinct
unknown value), the archive file name chosen by the box, the attributes and
input records reported by an archive and by a workspace, and the workspace
metadata written when an archive is unpacked for editing."""
from .. import save
from ..save import *
from ..engine import Ev
from ..zipworld import ZipWorld, on_archive

META_VERSION = const('aaa947a6-1f7a-11e6-ba3a-0021cc73492e')
FIELDS = ('kind', 'content_id', 'freeze_time')
NAMES = ['code/a', 'data/b', 'meta/bead', 'meta/manifest']


def opaque(t):
    return any(x.op in ('ocall', 'phi', 'lv', 'elem') for x in walk(t))


def same(c, what, got, want, trace):
    if got is want:
        c.ok(1, f'{what} = {want!r}')
    elif got is None:
        c.violation(what, 'is missing', trace)
    elif opaque(got) or got.op in ('comp', 'idx') and contains(got, want) and not any(
            x.op == 'mcall' and x.a[1] in STR_OPS for x in walk(got)):
        c.inconclusive(f'{what}: {got!r}'[:300])
    else:
        c.violation(what, f'is {got!r} and not {want!r}'[:400], trace)


def check_inputs(c, what, d, trace):
    known = items(d) if d is not None and d.op == 'dict' else None
    if known is None:
        if d is not None and (d.op in ('const', 'sym') or d.op == 'list'):
            c.violation(f'inputs in {what}', f'are {d!r}', trace)
        else:
            c.inconclusive(f'inputs in {what}: {d!r}'[:300])
        return
    for n in NICKS:
        rec = known.pop(const(n), None)
        if rec is None or rec.op != 'dict' or items(rec) is None:
            if rec is None:
                c.violation(f'input {n} in {what}', 'is missing', trace)
            else:
                same(c, f'input {n} in {what}', rec, TRUE, trace)
            continue
        r = items(rec)
        for f in FIELDS:
            same(c, f'{f} of input {n} in {what}', r.get(const(f)), field(n, f), trace)
    for k in known:
        c.violation(f'inputs in {what}', f'have unexpected {k!r}', trace)


def edited(_):
    """metadata of a workspace that was made of an archive"""
    m = save.metadata()
    m.update(freeze_time=sym('meta:freeze_time'), freeze_name=sym('meta:freeze_name'), meta_version=sym('meta:meta_version'))
    return m


def writer(c, meta=None):
    w, paths = save.run(c, meta=meta and meta(None))
    n = 0
    for p in paths:
        if p.kind != 'return':
            continue
        st = [s for s in stores(p.trace) if s[0] is const('meta/bead')]
        if not st:
            c.violation('archive made by saving', 'has no metadata', p.trace)
            continue
        n += 1
        d = json_dict(st[-1][1][1])
        known = items(d) if d is not None else None
        if known is None:
            c.inconclusive(f'metadata written {st[-1][1][1]!r}'[:300])
            continue
        what = 'metadata of the saved archive'
        for k, v in dict(kind=sym('meta:kind'), freeze_time=FREEZE_TIME, freeze_name=attr(ROOT, 'name'),
                         meta_version=META_VERSION).items():
            same(c, f'{k} in {what}', known.get(const(k)), v, p.trace)
        check_inputs(c, what, known.get(const('inputs')), p.trace)
    c.require(any(p.kind == 'return' for p in paths), 'saving a valid workspace', 'always fails', paths[0].trace)


def file_name(c):
    box, ft = sym('box'), FREEZE_TIME
    f = c.func(BOX + '.store')

    def prep(e, st):
        pass
    paths = c.run(f, [WSP, ft], selfT=box, types={box: BOX, WSP: WORKSPACE}, excs=set(),
                  stops={WORKSPACE + '.pack': 'stop'})
    d = c.run(c.func(BOX + '.directory'), [], selfT=box, types={box: BOX}, excs=set())[0].value
    want = path((d, cat([attr(ROOT, 'name'), const('_'), ft, const('.zip')])))
    n = 0
    for p in paths:
        for ev in events(p.trace):
            if ev.kind == 'call' and ev.fn == WORKSPACE + '.pack':
                n += 1
                same(c, 'file name of the saved archive', ev.arg(1, 'zipfilename'), want, p.trace)
                same(c, 'freeze time in the saved archive', ev.arg(2, 'freeze_time'), ft, p.trace)
                same(c, 'workspace saved', ev.args[0], WSP, p.trace)
        if p.kind == 'return' and n:
            same(c, 'location reported by saving', p.value, want, p.trace)
    c.require(n, 'saving into a box', 'does not save the workspace', paths[0].trace)
    # the command passes a single time stamp
    from ..cli import run_command
    for p in run_command(c, 'save', {BOX + '.store': 'stop', 'bead.tech.timestamp.timestamp': 'pure', WORKSPACE + '.is_valid': 'pure'},
                         excs=set()):
        for ev in events(p.trace):
            if ev.kind == 'call' and ev.fn == BOX + '.store':
                t = ev.arg(2, 'freeze_time')
                if t.op == 'call' and t.a[0] == 'bead.tech.timestamp.timestamp' and not t.a[1]:
                    c.ok()
                elif is_const(t) or t.op == 'attr':
                    c.violation('freeze time of a save', f'is {t!r}', p.trace)


def archive_world():
    meta = {'kind': sym('meta:kind'), 'freeze_time': sym('meta:freeze_time'), 'freeze_name': sym('meta:freeze_name'),
            'meta_version': META_VERSION}
    return ZipWorld(NAMES, meta, {n: sym('H:' + n) for n in NAMES[:3]})


def with_inputs(w):
    """metadata with nested input records"""
    def load(e, args, kw, st, node):
        from ..zipworld import member_of
        if args and member_of(args[0]) == w.META:
            d = dict(w.meta)
            d['inputs'] = metadata()['inputs']
            return [(container(e, d, st), st)]
        return w.json_load(e, args, kw, st, node)
    o = w.options()
    o['xhooks']['json.load'] = o['xhooks']['json.loads'] = load
    return o


def records(e, v, s):
    """-> list of (attribute values | None)"""
    xs = list(v.a) if v.op == 'tuple' else e.finite_list(v, s)
    if xs is None:
        return None
    out = []
    for x in xs:
        row = []
        for f in ('name', 'kind', 'content_id', 'freeze_time_str'):
            r = e.get_attr(x, f, s)
            row.append(e.snap(r[0][0], s) if len(r) == 1 else None)
        out.append(mk('tuple', *[x or NONE for x in row]))
    return mk('tuple', *out)


def inputs_of(open_it):
    def script(e, st):
        outs = []
        for o, s in open_it(e, st):
            for v, s2 in e.get_attr(o, 'inputs', s):
                r = records(e, v, s2)
                outs.append((r if r is not None else mk('ocall', v, (), ()), s2))
        return outs
    return script


def plain(t):
    """str / NewType style wrappers do not change the value"""
    while t.op == 'call' and t.a[0] in ('builtins.str', 'bead.meta.InputName', 'bead.meta.BeadName') and len(t.a[1]) == 1:
        t = t.a[1][0]
    return t


def readable(c, paths, what):
    c.require(any(p.kind == 'return' for p in paths), what, 'can never be read', paths[0].trace)


def reader(c):
    w = archive_world()
    opts = with_inputs(w)
    for a, want in dict(kind=sym('meta:kind'), freeze_time_str=sym('meta:freeze_time')).items():
        paths = c.run(on_archive(c, a, get=True), stops=HASH, excs=set(), **opts)
        for p in paths:
            if p.kind == 'return':
                same(c, f'{a} of an archive', p.value, want, p.trace)
        readable(c, paths, f'{a} of an archive')
    cls = c.a.lookup_qual(ARCHIVE)
    n = 0
    for what, script, o in (
            ('archive', inputs_of(lambda e, st: e.call(cls, [w.file], [], st, None)), opts),
            ('workspace', inputs_of(lambda e, st: [(WSP, st)]), None)):
        if o is None:
            def loads(e, args, kw, st, node):
                if args and contains(args[0], ROOT):
                    return [(container(e, metadata(), st), st)]
            o = dict(xhooks={'json.load': loads, 'json.loads': loads})
        paths = c.run(script, types={WSP: WORKSPACE}, stops=HASH, excs=set(), **o)
        readable(c, paths, f'inputs of a {what}')
        for p in paths:
            if p.kind != 'return':
                continue
            n += 1
            if p.value.op != 'tuple':
                c.inconclusive(f'inputs of an {what}: {p.value!r}'[:200])
                continue
            got = {plain(r.a[0]): r for r in p.value.a}
            for nick in NICKS:
                r = got.pop(const(nick), None)
                if r is None:
                    c.violation(f'input {nick} of an {what}', 'is missing', p.trace)
                    continue
                for f, v in zip(FIELDS, r.a[1:]):
                    same(c, f'{f} of input {nick} of an {what}', plain(v), field(nick, f), p.trace)
            for k in got:
                c.violation(f'inputs of an {what}', f'have unexpected {k!r}', p.trace)
    # kind of the workspace
    for p in c.run(lambda e, st: e.get_attr(WSP, 'kind', st), types={WSP: WORKSPACE}, excs=set(), **o):
        if p.kind == 'return':
            same(c, 'kind of a workspace', p.value, sym('meta:kind'), p.trace)


def written_meta(trace):
    """JSON dictionaries written on a trace"""
    out = []
    for ev in events(trace):
        if ev.kind in ('call', 'query') and ev.fn in ('json.dump', 'json.dumps') and ev.args and ev.args[0].op == 'dict':
            out.append(ev.args[0])
    return out


def edit(c):
    w = archive_world()
    opts = with_inputs(w)
    n = 0
    for p in c.run(on_archive(c, 'unpack_to', [WSP]), types={WSP: WORKSPACE}, excs=set(), stops=dict(HASH, **EXTRACT, **{
            FS + '.make_readonly': 'stop', FS + '.make_writable': 'stop', FS + '.ensure_directory': 'stop'}), **opts):
        if p.kind != 'return':
            continue
        n += 1
        ds = written_meta(p.trace)
        if not ds:
            c.violation('workspace created by edit', 'gets no metadata', p.trace)
            continue
        known = items(ds[-1])
        if known is None:
            c.inconclusive(f'metadata of the edited workspace {ds[-1]!r}'[:300])
            continue
        same(c, 'kind of the edited workspace', known.get(const('kind')), sym('meta:kind'), p.trace)
        check_inputs(c, 'the edited workspace', known.get(const('inputs')), p.trace)
    c.require(n, 'unpacking an archive for edit', 'always fails')
    for p in c.run(c.func(WORKSPACE + '.create'), [sym('kind')], selfT=WSP, types={WSP: WORKSPACE}, excs=set(), stops={
            FS + '.make_readonly': 'stop', FS + '.ensure_directory': 'stop'}):
        if p.kind == 'return':
            ds = [items(d) for d in written_meta(p.trace)]
            if not ds or ds[-1] is None:
                c.violation('created workspace', 'gets no metadata', p.trace)
                continue
            same(c, 'kind of the created workspace', ds[-1].get(const('kind')), sym('kind'), p.trace)
            i = ds[-1].get(const('inputs'))
            if i is not None and i.op == 'dict' and not i.a:
                c.ok()
            else:
                same(c, 'inputs of the created workspace', i, mk('dict'), p.trace)


def check(c):
    c.rule('writer', 'metadata written by saving has every field of the workspace', writer)
    c.rule('writer of edited', 'metadata written by saving an edited bead has every field of the workspace', writer, args=(c, edited))
    c.rule('file-name', 'name_freezetime.zip in the directory of the box', file_name)
    c.rule('reader', 'archive and workspace report the fields from where they are written', reader)
    c.rule('edit', 'editing recreates kind and inputs', edit)
    c.assumptions = ['JSON written by json.dump(s) is read back equal by json.load(s)']
