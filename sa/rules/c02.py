"""Scenario-complete abstract interpretation of archive verification: member
names, manifest keys and metadata keys are fixed per scenario, contents, hashes
and times stay symbolic.  No accepting path may exist for a scenario that
breaks one condition; on every accepting path of a sound archive the listed
hash of each member has been compared with the hash of that member's own
content and the freeze time with the present."""
from ..std import *
from ..terms import *
from ..zipworld import ZipWorld, on_archive

KEYS = ('meta_version', 'kind', 'freeze_time', 'freeze_name', 'inputs')
META, MANIFEST = ZipWorld.META, ZipWorld.MANIFEST
LISTED = [META, 'code/a', 'data/d', 'data/x/y', 'code/.h/b']
TS = 'bead.tech.timestamp.'
INVALID = 'bead.exceptions.InvalidArchive'
OPT = dict(stops=HASH, excs={'KeyError', INVALID, 'LookupError'})


def H(n):
    return sym('H:' + n)


def meta(without=None):
    return {k: sym('meta:' + k) for k in KEYS if k != without}


def run(c, names, manifest, m, **kw):
    w = ZipWorld(names, m, None if manifest is None else {n: H(n) for n in manifest})
    return c.run(on_archive(c, 'validate'), **{**OPT, **w.options(), **kw})


def refused(c, what, paths):
    for p in paths:
        if p.kind == 'return':
            c.violation('ZipArchive.validate', f'an archive with {what} is accepted', p.trace)
            return
        if p.kind == 'raise' and not c.a.exc_matches(p.value, INVALID) is True:
            c.violation('ZipArchive.validate', f'an archive with {what} is not reported as invalid archive but fails with {p.value!r}',
                        p.trace)
            return
    c.ok(len(paths), f'{what}: no accepting path among {len(paths)}')


def meta_fields(c):
    names = LISTED + [MANIFEST]
    for k in KEYS:
        refused(c, f'metadata without {k}', run(c, names, LISTED, meta(k)))
    refused(c, 'unreadable metadata', run(c, names, LISTED, None))
    refused(c, 'unreadable manifest', run(c, names, None, meta()))
    refused(c, 'no manifest', run(c, LISTED, LISTED, meta()))


EXTRA = ['code/zz', 'data/zz', 'data/x/zz', 'code/.zz', 'data/.x/z', 'code/meta/bead', 'data/meta/manifest', 'data/bead',
         'code/manifest', 'code/a.py', 'data/d.tmp', 'code/__pycache__/x', 'data/~',
         'data/zz/', 'code/x/zz/']


def extra_members(c):
    n = len(LISTED)
    for x in EXTRA:
        for at in (0, n // 2, n) if c.thorough else (0, n):
            names = LISTED[:at] + [x] + LISTED[at:] + [MANIFEST]
            refused(c, f'member {x} (position {at}) that is not in the manifest', run(c, names, LISTED, meta()))
    for x in LISTED:
        refused(c, f'member {x} that is not in the manifest',
                run(c, LISTED + [MANIFEST], [y for y in LISTED if y != x], meta()))
    refused(c, 'an empty manifest', run(c, LISTED + [MANIFEST], [], meta()))
    refused(c, 'an empty manifest and metadata only', run(c, [META, MANIFEST], [], meta()))


def missing_members(c):
    for gone in ('code/gone', 'data/gone', 'data/x/gone', 'other/gone'):
        for man in ([gone] + LISTED, LISTED + [gone]):
            refused(c, f'listed member {gone} that does not exist', run(c, LISTED + [MANIFEST], man, meta()))
    for gone in LISTED[1:]:
        refused(c, f'listed member {gone} that does not exist',
                run(c, [x for x in LISTED if x != gone] + [MANIFEST], LISTED, meta()))


def is_hash_of(t, n):
    if t.op != 'call' or t.a[0] not in (SECUREHASH + '.file', SECUREHASH + '.bytes') or not t.a[1]:
        return False
    return t.a[1][0] in (sym('stream:' + n), sym('bytes:' + n))


def mentions_hash_of(t, n):
    return any(x.op == 'sym' and x.a[0] in ('stream:' + n, 'bytes:' + n) for x in walk(t))


def hashes(c):
    names = LISTED + ['other/listed', 'other/z', MANIFEST]
    listed = LISTED + ['other/listed']
    paths = run(c, names, listed, meta())
    good = [p for p in paths if p.kind == 'return']
    c.anchor(good, 'no archive is ever accepted by validate')
    for p in good:
        lits = p.lits()
        for n in listed:
            status = None
            for l, v in lits.items():
                if not contains(l, H(n)):
                    continue
                if l.op == 'cmp' and l.a[0] == '==' and v and H(n) in l.a[1:3] and any(
                        is_hash_of(x, n) for x in l.a[1:3]):
                    status = 'ok'
                    break
                if any(x.op == 'slice' or x.op == 'mcall' and x.a[1] in ('startswith', 'endswith') or
                       x.op == 'cmp' and x.a[0] == 'in' for x in walk(l)):
                    continue        # weaker than equality
                if any(mentions_hash_of(x, n) for x in walk(l) if x.op in ('call', 'mcall', 'sym')):
                    status = status or l
            if status == 'ok':
                c.ok(1, f'{n}: listed hash compared with the hash of its own content')
            elif status is None:
                c.violation('ZipArchive.validate', f'accepts without comparing the listed hash of member {n} with the hash of its content',
                            p.trace)
            else:
                c.inconclusive(f'unrecognised comparison of a content hash: {status!r}')
    for p in paths:
        if p.kind == 'raise' and c.a.exc_matches(p.value, INVALID) is not True:
            c.violation('ZipArchive.validate', f'fails with {p.value!r} instead of reporting an invalid archive', p.trace)
    # the manifest itself is not hashed, but the member content must be read whole
    for p in good:
        for l in p.lits():
            for x in walk(l):
                if x.op == 'call' and x.a[0] in (SECUREHASH + '.file', SECUREHASH + '.bytes'):
                    n = next((m for m in listed if mentions_hash_of(x, m)), None)
                    if n is not None and x.a[1][0] not in (sym('stream:' + n), sym('bytes:' + n)):
                        a = x.a[1][0]
                        if a.op in ('slice', 'idx') or any(y.op in ('slice',) for y in walk(a)):
                            c.violation('ZipArchive.validate', f'only part of the content of {n} is hashed: {a!r}', p.trace)


FT = sym('meta:freeze_time')


def is_now(t):
    if t.op != 'call':
        return False
    if t.a[0] in (TS + 'time_from_timestamp', TS + 'parse_iso8601') and t.a[1]:
        return t.a[1][0].op == 'call' and t.a[1][0].a[0] == TS + 'timestamp'
    return t.a[0] in ('datetime.datetime.now', 'datetime.datetime.utcnow')


def is_freeze_time(t):
    return t.op == 'call' and t.a[0] in (TS + 'time_from_timestamp', TS + 'parse_iso8601') and t.a[1][:1] == (FT,)


LOSSY = ('replace', 'date', 'time', 'timetuple', 'strftime', 'isoformat', 'ctime', 'toordinal', 'weekday')
KEEPING = ('astimezone', 'timestamp')


def instant(t):
    """(time, what is lost from it)"""
    lost = None
    while t.op == 'mcall' and t.a[1] in LOSSY + KEEPING:
        if t.a[1] in LOSSY:
            lost = t.a[1]
        t = t.a[0]
    return t, lost


def freeze_time(c):
    good = [p for p in run(c, LISTED + [MANIFEST], LISTED, meta()) if p.kind == 'return']
    c.anchor(good, 'no archive is ever accepted by validate')
    for p in good:
        odd = weak = None
        found = False
        for l, v in p.lits().items():
            if not contains(l, FT):
                continue
            if l.op == 'cmp' and l.a[0] == '<':
                (a, la), (b, lb) = instant(l.a[1]), instant(l.a[2])
                if is_now(a) and is_freeze_time(b) or is_freeze_time(a) and is_now(b):
                    if la or lb:
                        weak = l
                        continue
                if is_now(a) and is_freeze_time(b) and v is False or is_freeze_time(a) and is_now(b) and v is True:
                    found = True
                    continue
                if is_freeze_time(a) and is_now(b) and v is False or is_now(a) and is_freeze_time(b) and v is True:
                    continue
                if any(x.op == 'bin' and any(is_now(y) for y in x.a[1:]) and x.a[0] == '+' for x in walk(l)) and any(
                        is_freeze_time(x) for x in (a, b)):
                    c.violation('ZipArchive.validate', f'freeze times in the future are accepted: {l!r} is {v}', p.trace)
                    continue
                if {a, b} & {FT}:
                    c.violation('ZipArchive.validate', f'freeze time is compared as text: {l!r}', p.trace)
                    continue
            odd = l
        if found:
            c.ok(1, 'accepted only when the freeze time is not after the present')
        elif weak is not None:
            c.violation('ZipArchive.validate', f'does not compare the freeze time as an instant with the present: {weak!r}', p.trace)
        elif odd is not None:
            c.inconclusive(f'unrecognised condition on the freeze time {odd!r}')
        else:
            c.violation('ZipArchive.validate', 'accepts without comparing the freeze time with the present', p.trace)


def failures(c):
    """Whatever goes wrong while reading the members, it is an invalid archive."""
    w = ZipWorld(LISTED + [MANIFEST], meta(), {n: H(n) for n in LISTED})
    cls = c.a.lookup_qual(ARCHIVE)

    def reading(e, qual, sargs, st, node):
        e.raise_(mk('exc', 'zipfile.BadZipFile', 'damaged content'), st.fork(), node)
        e.raise_(mk('exc', 'AssertionError', 'size differs'), st.fork(), node)
        e.raise_(mk('exc', 'zlib.error', 'damaged content'), st.fork(), node)
        return [(mk('call', qual, sargs, ()), st)]
    paths = c.run(on_archive(c, 'validate'), **{**OPT, **w.options(), 'stops': {
        SECUREHASH + '.file': reading, SECUREHASH + '.bytes': reading}})
    n = 0
    for p in paths:
        if p.kind == 'raise':
            n += 1
            c.require(c.a.exc_matches(p.value, INVALID) is True, 'ZipArchive.validate',
                      f'damaged content makes verification fail with {p.value!r} instead of reporting an invalid archive', p.trace)


def check(c):
    c.rule('metadata', 'archives without a required metadata field, or without readable metadata and manifest are refused',
           meta_fields, args=(c,))
    c.rule('extra-members', 'members below code and data and the metadata have to be listed', extra_members, args=(c,))
    c.rule('missing-members', 'listed members have to exist', missing_members, args=(c,))
    c.rule('hashes', 'every accepting path compares every listed hash with the hash of that member', hashes, args=(c,))
    c.rule('freeze-time', 'every accepting path has freeze time <= now', freeze_time, args=(c,))
    c.rule('failures', 'damage found while reading is reported as invalid archive', failures, args=(c,))
    c.assumptions = ['content hashing itself is decided by C03', 'zipfile.ZipFile reports the members of the archive']
