"""Term analysis of where kinds come from.  On every path on which creating a
bead goes on to make the workspace, the kind passed has to contain a random
(version 4) or time-and-machine based (version 1) universally unique identifier
that is drawn on that path (not once when the program is loaded), all of it, and
only through operations that keep different ones different (text, hexadecimal
digits, bytes, full digests, concatenation); the kind recorded in the metadata
has to be the very kind passed."""
from ..cli import run_command, ENV, ARGS
from ..engine import Inconclusive
from ..flow import events
from ..std import *
from ..terms import *
from ..terms import T

UUID = 'bead.tech.identifier.uuid'
RANDOM = ('uuid.uuid4', 'uuid.uuid1', 'uuid.uuid6', 'uuid.uuid7')
# (function, how many bytes are to be asked for)
BYTES = {'os.urandom': 16, 'secrets.token_bytes': 16, 'secrets.token_hex': 16, 'secrets.token_urlsafe': 16}
KEEPING = {'builtins.str', 'builtins.repr', 'builtins.bytes', 'builtins.hex', 'builtins.format', 'builtins.ascii', 'builtins.int',
           'base64.b64encode', 'base64.urlsafe_b64encode', 'base64.b32encode', 'base64.b16encode', 'binascii.hexlify',
           'hashlib.sha512', 'hashlib.sha256', 'hashlib.blake2b', 'hashlib.sha3_256', 'hashlib.sha384', 'hashlib.sha3_512', 'uuid.UUID'}
METHODS = {'hexdigest', 'digest', '__str__', '__repr__', 'hex', 'decode', 'encode', 'upper', 'lower', 'replace', 'strip', 'format', 'join'}
ATTRS = {'hex', 'bytes', 'bytes_le', 'int', 'urn', 'fields'}


def draws(t):
    """is the term a unique value"""
    if t.op != 'call':
        return False
    if t.a[0] in RANDOM:
        return not t.a[1] and not t.a[2]
    if t.a[0] in BYTES:
        n = t.a[1][0] if t.a[1] else NONE
        return is_const(n) and (cval(n) is None and t.a[0] != 'os.urandom' or isinstance(cval(n), int) and cval(n) >= BYTES[t.a[0]])
    return False


def kept(t):
    """-> unique values that can be told from the value of the term"""
    if not isinstance(t, T):
        return set()
    if draws(t):
        return {t}
    out = set()
    if t.op == 'cat':
        for x in t.a:
            for y in x if isinstance(x, tuple) else (x,):
                out |= kept(y)
    elif t.op == 'bin' and t.a[0] == '+':
        out = kept(t.a[1]) | kept(t.a[2])
    elif t.op == 'call' and t.a[0] in KEEPING:
        for x in t.a[1]:
            out |= kept(x)
    elif t.op == 'mcall' and t.a[1] in METHODS:
        out = kept(t.a[0])
        for x in t.a[2]:
            out |= kept(x)
    elif t.op == 'slice' and is_const(t.a[1]) and not cval(t.a[1]) and is_const(t.a[2]) and (cval(t.a[2]) is None or cval(t.a[2]) >= 32) and t.a[0].op == 'mcall' and t.a[0].a[1] == 'hexdigest':
        out = kept(t.a[0])                              # 128 bits
    elif t.op == 'attr' and t.a[1] in ATTRS:
        out = kept(t.a[0])
    elif t.op == 'tuple' or t.op == 'list':
        for x in t.a:
            out |= kept(x.a[0] if x.op == 'item' else x)
    elif t.op in ('fmt', 'format', 'str'):
        for x in t.a:
            out |= kept(x)
    return out


def drawn(c):
    n = 0
    for p in run_command(c, 'new', stops={WORKSPACE + '.create': 'stop'}, excs=set(), no_stop=[UUID]):
        now = set()
        for ev in events(p.trace):
            if ev.kind == 'call' and ev.res is not None and isinstance(ev.res, T) and draws(ev.res):
                now.add(ev.res)
            elif ev.kind == 'call' and (ev.fn in RANDOM or ev.fn in BYTES):
                now.add(mk('call', ev.fn, tuple(ev.args), tuple(ev.kw)))
            if ev.fn != WORKSPACE + '.create':
                continue
            kind = ev.arg(1, 'kind')
            n += 1
            got = kept(kind)
            if got & now:
                c.ok(what=f'kind: {kind!r}'[:150])
            elif got:
                c.violation('kind', f'the unique part of {kind!r} is not made when the bead is created'[:250], p.trace)
            elif any(x.op == 'call' and x.a[0] == '@remembered' for x in walk(kind)):
                c.violation('kind', f'the kind can be that made earlier: {kind!r}'[:250], p.trace)
            elif is_const(kind) or contains(kind, ARGS) or contains(kind, ENV):
                c.violation('kind', f'{kind!r} can be the kind of two beads'[:250], p.trace)
            elif any(draws(x) for x in walk(kind)):
                lossy = [x for x in walk(kind) if x.op in ('idx', 'slice') or x.op == 'bin' and x.a[0] in ('%', '//', '>>', '&')]
                if not lossy:
                    raise Inconclusive(f'kind {kind!r}'[:200])
                c.violation('kind', f'only a part of a unique value is in {kind!r}'[:250], p.trace)
            else:
                opaque = [x for x in walk(kind) if x.op in ('call', 'mcall') and x.a[0 if x.op == 'call' else 1] not in KEEPING | METHODS | WEAK]
                if opaque:
                    raise Inconclusive(f'kind {kind!r}'[:200])
                c.violation('kind', f'there is no unique value in {kind!r}'[:250], p.trace)
    if not n:
        raise Inconclusive('creating beads')


# values that repeat
WEAK = {'time.time', 'time.time_ns', 'datetime.datetime.now', 'datetime.datetime.utcnow', 'strftime', 'isoformat', 'timestamp', 'bead.tech.timestamp.timestamp',
        'os.getpid', 'socket.gethostname', 'platform.node', 'getpass.getuser', 'random.random', 'random.randint', 'random.getrandbits', 'random.randrange',
        'builtins.id', 'builtins.hash', 'uuid.getnode', 'uuid.uuid3', 'uuid.uuid5', 'astimezone', 'random.choice', 'random.choices',
        'hashlib.md5', 'hashlib.sha1', 'os.path.abspath', 'resolve', 'os.getcwd', 'os.urandom', 'secrets.token_hex', 'secrets.token_bytes'}


def recorded(c):
    w, kind = sym('workspace'), sym('kind')
    n = 0
    for p in c.run(c.a.classes[WORKSPACE].attrs['create'], [kind], selfT=w, types={w: WORKSPACE}, excs=set(),
                   stops={FS + '.write_file': 'stop', FS + '.ensure_directory': 'stop', FS + '.make_readonly': 'stop', PERSIST + '.file_dump': 'stop'}):
        if p.kind != 'return':
            continue
        n += 1
        said = [ev for ev in events(p.trace) if ev.kind in ('call', 'mcall') and any(isinstance(a, T) and contains(a, const('kind')) and contains(a, const('inputs')) for a in ev.args)]
        if not said:
            raise Inconclusive('recording the kind')
        for ev in said:
            for a in ev.args:
                for d in walk(a) if isinstance(a, T) else ():
                    if d.op == 'dict' and any(x.op == 'kv' and x.a[0] is const('inputs') for x in d.a):
                        kinds = [x.a[1] for x in d.a if x.op == 'kv' and x.a[0] is const('kind')]
                        c.require(kinds == [kind], 'metadata of a new workspace', f'the kind recorded is {kinds!r} instead of the one given', p.trace)
    if not n:
        raise Inconclusive('creating a workspace')


def check(c):
    c.rule('drawn', 'the kind of a new bead has all of a unique value drawn when the bead is created', drawn)
    c.rule('recorded', 'the kind of a new bead is recorded as it is', recorded)
    c.assumptions += ['universally unique identifiers (versions 1 and 4) and 16 or more bytes of the random source of the system are never the same twice',
                      'SHA-2, SHA-3 and BLAKE2 have no collisions']
