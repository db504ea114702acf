"""Stop points shared by rules: functions the tests pin, analysed on their own."""
from .engine import Ev
from .terms import mk, const, sym, attr, is_const, cval, NONE

ARCHIVE = 'bead.ziparchive.ZipArchive'
WORKSPACE = 'bead.workspace.Workspace'
BOX = 'bead.box.Box'
SECUREHASH = 'bead.tech.securehash'
PERSIST = 'bead.tech.persistence'
FS = 'bead.tech.fs'


def archive_key(e, a, st):
    """What identifies the file of an archive."""
    outs = e.get_attr(a, 'archive_filename', st)
    return e.snap(outs[0][0], st)


def validate_stop(e, qual, sargs, st, node):
    """Verification either raises or establishes @verified(file)."""
    k = archive_key(e, sargs[0], st)
    s2 = st.fork()
    e.raise_(mk('exc', 'bead.exceptions.InvalidArchive', ''), s2, node)
    st.emit(Ev('call', '@verified', (k,), site=e.site(node)))
    return [(NONE, st)]


def extract_stop(e, qual, sargs, st, node):
    k = archive_key(e, sargs[0], st)
    st.emit(Ev('call', '@extract', (k,) + tuple(sargs[1:]), site=e.site(node), x=qual))
    e.may_raise(('OSError', 'OtherError', 'bead.exceptions.InvalidArchive'), st, node)
    return [(NONE, st)]


EXTRACT = {ARCHIVE + '.extract_dir': extract_stop, ARCHIVE + '.extract_file': extract_stop}

SEARCH = {
    'bead.box.search': 'pure', BOX + '.search': 'pure',
    'bead.box.resolve': 'type:' + ARCHIVE, BOX + '.resolve': 'type:' + ARCHIVE,
}
FSOPS = {
    FS + '.make_readonly': 'stop', FS + '.make_writable': 'stop', FS + '.rmtree': 'stop',
    FS + '.ensure_directory': 'stop', FS + '.write_file': 'stop', FS + '.all_subpaths': 'pure',
    PERSIST + '.file_load': 'pure', PERSIST + '.file_dump': 'stop',
}
HASH = {SECUREHASH + '.file': 'pure', SECUREHASH + '.bytes': 'pure'}


def fluent(e, qual, sargs, st, node):
    """A search as an uninterpreted expression: conditions stay visible in its term."""
    t = mk('call', '@search', tuple(sargs[-1:]), ())
    st.emit(Ev('query', '@search', tuple(sargs[-1:]), site=e.site(node), res=t))
    return [(t, st)]


FLUENT = {'bead.box.search': fluent, BOX + '.search': fluent,
          'bead.box.resolve': 'type:' + ARCHIVE, BOX + '.resolve': 'type:' + ARCHIVE}
