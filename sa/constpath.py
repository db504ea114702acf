"""Path functions on paths that are completely known: their lexical meaning,
for a file system without symbolic links below the paths in question."""
import posixpath
from pathlib import PurePosixPath

from .terms import T, mk, const, sym, is_const, cval, path


def _str(t):
    return cval(t) if isinstance(t, T) and is_const(t) and isinstance(cval(t), str) else None


def _wrap(e, v, st):
    if isinstance(v, (tuple, list)):
        return mk('tuple', *[_wrap(e, x, st) for x in v])
    if isinstance(v, PurePosixPath):
        v = str(v)
    return const(v)


def _function(f):
    def hook(e, args, kw, st, node):
        vals = []
        for a in args:
            v = _str(a)
            if v is None:
                items = e.finite_list(a, st)
                if items is None or any(_str(x) is None for x in items):
                    return None
                v = [_str(x) for x in items]
            vals.append(v)
        if [k for k in kw if k != 'strict'] or not vals:
            return None
        try:
            r = f(*vals)
        except ValueError:
            e.raise_(mk('exc', 'ValueError', ''), st, node)
            return []
        return None if r is None else [(_wrap(e, r, st), st)]
    return hook


def _absolute(p, *_):
    return posixpath.normpath(p) if p.startswith('/') else None


def _method(f):
    def hook(e, recv, args, kw, st, node):
        r = _str(recv)
        vals = [_str(a) for a in args]
        if r is None or None in vals or [k for k in kw if k not in ('strict', 'walk_up')]:
            return None
        try:
            v = f(PurePosixPath(r), *vals)
        except ValueError:
            e.raise_(mk('exc', 'ValueError', ''), st, node)
            return []
        return None if v is None else [(_wrap(e, v, st), st)]
    return hook


FUNCTIONS = {'os.path.' + k: _function(f) for k, f in dict(
    normpath=posixpath.normpath, realpath=_absolute, abspath=_absolute, commonpath=posixpath.commonpath,
    commonprefix=posixpath.commonprefix, relpath=lambda p, s=None: s and posixpath.relpath(p, s), isabs=posixpath.isabs,
    dirname=posixpath.dirname, basename=posixpath.basename, split=posixpath.split, splitext=posixpath.splitext,
    join=posixpath.join, normcase=posixpath.normcase).items()}

METHODS = {k: _method(f) for k, f in dict(
    resolve=lambda p: _absolute(str(p)), absolute=lambda p: p if p.is_absolute() else None,
    is_absolute=lambda p: p.is_absolute(), relative_to=lambda p, *o: p.relative_to(*o),
    is_relative_to=lambda p, *o: p.is_relative_to(*o), joinpath=lambda p, *o: p.joinpath(*o),
    with_name=lambda p, n: p.with_name(n), match=lambda p, n: p.match(n)).items()}


def outside(p, root):
    """Is known path p outside of root?  (lexically)"""
    r = posixpath.normpath(root)
    n = posixpath.normpath(p)
    return not (n == r or n.startswith(r.rstrip('/') + '/'))


def options(**kw):
    """Options for Analysis.run, added to those given."""
    kw = dict(kw)
    kw['xhooks'] = {**FUNCTIONS, **kw.get('xhooks', {})}
    kw['mhooks'] = {**METHODS, **kw.get('mhooks', {})}
    return kw
