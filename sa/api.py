"""Running the analysis on one entry point."""
from .calls import Interp
from .engine import Path, Ev, HObj, Inconclusive, AnchorLost, trace_list, Site
from .terms import *          # noqa
from .terms import T, mk, const, sym, attr


class Analysis(Interp):

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.base_types = dict(self.types)

    def run(self, fterm, args=(), kwargs=(), selfT=None, types=None, elem_types=None, stops=None,
            exc_all=False, ki=False, prepare=None, no_stop=(), excs=None, zip_cache='stop',
            merge_limit=10, xhooks=None, mhooks=None, max_recursion=1, finite_sorted=False, iterhooks=None, decide=None, ohooks=None, faults=None, cache_props=False,
            unroll=0, set_orders=(1, -1), any_element=True):
        """Analyse one call.  -> list of Path (kinds return / raise)"""
        self.stops = dict(stops or {})
        self.no_stop = set(no_stop)
        self.exc_all = exc_all
        self.ki = ki
        self.excs = excs
        self.zip_cache = zip_cache
        self.cache_props = cache_props
        self.merge_limit = merge_limit if not unroll else 10 ** 9
        self.unroll = unroll
        self.set_orders = set_orders
        self.any_element = any_element
        self.xhooks = xhooks or {}
        self.mhooks = mhooks or {}
        self.iterhooks = iterhooks or {}
        self.max_recursion = max_recursion
        self.decide = decide
        self.faults = faults
        self.ohooks = ohooks or {}
        self.finite_sorted = finite_sorted
        self.types = dict(self.base_types)
        self.elem_types = {}
        self.n_paths = 0
        for k, v in (types or {}).items():
            self.types[k] = v
        for k, v in (elem_types or {}).items():
            self.elem_types[k] = v
        st = self.base.fork()
        st.lits = {}
        st.trace = None
        st.loops = ()
        st.fp = self.new_frame(st, next(iter(self.modules)), None)
        st.wframe(st.fp)['%captured'] = const(True)
        if prepare:
            prepare(self, st)
        self.sinks = [[]]
        self.sink_base = 1
        self.stack = []
        self.ycb = []
        self.gen_exits = ()
        if isinstance(fterm, str):
            fterm = self.func(fterm)
        if selfT is not None and not callable(fterm) and fterm.op == 'func':
            fterm = mk('bound', selfT, fterm)
        saved_types = None
        if callable(fterm):
            outs = fterm(self, st)
        else:
            outs = self.call(fterm, list(args), list(kwargs.items()) if isinstance(kwargs, dict) else list(kwargs or ()),
                             st, None)
        paths = [Path('return', v, s, trace_list(s.trace)) for v, s in outs]
        for exc, s in self.sinks[0]:
            paths.append(Path('raise', exc, s, trace_list(s.trace)))
        self.stats['paths'] += len(paths)
        self.stats['events'] += sum(len(p.trace) for p in paths)
        return paths


def flat(trace):
    """All events including those inside loops."""
    for e in trace:
        yield e
        if e.kind == 'loop':
            for p in e.x:
                yield from flat(p.trace)
        elif e.kind == 'alt':
            for tr in e.x:
                yield from flat(tr)


def show_trace(trace, ind=0, out=None):
    out = [] if out is None else out
    for e in trace:
        out.append('  ' * ind + repr(e))
        if e.kind == 'loop':
            for p in e.x:
                out.append('  ' * (ind + 1) + f'-- iteration path [{p.kind}]')
                show_trace(p.trace, ind + 2, out)
        elif e.kind == 'alt':
            for tr in e.x:
                out.append('  ' * (ind + 1) + '-- or')
                show_trace(tr, ind + 2, out)
    return out
