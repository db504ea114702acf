"""One run of one check: obligations, violations, evidence."""
import json
import os
import re
import signal
import sys
import time
import traceback
from collections import Counter

from .api import Analysis, show_trace
from .engine import Inconclusive, AnchorLost
from .terms import T

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('BEAD_VERIF_REPO', '/repo')


class Timeout(Inconclusive):
    pass


class Check:

    def __init__(self, pid, tier='quick'):
        self.pid = pid
        self.tier = tier
        self.thorough = tier == 'thorough'
        self.a = Analysis(REPO)
        self.violations = []         # (rule, construct, message, detail)
        self.inconclusives = []
        self.obligations = Counter()
        self.discharged = Counter()
        self.cov = Counter()
        self.samples = []
        self.rules = {}
        self.assumptions = []
        self.t0 = time.time()

    # ------------------------------------------------------------ analysis
    def run(self, *args, **kw):
        paths = self.a.run(*args, **kw)
        self.cov['paths'] += len(paths)
        if not paths:
            raise Inconclusive('no path survives')
        return paths

    def func(self, qual):
        f = self.a.func(qual)
        if f is None:
            raise AnchorLost(qual)
        if f.op == 'prop':
            f = self.a.classes[f.a[0]].props[f.a[1]]['get']
        return f

    # ------------------------------------------------------------ verdicts
    def rule(self, name, text, fn, limit=150, args=None):
        """Run one rule; running out of time or precision is reported, not an alarm."""
        self.rules[name] = text
        self.current = name
        old = signal.signal(signal.SIGALRM, self._alarm)
        signal.setitimer(signal.ITIMER_REAL, limit * (3 if self.thorough else 1))
        try:
            return fn(*((self,) if args is None else args))
        except Timeout:
            self.inconclusive('time limit')
        except Inconclusive as e:
            self.inconclusive(str(e))
        except RecursionError:
            self.inconclusive('nesting too deep')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)

    def _alarm(self, *_):
        raise Timeout('time limit')

    def ok(self, n=1, what=None):
        self.obligations[self.current] += n
        self.discharged[self.current] += n
        if what is not None and len(self.samples) < 12:
            self.samples.append(f'{self.current}: {what}')

    def require(self, cond, construct, message, trace=None, what=None):
        if cond:
            self.ok(1, what)
        else:
            self.violation(construct, message, trace)
        return cond

    def violation(self, construct, message, trace=None):
        self.obligations[self.current] += 1
        c = str(construct)
        key = f'{self.current}|{re.sub(":[0-9]+", "", c)}'
        if any(v[0] == key for v in self.violations):
            return
        detail = None
        if trace is not None:
            detail = '\n'.join(x for x in show_trace(trace) if not x.lstrip().startswith(('enter ', 'leave ')))
        self.violations.append((key, c, message, detail))

    def inconclusive(self, *why):
        self.obligations[self.current] += 1
        why = ': '.join(str(w) for w in why)
        x = (self.current, why)
        if x not in self.inconclusives:
            self.inconclusives.append(x)

    def anchor(self, cond, what):
        """What the rule is about has to be there."""
        if not cond:
            raise AnchorLost(what)

    # ------------------------------------------------------------ report
    def evidence(self, explanation, n_viol):
        a = self.a
        cov = dict(
            explanation=explanation,
            rules=self.rules,
            obligations=sum(self.obligations.values()),
            discharged=sum(self.discharged.values()),
            obligations_per_rule=dict(self.obligations),
            inconclusive=[f'{r}: {w}' for r, w in self.inconclusives],
            functions_analysed=sorted(a.stats['functions']),
            files_read=sorted(os.path.relpath(f, REPO) for f in a.consulted),
            calls_followed=a.stats['calls'],
            paths=a.stats['paths'],
            events=a.stats['events'],
            samples=self.samples,
        )
        for k, v in self.cov.items():
            cov.setdefault(k, v)
        d = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='other',
                 coverage=cov, wall_s=round(time.time() - self.t0, 3), violations=n_viol,
                 assumptions=self.assumptions)
        out = os.path.join(VERIF, 'evidence')
        os.makedirs(out, exist_ok=True)
        with open(os.path.join(out, self.pid + '.json'), 'w') as f:
            json.dump(d, f, indent=1)


def known_findings(pid):
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == pid:
                    out[m.group(2)] = m.group(3)
    except OSError:
        pass
    return out


def main(argv):
    import argparse
    import importlib
    sys.setrecursionlimit(20000)
    p = argparse.ArgumentParser()
    p.add_argument('property')
    p.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=('quick', 'thorough'))
    p.add_argument('--verbose', '-v', action='store_true')
    o = p.parse_args(argv)
    pid = o.property
    mod = importlib.import_module(f'sa.rules.{pid.lower()}')
    vdir = os.path.join(VERIF, 'evidence', 'violations')
    try:
        c = Check(pid, o.tier)
        mod.check(c)
    except AnchorLost as e:
        print(f'{pid}: cannot find what the rule is about: {e}')
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    known = known_findings(pid)
    shown = 0
    reported = set()
    for n, (key, construct, message, detail) in enumerate(c.violations):
        k = key.replace(' ', '')
        if k in known:
            if k not in reported:
                print(f'KNOWN-FINDING: property={pid} {known[k]}')
                reported.add(k)
            continue
        shown += 1
        os.makedirs(vdir, exist_ok=True)
        fn = os.path.join(vdir, f'{pid}-{shown}.txt')
        with open(fn, 'w') as f:
            f.write(f'property {pid}\nrule {key.split("|")[0]}: {c.rules.get(key.split("|")[0], "")}\nat {construct}\n{message}\n')
            if detail:
                f.write('path:\n' + detail + '\n')
        if shown <= 20:
            print(f'{key.split("|")[0]}: {construct}: {message}')
            if o.verbose and detail:
                print(detail)
            print(f'VIOLATION property={pid} replay={fn}')
    for r, w in c.inconclusives:
        print(f'INCONCLUSIVE {r}: {w}')
    c.evidence(' '.join((mod.__doc__ or '').split()), shown)
    print(f'{pid}: {sum(c.discharged.values())}/{sum(c.obligations.values())} obligations, '
          f'{len(c.a.stats["functions"])} functions, {c.a.stats["paths"]} paths, {round(time.time() - c.t0, 2)} s')
    return 1 if shown else 0
