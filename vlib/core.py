"""The engine shared by all checks: deterministic cases, verdicts, counters.

A check module has
    RULE         how cases are made and what makes one non-trivial (evidence)
    ASSUMPTIONS  list of strings (evidence)
    FAMILIES     list of (name, quick_count, thorough_count, function)
A family function gets a Case: it draws the workload from case.rng, drives the
real library through its public API and compares every observation with its
oracle through case.check()/case.fail().  Case number i of a family depends
only on (seed, property, family, i): it replays alone.
"""
import json
import os
import random
import time
import traceback
import warnings
import hashlib
from collections import Counter

MAX_FAILS = int(os.environ.get('VERIF_MAX_FAILS', '12'))


class Violation(Exception):
    def __init__(self, message, witness=None):
        super().__init__(message)
        self.witness = witness


class Skip(Exception):
    """The generated case is outside the domain of the property."""


class Case:
    def __init__(self, eng, family, index):
        self.eng = eng
        self.family = family
        self.index = index
        self.tier = eng.tier
        self.rng = random.Random('%s|%s|%s|%d' % (eng.seed, eng.pid, family, index))
        self.nsig = 0
        self.log = []          # recorded events of this execution (the witness)

    # -- observation ---------------------------------------------------------
    def rec(self, *event):
        """Record one event of the history (kept as witness)."""
        if len(self.log) < 400:
            self.log.append(event)

    def ev(self, name, n=1):
        self.eng.events[name] += n

    def sig(self, *key):
        """Declare the (non-trivial) case distinct by this key."""
        h = hashlib.blake2b(repr((self.family, key)).encode(), digest_size=7).digest()
        self.eng.sigs.add(int.from_bytes(h, 'big'))
        self.nsig += 1
        if self.nsig > 1:
            self.eng.subcases += 1     # one case that evaluates several inputs

    def sample(self, obj):
        s = self.eng.samples
        if self.eng.fam_samples[self.family] < 1:
            self.eng.fam_samples[self.family] += 1
            s.append({'family': self.family, 'case': self.index, 'input': obj})

    # -- verdicts ------------------------------------------------------------
    def check(self, cond, message, *witness):
        self.eng.events['oracle:' + self.family] += 1
        if not cond:
            self.fail(message, *witness)

    def fail(self, message, *witness):
        self.eng.events['oracle:' + self.family] += 1
        raise Violation(message, witness)

    def raises(self, exc, fn, message, *witness):
        """fn() must raise exc (a class or tuple)."""
        self.eng.events['oracle:' + self.family] += 1
        try:
            r = fn()
        except exc:
            return
        except Exception as e:
            raise Violation('%s: raised %s(%s) instead of %s' % (message, type(e).__name__, e, _excname(exc)), witness)
        raise Violation('%s: returned %r instead of raising %s' % (message, _short(r), _excname(exc)), witness)


def _excname(exc):
    return '/'.join(e.__name__ for e in exc) if isinstance(exc, tuple) else exc.__name__


def _short(x, n=300):
    try:
        s = repr(x)
    except Exception as e:
        s = '<repr failed %s>' % e
    return s if len(s) <= n else s[:n] + '...'


class Engine:
    def __init__(self, mod, pid, tier, seed, scale=1.0):
        self.mod, self.pid, self.tier, self.seed, self.scale = mod, pid, tier, seed, scale
        self.events = Counter()
        self.sigs = set()
        self.samples = []
        self.fam_samples = Counter()
        self.families = Counter()
        self.failures = []
        self.cases = 0
        self.subcases = 0
        self.skipped = 0
        self.fns = {f[0]: f for f in mod.FAMILIES}

    def run_case(self, family, index):
        case = Case(self, family, index)
        fn = self.fns[family][3]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                fn(case)
        except Skip:
            self.events['skipped:' + family] += 1
            return None
        except Violation as v:
            return self._failure(case, str(v), v.witness)
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.format_exc()
            return self._failure(case, 'unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-1800:]), None)
        return None

    def _failure(self, case, message, witness):
        return {'property': self.pid, 'family': case.family, 'index': case.index, 'seed': self.seed,
                'tier': self.tier, 'message': message, 'witness': _short(witness, 3000),
                'history': [_short(e, 400) for e in case.log[-60:]]}

    def run(self, worker, nworkers, budget):
        t0 = time.time()
        todo = []
        for fam, nq, nt, _ in self.mod.FAMILIES:
            n = max(1, int((nt if self.tier == 'thorough' else nq) * self.scale))
            idx = range(worker, n, nworkers)
            # spread the families evenly over the run
            todo += [((k + 0.5) / max(1, len(idx)), fam, i) for k, i in enumerate(idx)]
        todo.sort()
        nfail = Counter()
        for pos, (_, fam, i) in enumerate(todo):
            if time.time() - t0 > budget:
                self.skipped = len(todo) - pos
                break
            if nfail[fam] >= 3:
                continue
            self.cases += 1
            self.families[fam] += 1
            f = self.run_case(fam, i)
            if f:
                nfail[fam] += 1
                self.failures.append(f)
                if len(self.failures) >= MAX_FAILS:
                    break

    def result(self):
        return {'cases': self.cases, 'subcases': self.subcases, 'sigs': sorted(self.sigs), 'events': dict(self.events),
                'families': dict(self.families), 'samples': json.loads(json.dumps(self.samples, default=_short))[:8],
                'failures': self.failures, 'skipped': self.skipped,
                'meta': {'rule': self.mod.RULE, 'assumptions': list(getattr(self.mod, 'ASSUMPTIONS', []))}}
