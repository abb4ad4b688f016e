"""Verdict discipline shared by all checks: contexts, violations, counters."""
from __future__ import annotations
import collections, json, os, pathlib, traceback
import numpy as np

REPO = os.environ.get('ZMON_REPO', '/repo')


class Violation(Exception):
    """The monitored execution refutes the property."""

    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    """The case could not decide anything (environment trouble)."""


def jsonable(x, depth=0):
    if depth > 6:
        return repr(x)[:200]
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(x.items())[:40]}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x if not isinstance(x, str) else x[:2000]
    return repr(x)[:400]


class Ctx:
    """What one shard of a check observes."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scratch = pathlib.Path(scratch)
        self.counters = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.violations = []
        self.findings = []
        self.case = None
        self.rng = None
        self.trace = []
        self._n = 0

    # -- per case -------------------------------------------------------
    def begin(self, case):
        self.case = case
        self.rng = np.random.default_rng([self.seed, int(self.prop[1:]), case])
        self.trace = []

    def log(self, *items):
        """Append an event to the history of the current case."""
        self.trace.append(' '.join(str(i) for i in items)[:400])
        if len(self.trace) > 400:
            del self.trace[:100]

    def fresh(self, name='d'):
        self._n += 1
        path = self.scratch / f'{name}{self._n}'
        return path

    # -- observations ----------------------------------------------------
    def count(self, name, n=1):
        self.counters[name] += n

    def sig(self, *items):
        self.sigs.add(repr(items))

    def sample(self, obj):
        if len(self.samples) < 4:
            self.samples.append(jsonable(obj))

    def check(self, cond, msg, **detail):
        self.counters['oracle_evaluations'] += 1
        if not cond:
            raise Violation(msg, **detail)

    def finding(self, key, msg):
        """A known finding was observed again (key listed in known_findings)."""
        self.findings.append((key, msg))

    def expect_raises(self, exc, fn, msg):
        self.counters['oracle_evaluations'] += 1
        try:
            res = fn()
        except exc as e:
            return e
        raise Violation(f'{msg}: no error was raised', result=repr(res)[:200])
