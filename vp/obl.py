"""Obligations, the solver back end and the bookkeeping that ends up in the evidence file."""
import os
import sys
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Unsupported(Exception):
    """The verifier cannot bring this construct within reach: a stated-bound check stands in."""


class Obl:
    __slots__ = ('unit', 'name', 'status', 'backend', 'secs', 'model', 'where', 'reason')

    def __init__(self, unit, name, status, backend, secs, model=None, where='', reason=''):
        self.unit, self.name, self.status = unit, name, status
        self.backend, self.secs, self.model, self.where = backend, secs, model, where
        self.reason = reason

    def as_dict(self):
        d = dict(unit=self.unit, name=self.name, status=self.status, backend=self.backend,
                 secs=round(self.secs, 4), where=self.where)
        if self.status != 'proved':
            d['model'] = self.model
            d['reason'] = self.reason
        return d


class Ledger:
    """All obligations of one run of one check."""

    def __init__(self, prop):
        self.prop = prop
        self.obls = []
        self.assumptions = []
        self.functions = []          # functions under contract
        self.trusted = []            # assumed contracts
        self.bounded = []            # bounded stand-ins
        self.covers = []             # reachability (anti-vacuity) results
        self.solver_secs = 0.0
        self.keep = None             # of a unit shared with another property: the obligations that belong to this one

    def wanted(self, name):
        return self.keep is None or any(k in name for k in self.keep)

    def add(self, o):
        self.obls.append(o)
        self.solver_secs += o.secs
        return o.status == 'proved'

    def failed(self):
        return [o for o in self.obls if o.status != 'proved']

    def assume(self, *texts):
        for t in texts:
            if t not in self.assumptions:
                self.assumptions.append(t)

    def trust(self, *texts):
        for t in texts:
            if t not in self.trusted:
                self.trusted.append(t)

    def under_contract(self, *names):
        for n in names:
            if n not in self.functions:
                self.functions.append(n)


def solver(timeout_ms):
    s = z3.Solver()
    # the resource limit decides (the same on a busy machine); the clock is only a safety net
    s.set('rlimit', int(timeout_ms) * 3000)
    s.set('timeout', int(timeout_ms) * 4)
    s.set('random_seed', 7)
    return s


def model_str(m, limit=60):
    if m is None:
        return None
    out = {}
    for d in m.decls()[:limit]:
        try:
            out[str(d.name())] = str(m[d])[:200]
        except Exception:   # pragma: no cover
            pass
    return out


def valid(hyps, goal, timeout_ms=10000):
    """(status, secs, model) for  /\\ hyps -> goal ; status in proved / refuted / unknown."""
    t0 = time.time()
    s = solver(timeout_ms)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    dt = time.time() - t0
    if r == z3.unsat:
        return 'proved', dt, None
    if r == z3.sat:
        return 'refuted', dt, s.model()
    return 'unknown', dt, None
