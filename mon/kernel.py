"""comparison of the observation logs of real salabim and the reference model"""
from __future__ import annotations

from mon import gen
from mon.core import Violation, digest
from mon.model import World, INF
from mon.real import RealWorld


def fmt(e):
    return repr(e)


def close(a, b):
    if a == b and type(a) is not bool:
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
        return abs(a - b) < INF and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    return a == b and type(a) == type(b)


def diff(a, b, na="real", nb="model"):
    """first difference between two logs"""
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y and not close(x, y):
            ctx = "\n".join("    " + fmt(e) for e in a[max(0, i - 6):i] if e[0] in ("op", "cont", "ret", "exc", "start", "runend", "skip"))
            return "observation %d differs: %s %s\n  %s %s\n  after\n%s" % (i, na, _short(x, y), nb, _short(y, x), ctx)
    if len(a) != len(b):
        i = min(len(a), len(b))
        longer, nm = (a, na) if len(a) > len(b) else (b, nb)
        return "observation %d differs: only in %s: %s\n  (after %s)" % (i, nm, fmt(longer[i]), fmt(longer[i - 1]) if i else "start")
    return None


def _short(x, y):
    if x and y and x[0] == y[0] and len(x) == len(y) and len(x) > 5 or (x[0] == y[0] and x[0] in ("snap", "res", "sta", "sto", "que") and len(x) == len(y)):
        return fmt((x[0],) + tuple(p for p, q in zip(x[1:], y[1:]) if p != q))
    return fmt(x)


def count(log, obs):
    for e in log:
        obs("log_" + e[0])


def run_pair(case, obs, yieldless=True, extra=None, **kw):
    """runs case with the model and with salabim; raises Violation on the first difference; returns (model, real)"""
    m = World(case)
    m.simulate()
    r = RealWorld(case, yieldless=yieldless, **kw)
    r.simulate()
    d = diff(r.log, m.log)
    if d:
        raise Violation(("yieldless" if yieldless else "yield") + " " + d)
    if r.errors:
        raise Violation("monitor: " + repr(r.errors[0]))
    count(r.log, obs)
    obs("runs")
    obs.sig = digest([e for e in r.log if e[0] in ("op", "cont", "exc", "start")])
    obs.nontrivial = len(r.log) > 20
    return m, r


def compress(pts, end=None):
    """step function: last value at each time, only changes"""
    out = []
    for t, v in pts:
        if out and out[-1][0] == t:
            out[-1] = (t, v)
        else:
            out.append((t, v))
    res = []
    for t, v in out:
        if not res or res[-1][1] != v:
            res.append((t, v))
    return res


class KernelProp:
    """helper to define a property module that compares salabim with the model"""

    def __init__(self, id, profiles, rule, cases, check=None, required=("log_cont", "log_op"), assumptions=(), modes="alternate"):
        self.ID = id
        self.profiles = profiles
        self.RULE = rule
        self.CASES = cases
        self.extra = check
        self.REQUIRED = list(required)
        self.modes = modes
        self.ASSUMPTIONS = list(assumptions)

    def gen(self, rng, index, tier):
        prof = self.profiles[index % len(self.profiles)]
        if tier == "thorough" and rng.random() < 0.5:
            prof = dict(prof)
            a, b = prof.get("comps", (2, 6))
            prof["comps"] = (a, b + 4)
            a, b = prof.get("len", (3, 12))
            prof["len"] = (a, b * 2)
        c = gen.build(rng, prof)
        c["yieldless"] = rng.random() < 0.5
        return c

    def check(self, case, obs):
        m, r = run_pair(case, obs, case["yieldless"])
        obs("mode_yieldless" if case["yieldless"] else "mode_yield")
        if self.extra:
            self.extra(case, obs, m, r)

    def shrink(self, case):
        return gen.shrink_case(case)

    def export(self, ns):
        for k in ("ID", "RULE", "CASES", "REQUIRED", "ASSUMPTIONS", "gen", "check", "shrink"):
            ns[k] = getattr(self, k)
