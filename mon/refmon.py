"""
Reference monitors: naive re-computation of statistics from the complete list of observations.
OFF marks periods in which monitoring is switched off.
"""
from __future__ import annotations

import math

from mon.core import Violation

NAN = float("nan")
INF = float("inf")


class _Off:
    def __repr__(self):
        return "OFF"


OFF = _Off()


def numeric(v):
    """the documented conversion of non numeric values for statistics"""
    if isinstance(v, (int, float)):
        return v
    try:
        return int(v) if int(v) == float(v) else float(v)
    except (ValueError, TypeError):
        return 0


def same(a, b, tol=1e-9):
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        if a in (INF, -INF) or b in (INF, -INF):
            return a == b
        return abs(a - b) <= tol * max(1, abs(a), abs(b))
    return a == b


class RefLevel:
    """level monitor: a step function over time"""

    def __init__(self, t, value=0, on=True):
        self.value = value
        self.on = on
        self.reset(t)

    def _put(self, t, x):
        if self.pts and self.pts[-1][0] == t:
            self.pts[-1] = (t, x)
        else:
            self.pts.append((t, x))

    def reset(self, t, on=None):
        if on is not None:
            self.on = on
        self.start = t
        self.pts = []
        self._put(t, self.value if self.on else OFF)

    def tally(self, t, v):
        self.value = v
        if self.on:
            self._put(t, v)

    def monitor(self, t, on):
        self.on = on
        self._put(t, self.value if on else OFF)

    def segments(self, now):
        """(value, from, to) without the off periods and without segments of zero length"""
        out = []
        for (t, x), (t2, _) in zip(self.pts, self.pts[1:] + [(now, None)]):
            if x is not OFF and t2 > t:
                out.append((x, t, t2))
        return out

    def at(self, t):
        v = OFF
        for tt, x in self.pts:
            if tt <= t:
                v = x
        return v

    def steps(self):
        """the points where the value really changes"""
        out = []
        for t, x in self.pts:
            if not out or out[-1][1] is not x and not (out[-1][1] == x and type(out[-1][1]) == type(x)):
                out.append((t, x))
        return out

    def sample(self, now):
        return [(x, t2 - t) for x, t, t2 in self.segments(now)]


class RefTally:
    """non level monitor"""

    def __init__(self, on=True):
        self.on = on
        self.obs = []  # (t, x, weight)

    def tally(self, t, x, weight=1):
        if self.on:
            self.obs.append((t, x, weight))

    def reset(self, on=None):
        if on is not None:
            self.on = on
        self.obs = []

    def sample(self):
        return [(x, w) for _, x, w in self.obs]


def wmean(xw):
    s = math.fsum(w for _, w in xw)
    return math.fsum(x * w for x, w in xw) / s if s else NAN


def wstd(xw):
    s = math.fsum(w for _, w in xw)
    if not s:
        return NAN
    m = wmean(xw)
    return math.sqrt(math.fsum(w * (x - m) ** 2 for x, w in xw) / s)


def pct_weighted(xw, q, interpolation):
    """None if undecided because of rounding"""
    xw = sorted(xw, key=lambda v: v[0])
    tot = math.fsum(w for _, w in xw)
    if not xw:
        return NAN
    if not tot:
        return None
    if q <= 0:
        return xw[0][0]
    if q >= 100:
        return xw[-1][0]
    if len(xw) == 1:
        return xw[0][0]
    cum = 0
    for k, (x, w) in enumerate(xw):
        cum += w
        if abs(cum / tot - q / 100) < 1e-9:
            if cum / tot != q / 100:
                return None
            nx = xw[k + 1][0]
            return {"linear": (x + nx) / 2, "midpoint": (x + nx) / 2, "lower": x, "higher": nx}[interpolation]
        if cum / tot > q / 100:
            return x
    return xw[-1][0]


def pct_plain(xs, q, interpolation):
    xs = sorted(xs)
    if not xs:
        return NAN
    if q <= 0:
        return xs[0]
    if q >= 100:
        return xs[-1]
    pos = q / 100 * (len(xs) - 1)
    k = math.floor(pos)
    if abs(pos - round(pos)) < 1e-9:
        return xs[round(pos)]
    f = pos - k
    if interpolation == "nearest":
        if abs(f - 0.5) < 1e-9:
            return None
        return xs[k] if f < 0.5 else xs[k + 1]
    return {"linear": xs[k] + (xs[k + 1] - xs[k]) * f, "lower": xs[k], "higher": xs[k + 1], "midpoint": (xs[k] + xs[k + 1]) / 2}[interpolation]


def need(name, what, got, want, tol=1e-9):
    if not same(got, want, tol):
        raise Violation("%s: %s is %r, should be %r" % (name, what, got, want))


def off_of(m):
    return m.off


def check_level(m, ref, now, obs, name="monitor", full=True, qs=(0, 10, 50, 90, 100), bins=((0, 1), (1, 3)), offset=0):
    """all statistics of level monitor m against the step function ref; times in internal (old) time; offset: now = t - offset"""
    seg = ref.segments(now)
    xw = [(numeric(x), t2 - t) for x, t, t2 in seg]
    xw0 = [(x, w) for x, w in xw if x != 0]
    need(name, "current value", m(), ref.value)
    need(name, "get()", m.get(), ref.value)
    need(name, "value", m.value, ref.value)
    for ex0, s in ((False, xw), (True, xw0)):
        need(name, "mean(ex0=%s)" % ex0, m.mean(ex0=ex0), wmean(s))
        need(name, "std(ex0=%s)" % ex0, m.std(ex0=ex0), wstd(s), 1e-6)
        need(name, "duration(ex0=%s)" % ex0, m.duration(ex0=ex0), math.fsum(w for _, w in s))
        # a value that was tallied at this very moment might or might not be included
        last = ref.pts[-1]
        fresh = last[0] == now and last[1] is not OFF
        if not fresh:
            need(name, "minimum(ex0=%s)" % ex0, m.minimum(ex0=ex0), min((x for x, _ in s), default=NAN))
            need(name, "maximum(ex0=%s)" % ex0, m.maximum(ex0=ex0), max((x for x, _ in s), default=NAN))
    need(name, "duration_zero", m.duration_zero(), math.fsum(w for x, w in xw if x == 0))
    if not full:
        obs("level_stats")
        return
    z = [(numeric(last[1]), 0)] if fresh else []
    for q in qs:
        for ip in ("linear", "lower", "higher", "midpoint"):
            for ex0, s, zz in ((False, xw, z), (True, xw0, [i for i in z if i[0] != 0])):
                got = m.percentile(q, ex0=ex0, interpolation=ip)
                ok = [pct_weighted(s, q, ip), pct_weighted(s + zz, q, ip)]
                if zz and not s:
                    ok.append(zz[0][0])
                if None not in ok and not any(same(got, w) for w in ok):
                    raise Violation("%s: percentile(%r, ex0=%r, interpolation=%r) is %r, should be %r for %r" % (name, q, ex0, ip, got, ok[0], s))
    if not fresh:
        need(name, "median", m.median(), pct_weighted(xw, 50, "linear") if pct_weighted(xw, 50, "linear") is not None else m.median())
    for lo, hi in bins:
        need(name, "bin_duration(%r,%r)" % (lo, hi), m.bin_duration(lo, hi), math.fsum(w for x, w in xw if lo < x <= hi))
    vals = []
    for x, _, _ in seg:
        if x not in vals:
            vals.append(x)
    for v in vals + ["never"]:
        need(name, "value_duration(%r)" % (v,), m.value_duration([v]), math.fsum(t2 - t for x, t, t2 in seg if x == v))
    if len(vals) > 1:
        need(name, "value_duration(%r)" % (vals[:2],), m.value_duration(vals[:2]), math.fsum(t2 - t for x, t, t2 in seg if x in vals[:2]))
    got = m.values()
    wantvals = vals + ([last[1]] if fresh and last[1] not in vals else [])
    if sorted(map(repr, got)) != sorted(map(repr, wantvals)) and sorted(map(repr, got)) != sorted(map(repr, vals)):
        if not (len(got) == len(wantvals) and all(any(a == b for b in wantvals) for a in got)):
            raise Violation("%s: values() %r, should be %r" % (name, got, wantvals))
    # the recorded points themselves
    xs, ts = m.xt(force_numeric=False)
    if list(ts) != sorted(ts):
        raise Violation("%s: times of xt() not ascending: %r" % (name, list(ts)))
    got = RefLevel(0, 0)
    got.pts = []
    off = m.off
    for x, t in zip(xs, ts):
        got._put(t, OFF if (isinstance(x, (int, float)) and x == off) else x)
    if not same_steps(got.steps(), ref.steps()):
        raise Violation("%s: xt() gives %r, should be %r" % (name, got.steps(), ref.steps()))
    t2, x2 = m.tx(force_numeric=False)
    if list(t2) != list(ts) or list(x2) != list(xs):
        raise Violation("%s: tx() and xt() differ" % name)
    xe, te = m.xt(force_numeric=False, exoff=True)
    if list(zip(xe, te)) != [(x, t) for x, t in zip(xs, ts) if not (isinstance(x, (int, float)) and x == off)]:
        raise Violation("%s: xt(exoff=True) wrong" % name)
    xd, wd = m.xduration(force_numeric=False)
    if not same_lists(merge_runs([(x, w) for x, w in zip(xd, wd) if w]), merge_runs([(x, b - a) for x, a, b in seg])):
        raise Violation("%s: xduration() gives %r, should be %r" % (name, list(zip(xd, wd)), seg))
    # values in the past
    for t, x in ref.pts:
        for tt in (t, (t + now) / 2):
            if tt < now:
                g = m.get(tt - offset)
                w = ref.at(tt)
                if (w is OFF and g != off) or (w is not OFF and not same(g, w)):
                    raise Violation("%s: value at %r is %r, should be %r" % (name, tt, g, w))
    need(name, "start_time", m.start_time(), ref.start - offset)
    obs("level_stats")
    obs("level_points", len(ref.pts))


def merge_runs(s):
    out = []
    for x, w in s:
        if out and out[-1][0] == x:
            out[-1] = (x, out[-1][1] + w)
        else:
            out.append((x, w))
    return out


def same_lists(a, b):
    return len(a) == len(b) and all(same(x, y) and same(v, w) for (x, v), (y, w) in zip(a, b))


def same_steps(a, b):
    return len(a) == len(b) and all(same(t, u) and (x is y or same(x, y)) for (t, x), (u, y) in zip(a, b))


def check_tally(m, ref, obs, name="monitor", full=True, qs=(0, 10, 50, 90, 100), bins=((0, 1), (1, 3)), sample=None, times=None):
    raw = ref.sample() if sample is None else sample
    xw = [(numeric(x), w) for x, w in raw]
    xw0 = [(x, w) for x, w in xw if x != 0]
    weighted = any(w != 1 for _, w in xw)
    for ex0, s in ((False, xw), (True, xw0)):
        need(name, "number_of_entries(ex0=%s)" % ex0, m.number_of_entries(ex0=ex0), len(s))
        need(name, "weight(ex0=%s)" % ex0, m.weight(ex0=ex0), math.fsum(w for _, w in s))
        need(name, "mean(ex0=%s)" % ex0, m.mean(ex0=ex0), wmean(s))
        need(name, "std(ex0=%s)" % ex0, m.std(ex0=ex0), wstd(s), 1e-6)
        need(name, "minimum(ex0=%s)" % ex0, m.minimum(ex0=ex0), min((x for x, _ in s), default=NAN))
        need(name, "maximum(ex0=%s)" % ex0, m.maximum(ex0=ex0), max((x for x, _ in s), default=NAN))
    need(name, "number_of_entries_zero", m.number_of_entries_zero(), len(xw) - len(xw0))
    need(name, "weight_zero", m.weight_zero(), math.fsum(w for x, w in xw if x == 0))
    obs("tally_stats")
    if not full:
        return
    for q in qs:
        for ip in ("linear", "lower", "higher", "midpoint") + (() if weighted else ("nearest",)):
            for ex0, s in ((False, xw), (True, xw0)):
                got = m.percentile(q, ex0=ex0, interpolation=ip)
                if weighted:
                    ok = [pct_weighted(s, q, ip), pct_weighted([i for i in s if i[1]], q, ip)]
                else:
                    ok = [pct_plain([x for x, _ in s], q, ip)]
                if None not in ok and not any(same(got, w) for w in ok):
                    raise Violation("%s: percentile(%r, ex0=%r, interpolation=%r) is %r, should be %r for %r" % (name, q, ex0, ip, got, ok[0], s))
    for lo, hi in bins:
        need(name, "bin_number_of_entries(%r,%r)" % (lo, hi), m.bin_number_of_entries(lo, hi), sum(1 for x, w in xw if lo < x <= hi))
        need(name, "bin_number_of_entries(%r,%r,ex0)" % (lo, hi), m.bin_number_of_entries(lo, hi, ex0=True), sum(1 for x, w in xw0 if lo < x <= hi))
        need(name, "bin_weight(%r,%r)" % (lo, hi), m.bin_weight(lo, hi), math.fsum(w for x, w in xw if lo < x <= hi))
    vals = []
    for x, _ in raw:
        if x not in vals:
            vals.append(x)
    for v in vals + ["never"]:
        need(name, "value_number_of_entries(%r)" % (v,), m.value_number_of_entries([v]), sum(1 for x, _ in raw if x == v))
        need(name, "value_weight(%r)" % (v,), m.value_weight([v]), math.fsum(w for x, w in raw if x == v))
    got = m.values()
    if len(got) != len(vals) or any(v not in vals for v in got):
        raise Violation("%s: values() %r, should be %r" % (name, got, vals))
    if list(m.x(force_numeric=False)) != [x for x, _ in raw]:
        raise Violation("%s: x() %r, should be %r" % (name, list(m.x(force_numeric=False)), [x for x, _ in raw]))
    if list(m.x()) != [x for x, _ in xw] or list(m.x(ex0=True)) != [x for x, _ in xw0]:
        raise Violation("%s: x() %r, should be %r" % (name, list(m.x()), [x for x, _ in xw]))
    x, w = m.xweight()
    if list(x) != [x for x, _ in xw] or not all(same(a, b[1]) for a, b in zip(w, xw)) or len(w) != len(xw):
        raise Violation("%s: xweight() %r, should be %r" % (name, (list(x), list(w)), xw))
    if times is None and sample is None:
        times = [t for t, _, _ in ref.obs]
    if times is not None:
        x, t = m.xt(force_numeric=False)
        if list(t) != list(times) or list(x) != [x for x, _ in raw]:
            raise Violation("%s: xt() %r, should be %r at %r" % (name, (list(x), list(t)), raw, times))
    obs("tally_entries", len(raw))
