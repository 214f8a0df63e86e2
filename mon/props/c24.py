"""C24: trajectories"""
import math
import random

from mon.core import Violation, digest, sim

ID = "C24"
RULE = ("random polygon (plain, Catmull-Rom, Bezier), circle/arc, standstill and (nested) merged trajectories with random speeds, accelerations, start times and orientations, sampled before, at and after the "
        "start and end, at the moments where the speed profile or the segment changes, at random moments and in an order that is not ascending; position, angle, length, t0, t1, duration, in_trajectory and "
        "rendered_polygon compared with the kinematics computed independently (also of the parts, which may occur repeatedly, in between), plus monotonicity, speed limit and continuity of what is returned")
CASES = {"quick": 12000, "thorough": 100000}
REQUIRED = ["points", "kind_polygon", "kind_spline", "kind_circle", "kind_standstill", "kind_merged", "accelerating", "triangular_profile", "infeasible", "rendered", "outside", "part_points", "repeated_parts"]
ASSUMPTIONS = ["trajectories have a positive length", "tolerance 1e-6 relative"]


def close(a, b, scale=1.0):
    return abs(a - b) < math.inf and abs(a - b) <= 1e-6 * max(1.0, abs(a), abs(b), scale)


def same_angle(a, b):
    d = (a - b) % 360
    return min(d, 360 - d) <= 4e-4


def gen_speed(rng):
    d = {}
    if rng.random() < 0.8:
        d["vmax"] = rng.choice([0.5, 1, 2, 3.7, 10])
    vmax = d.get("vmax", 1)
    if rng.random() < 0.6:
        d["v0"] = rng.choice([0, 0, vmax / 2, vmax, vmax * 0.9])
    if rng.random() < 0.6:
        d["v1"] = rng.choice([0, 0, vmax / 2, vmax, vmax * 0.3])
    if rng.random() < 0.6:
        d["acc"] = rng.choice([0.1, 0.5, 1, 2, 20])
    if rng.random() < 0.6:
        d["dec"] = rng.choice([0.1, 0.5, 1, 3, 15])
    return d


def gen_simple(rng):
    k = rng.choice(["polygon", "polygon", "spline", "circle", "circle", "standstill"])
    d = {"k": k, "t0": rng.choice([None, 0, 5, 12.5, -3]), "o": rng.choice([None, None, 30, "f"])}
    if k == "standstill":
        d["xy"] = [rng.randint(-50, 50), rng.randint(-50, 50)]
        d["duration"] = rng.choice([0, 1, 2.5, 10])
        d["o"] = rng.choice([0, 45, "f"])
        return d
    d["speed"] = gen_speed(rng)
    if k == "circle":
        d.update(radius=rng.choice([1, 10, 33.3]), xc=rng.choice([0, 5, -20]), yc=rng.choice([0, 7, -20]), a0=rng.choice([0, 90, -45, 360, 400]))
        d["a1"] = d["a0"] + rng.choice([360, 90, -90, -360, 45, -30, 720])
        return d
    n = rng.randint(2, 6)
    pts = []
    while len(pts) < n:
        p = [rng.randint(-20, 20) * rng.choice([1, 1, 0.5]), rng.randint(-20, 20)]
        if not pts or pts[-1] != p:
            pts.append(p)
    d["pts"] = pts
    if k == "spline":
        d["spline"] = rng.choice(["catmull_rom", "c", "bezier", "b", "Bezier"])
        d["res"] = rng.choice([2, 3, 10, 50])
        if rng.random() < 0.1:
            d["spline"] = ""
    return d


def gen(rng, index, tier):
    if rng.random() < 0.35:
        def merged(depth):
            parts = []
            for _ in range(rng.randint(1 if depth else 2, 4)):
                if made and rng.random() < 0.25:
                    parts.append({"k": "again", "i": rng.randrange(len(made))})  # the very same object once more
                elif depth < 2 and rng.random() < 0.2:
                    parts.append(merged(depth + 1))
                else:
                    parts.append(gen_simple(rng))
                    made.append(1)
            return {"k": "merged", "how": rng.choice(["list", "plus", "sum"]), "parts": parts}
        made = []
        spec = merged(0)
    else:
        spec = gen_simple(rng)
    return {"spec": spec, "now": rng.choice([0, 0, 4.25]), "ts": [rng.random() for _ in range(12)], "step": rng.choice([0.5, 1, 3]), "mix": rng.randrange(1 << 30) if rng.random() < 0.7 else None, "noenv": rng.random() < 0.05}


# ------------------------------------------------------------------ reference
class Infeasible(Exception):
    pass


class Profile:
    """speed profile over a given length: accelerate from v0, constant vmax, decelerate to v1; an infinite rate means a jump in speed"""

    def __init__(self, length, vmax=1, v0=None, v1=None, acc=None, dec=None):
        v0 = vmax if v0 is None else v0
        v1 = vmax if v1 is None else v1
        self.L = length
        da = lambda v: 0.0 if acc is None else (v * v - v0 * v0) / (2 * acc)  # noqa
        dd = lambda v: 0.0 if dec is None else (v * v - v1 * v1) / (2 * dec)  # noqa
        v = vmax
        self.triangular = False
        if da(v) + dd(v) > length:
            self.triangular = True
            # largest speed for which acceleration and deceleration fit in the length (bisection)
            lo, hi = 0.0, vmax
            for _ in range(200):
                mid = (lo + hi) / 2
                if da(mid) + dd(mid) > length:
                    hi = mid
                else:
                    lo = mid
            v = lo
        margin = min(da(v) if acc is not None else 1, dd(v) if dec is not None else 1)
        if abs(margin) < 1e-9 and self.triangular:
            self.edge = True
        else:
            self.edge = False
        if margin < -1e-9:
            raise Infeasible()
        self.v, self.v0, self.v1, self.acc, self.dec = v, v0, v1, acc, dec
        self.ta = 0.0 if acc is None else (v - v0) / acc
        self.td = 0.0 if dec is None else (v - v1) / dec
        self.la = da(v)
        self.ld = dd(v)
        self.tc = max(0.0, length - self.la - self.ld) / v
        self.T = self.ta + self.tc + self.td

    def at(self, t):
        if t <= 0:
            return 0.0
        if t >= self.T:
            return self.L
        if t < self.ta:
            return self.v0 * t + self.acc * t * t / 2
        if t < self.ta + self.tc:
            return self.la + self.v * (t - self.ta)
        r = self.T - t  # time to go: distance to go is v1 * r + dec * r**2 / 2
        return self.L - (self.v1 * r + self.dec * r * r / 2)


def orient(o, direction):
    if o is None:
        return direction
    if o == "f":
        return direction * 2 + 1
    return o


class Ref:
    breaks = ()

    def __init__(self, d):
        self.d = d


class RStand(Ref):
    def __init__(self, d):
        self.T, self.L = d["duration"], 0.0
        self.xy, self.a = d["xy"], orient(d["o"], 0)
        self.v = 0

    def at(self, t):
        return self.xy[0], self.xy[1], [self.a], 0.0


class RCircle(Ref):
    def __init__(self, d):
        self.d = d
        self.L = abs(math.radians(d["a1"] - d["a0"])) * d["radius"]
        self.p = Profile(self.L, **d["speed"])
        self.T = self.p.T
        self.v = self.p.v
        self.breaks = (self.p.ta, self.p.ta + self.p.tc)

    def at(self, t):
        d = self.d
        l = self.p.at(t)
        sign = 1 if d["a1"] > d["a0"] else -1
        a = d["a0"] + sign * math.degrees(l / d["radius"])
        return d["xc"] + d["radius"] * math.cos(math.radians(a)), d["yc"] + d["radius"] * math.sin(math.radians(a)), [orient(d["o"], a + sign * 90)], l


def catmull(pts, res):
    out = []
    n = len(pts)
    for i in range(n - 1):
        (x1, y1), (x2, y2) = pts[i], pts[i + 1]
        y0 = pts[i - 1][1] if i > 0 else 2 * y1 - y2
        y3 = pts[i + 2][1] if i + 2 < n else 2 * y2 - y1
        for k in range(res):
            u = k / res
            # Hermite form of the cardinal spline with tangents (y2-y0)/2 and (y3-y1)/2
            h00, h10, h01, h11 = 2 * u ** 3 - 3 * u ** 2 + 1, u ** 3 - 2 * u ** 2 + u, -2 * u ** 3 + 3 * u ** 2, u ** 3 - u ** 2
            out.append([x1 + (x2 - x1) * u, h00 * y1 + h10 * (y2 - y0) / 2 + h01 * y2 + h11 * (y3 - y1) / 2])
    return out + [list(pts[-1])]


def bezier(pts, res):
    out = []
    n = len(pts) - 1
    for k in range(res):
        u = k / (res - 1)
        b = [math.comb(n, i) * u ** i * (1 - u) ** (n - i) for i in range(n + 1)]
        out.append([sum(bi * p[0] for bi, p in zip(b, pts)), sum(bi * p[1] for bi, p in zip(b, pts))])
    return out


class RPoly(Ref):
    def __init__(self, d):
        self.d = d
        pts = d["pts"]
        s = (d.get("spline") or "").lower()
        if s.startswith("c"):
            pts = catmull(pts, d["res"])
        elif s.startswith("b"):
            pts = bezier(pts, d["res"])
        self.pts = pts
        self.cum = [0.0]
        for p, q in zip(pts, pts[1:]):
            self.cum.append(self.cum[-1] + math.hypot(q[0] - p[0], q[1] - p[1]))
        self.L = self.cum[-1]
        if self.L <= 1e-9:
            raise Infeasible()
        self.p = Profile(self.L, **d["speed"])
        self.T, self.v = self.p.T, self.p.v
        self.breaks = (self.p.ta, self.p.ta + self.p.tc)

    def at(self, t):
        l = self.p.at(t)
        angles = []
        pos = None
        for i, (p, q) in enumerate(zip(self.pts, self.pts[1:])):
            a, b = self.cum[i], self.cum[i + 1]
            if b <= a:
                continue
            if a - 1e-6 * max(1, self.L) <= l <= b + 1e-6 * max(1, self.L):
                angles.append(orient(self.d["o"], math.degrees(math.atan2(q[1] - p[1], q[0] - p[0]))))
                if pos is None or a <= l <= b:
                    f = min(1, max(0, (l - a) / (b - a)))
                    pos = p[0] + f * (q[0] - p[0]), p[1] + f * (q[1] - p[1])
        return pos[0], pos[1], angles, l


class RMerged(Ref):
    def __init__(self, parts):
        self.parts = []
        for p in parts:
            self.parts += p.parts if isinstance(p, RMerged) else [p]
        self.T = sum(p.T for p in self.parts)
        self.L = sum(p.L for p in self.parts)
        self.v = max(p.v for p in self.parts)
        self.breaks = []
        t = 0
        for p in self.parts:
            self.breaks += [t + b for b in p.breaks] + [t]
            t += p.T

    def at_all(self, t):
        """all acceptable answers: at a boundary that of either part"""
        out = []
        s = 0.0
        l = 0.0
        eps = 1e-9 * max(1, self.T)
        n = len(self.parts)
        for i, p in enumerate(self.parts):
            if (i == 0 or t >= s - eps) and (i == n - 1 or t <= s + p.T + eps):
                x, y, a, ll = p.at(t - s)
                out.append((x, y, a, l + ll))
            s += p.T
            l += p.L
        return out


def resolve(d, made=None):
    """the same specification with references to earlier parts replaced by those parts"""
    made = [] if made is None else made
    if d["k"] == "merged":
        return dict(d, parts=[q for q in (resolve(p, made) for p in d["parts"]) if q is not None])
    if d["k"] == "again":
        return made[d["i"]] if d["i"] < len(made) else None
    made.append(d)
    return d


def empty(d):
    return d["k"] == "merged" and (not d["parts"] or any(empty(p) for p in d["parts"]))


def build_ref(d):
    if d["k"] == "merged":
        return RMerged([build_ref(p) for p in d["parts"]])
    return {"standstill": RStand, "circle": RCircle, "polygon": RPoly, "spline": RPoly}[d["k"]](d)


def make(d, env, pool=None):
    """pool: id of resolved specification -> (specification, trajectory); repeated parts are the same object"""
    pool = {} if pool is None else pool
    if id(d) in pool:
        return pool[id(d)][1]
    tr = make1(d, env, pool)
    pool[id(d)] = (d, tr)
    return tr


def make1(d, env, pool):
    kw = {} if d.get("t0") is None else {"t0": d["t0"]}
    if env is not None:
        kw["env"] = env
    if d["k"] == "merged":
        parts = [make(p, env, pool) for p in d["parts"]]
        if d["how"] == "list" or len(parts) == 1:
            return sim.TrajectoryMerged(parts)
        if d["how"] == "sum":
            return sum(parts)
        r = parts[0]
        for p in parts[1:]:
            r = r + p
        return r
    o = d["o"]
    if o == "f":
        o = lambda a: a * 2 + 1  # noqa
    if d["k"] == "standstill":
        return sim.TrajectoryStandstill(d["xy"], d["duration"], orientation=o, **kw)
    if o is not None:
        kw["orientation"] = o
    kw.update(d["speed"])
    if d["k"] == "circle":
        return sim.TrajectoryCircle(radius=d["radius"], x_center=d["xc"], y_center=d["yc"], angle0=d["a0"], angle1=d["a1"], **kw)
    if d["k"] == "spline":
        kw["spline"] = d["spline"]
        kw["res"] = d["res"]
    return sim.TrajectoryPolygon([c for p in d["pts"] for c in p], **kw)


def first(d):
    return first(d["parts"][0]) if d["k"] == "merged" else d


def edge(ref):
    if isinstance(ref, RMerged):
        return any(edge(p) for p in ref.parts)
    return getattr(getattr(ref, "p", None), "edge", False)


def at(tr, ref, t0, t, mix=None):
    tau = t - t0
    alts = ref.at_all(tau) if isinstance(ref, RMerged) else [ref.at(tau)]
    names = ["x", "y", "angle", "length"]
    if mix:
        mix.shuffle(names)
    r = {name: getattr(tr, name)(t) for name in names}
    got = (r["x"], r["y"], r["angle"], r["length"])
    size = 1 + ref.L
    for x, y, a, l in alts:
        if close(got[0], x, size) and close(got[1], y, size) and close(got[3], l, size) and any(same_angle(got[2], b) for b in a):
            return got
    raise Violation("%s at t0%+g (duration %g): x, y, angle, length are %r, expected one of %r" % (type(tr).__name__, tau, ref.T, got, alts))


def part_at(other, t, now, mix, obs):
    tr, s, ref = other
    t0 = first(s)["t0"]
    at(tr, ref, now if t0 is None else t0, t, mix)
    if mix.random() < 0.2 and not close(tr.length(), ref.L):
        raise Violation("length() of a part is %r, expected %r" % (tr.length(), ref.L))
    obs("part_points")


def check(case, obs):
    d = resolve(case["spec"])
    if d is None or empty(d):
        obs.nontrivial = False
        return
    if case["noenv"]:
        sim.reset()
        env, now = None, 0
        if sim.default_env() is not None:
            env = sim.default_env()
            now = env.now()
    else:
        env = sim.Environment(yieldless=False)
        if case["now"]:
            env.run(case["now"])
        now = env.now()
    try:
        ref = build_ref(d)
    except Infeasible:
        obs("infeasible")
        obs.nontrivial = False
        if d["k"] in ("polygon", "circle"):
            try:
                make(d, env)
            except (ValueError, ZeroDivisionError):
                return
            raise Violation("infeasible movement %r accepted" % d)
        return
    if edge(ref):
        obs("edge_skipped")
        obs.nontrivial = False
        return
    pool = {}
    tr = make(d, env, pool)
    others = []
    if case.get("mix") is not None and d["k"] == "merged":
        # the parts remain trajectories of their own, whatever is asked from the merged one in between
        others = [(t, s, build_ref(s)) for s, t in pool.values() if t is not tr]
    mix = random.Random(case.get("mix"))
    if len(others) and len({id(p) for p in d["parts"]}) < len(d["parts"]):
        obs("repeated_parts")
    obs("kind_" + d["k"])
    for p in ref.parts if isinstance(ref, RMerged) else [ref]:
        if hasattr(p, "p"):
            if p.p.triangular:
                obs("triangular_profile")
            if p.p.ta or p.p.td:
                obs("accelerating")
    t0 = first(d)["t0"]
    t0 = now if t0 is None else t0
    if tr.t0() != t0 or not close(tr.duration(), ref.T) or not close(tr.t1(), t0 + ref.T):
        raise Violation("t0, duration, t1 are %r, expected %r" % ((tr.t0(), tr.duration(), tr.t1()), (t0, ref.T, t0 + ref.T)))
    if abs(tr.t1() - tr.t0() - tr.duration()) > 1e-9 * max(1, abs(tr.t1())):
        raise Violation("t1 is not t0 + duration")
    if not close(tr.length(), ref.L):
        raise Violation("length() is %r, expected %r" % (tr.length(), ref.L))
    taus = [x * ref.T for x in case["ts"]] + list(ref.breaks) + [0, ref.T, -1, ref.T + 1, -1e-3, ref.T + 1e-3, ref.T / 2]
    size = 1 + ref.L
    seen = []
    for tau in taus:
        t = t0 + tau
        if others and mix.random() < 0.5:
            part_at(mix.choice(others), t, now, mix, obs)
        got = at(tr, ref, t0, t, mix if others else None)
        if others and mix.random() < 0.5:
            part_at(mix.choice(others), t, now, mix, obs)
        if tr.in_trajectory(t) != (tr.t0() <= t <= tr.t1()):
            raise Violation("in_trajectory(%r) is %r" % (t, tr.in_trajectory(t)))
        if tau < 0 or tau > ref.T:
            obs("outside")
        seen.append((tau, got))
        obs("points")
    seen.sort(key=lambda s: s[0])
    for (ta, ga), (tb, gb) in zip(seen, seen[1:]):
        if gb[3] < ga[3] - 1e-6 * size:
            raise Violation("length decreases from %r to %r" % (ga[3], gb[3]))
        if gb[3] - ga[3] > ref.v * (tb - ta) + 1e-6 * size:
            raise Violation("faster than %r between %r and %r" % (ref.v, ta, tb))
        if d["k"] != "merged" and math.hypot(gb[0] - ga[0], gb[1] - ga[1]) > gb[3] - ga[3] + 1e-5 * size:
            raise Violation("moved more than the distance travelled between %r and %r" % (ta, tb))
    if ref.T <= 300:
        rp = tr.rendered_polygon(case["step"])
        rt, t = [], tr.t0()
        n = 0
        while t < tr.t1() - 1e-9 * max(1, abs(t)):
            rt.append(t)
            n += 1
            t = tr.t0() + n * case["step"]
        want = [v for t in rt + [tr.t1()] for v in (tr.x(t), tr.y(t))]
        if len(rp) not in (len(want), len(want) + 2) or not all(close(a, b, size) for a, b in zip(rp, want[:-2])) or not all(close(a, b, size) for a, b in zip(rp[-2:], want[-2:])):
            raise Violation("rendered_polygon(%r) is %r, expected %r" % (case["step"], rp, want))
        obs("rendered")
    obs.sig = digest(d)


def shrink(case):
    import copy
    d = case["spec"]
    if d["k"] == "merged":
        for i in range(len(d["parts"])):
            c = copy.deepcopy(case)
            if len(d["parts"]) > 1:
                del c["spec"]["parts"][i]
                yield c
            c = copy.deepcopy(case)
            c["spec"] = d["parts"][i]
            yield c
    elif "pts" in d and len(d["pts"]) > 2:
        for i in range(len(d["pts"])):
            c = copy.deepcopy(case)
            del c["spec"]["pts"][i]
            yield c
    for k in list(d.get("speed", {})):
        c = copy.deepcopy(case)
        del c["spec"]["speed"][k]
        yield c
