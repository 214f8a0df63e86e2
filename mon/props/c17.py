import math
import pickle

import salabim as sim
from mon import gen as G
from mon.core import Violation, is_level
from mon.real import RealWorld
from mon.refmon import RefLevel, RefTally, OFF, numeric, same, merge_runs, wmean, wstd, pct_weighted
from mon.util import shrink_ops

ID = "C17"
RULE = ("random histories of 2-4 level or non level monitors of mixed types with off periods, resets and reset_now; at random moments they are sliced (also periodic, open ended and nested), partitioned, merged (merge, +, sum), frozen, "
        "mapped, multiplied, divided, converted to another time unit and stretched in time; each result is compared as a function of time or list of observations with the definition, and the sources with their state before; "
        "the built-in monitors of random models are frozen, pickled and sliced between runs")
CASES = {"quick": 8000, "thorough": 50000}
REQUIRED = ["slices", "periodic_slices", "partitions", "merges", "maps", "freezes", "multiplies", "t_multiplies", "nested", "sources_unchanged", "frozen_later", "builtin_frozen"]
TYPES = {"any": [0, 1, 2, 3.5, -1, 7], "float": [0.0, 1.5, 2.0, -3.25], "bool": [True, False], "uint8": [0, 1, 100, 200], "int16": [0, 1, -300], "uint32": [0, 3, 4]}


BUILTIN = dict(comps=(2, 4), len=(3, 8), mode=0.3, fail=0.3, resources=(0, 1), states=(0, 2), stores=(0, 1), queues=(0, 1), runs=(2, 3),
               ops=dict(hold=6, passivate=0.7, oactivate=1, ocancel=0.3, setmode=1), mainops=dict(oactivate=1))
BOPS = dict(resources=dict(request=3, release=2), states=dict(wait=2, set=2), stores=dict(from_store=1, to_store=2), queues=dict(enter=2, leave=1))


def gen_builtin(rng):
    prof = dict(BUILTIN, ops=dict(BUILTIN["ops"]))
    for k, o in BOPS.items():
        if rng.random() < 0.6:
            prof[k] = (1, 2)
            prof["ops"].update(o)
        else:
            prof[k] = (0, 0)
    case = G.build(rng, prof)
    case["kind"] = "builtin"
    case["yieldless"] = rng.random() < 0.5
    return case


def gen(rng, index, tier):
    if index % 25 == 6:
        return gen_builtin(rng)
    level = rng.random() < 0.5
    k = rng.randint(2, 4)
    same_type = rng.random() < 0.5
    t0 = rng.choice(list(TYPES))
    types = [t0 if same_type else rng.choice(list(TYPES)) for _ in range(k)]
    ops = []
    for _ in range(rng.randint(5, 40 if tier == "quick" else 100)):
        x = rng.random()
        i = rng.randrange(k)
        if x < 0.4:
            ops.append(["tally", i, rng.randrange(8), rng.choice([1, 1, 1, 2, 0.5]) if not level else 1])
        elif x < 0.65:
            ops.append(["run", rng.choice([0.25, 0.5, 1, 1, 2, 3])])
        elif x < 0.73:
            ops.append(["monitor", i, rng.random() < 0.5])
        elif x < 0.75:
            ops.append(["reset", i])
        elif x < 0.77:
            ops.append(["reset_now", rng.choice([0, 4, -3])])
        else:
            ops.append(question(rng, k, level))
    for _ in range(3):
        ops.append(question(rng, k, level))
    return {"level": level, "types": types, "init": [rng.randrange(8) for _ in types], "ops": ops, "unit": rng.choice(["n/a", "hours", "minutes"]), "starts": [rng.choice([0, 0, 0, 1, 2.5]) for _ in types]}


def question(rng, k, level):
    i = rng.randrange(k)
    kind = rng.choice(["slice", "slice", "mod", "partition", "merge", "merge", "freeze", "map", "mult", "tmult", "nested"])
    tm = lambda: rng.choice([None, -5, 0, 0.25, 1, 2, 3.5, 5, 8, 10, 15, 30])
    if kind == "slice":
        return ["slice", i, tm(), tm(), rng.random() < 0.5]
    if kind == "mod":
        start = rng.choice([-1, 0, 0.5, 1, 3, 7])
        mod = rng.choice([1.5, 2, 3, 4, 5])
        return ["mod", i, start, start + rng.choice([0.25, 0.5, 1, mod / 2, mod - 0.25]), mod]
    if kind == "partition":
        return ["partition", i, sorted({rng.choice([0.25, 1, 2, 3, 4.5, 6, 9, 12]) for _ in range(3)})]
    if kind == "merge":
        return ["merge", rng.sample(range(k), rng.randint(1, k)), rng.choice(["merge", "+", "sum"])]
    if kind == "map":
        return ["map", rng.sample(range(k), rng.randint(1, k)) if level else [i], rng.randrange(3)]
    if kind == "nested":
        return ["nested", rng.sample(range(k), 2), rng.choice([0, 1, 2, 3]), rng.choice([2.5, 5, 9, 40])]
    return [kind, i, rng.choice([2, 0.5, 3])]


FUNCS1 = [lambda x: x * 2 + 1, lambda x: -x, lambda x: 5]
FUNCSN = [lambda *a: sum(v * 10 ** i for i, v in enumerate(a)), max, min]


class W:
    pass


def level_fn(m):
    """the step function of a real monitor, from its xt()"""
    xs, ts = m.xt(force_numeric=False, add_now=False)
    r = RefLevel(0, 0)
    r.pts = []
    for x, t in zip(xs, ts):
        if r.pts and t < r.pts[-1][0]:
            raise Violation("times of %s not ascending: %r" % (m.name(), list(ts)))
        r._put(t, OFF if x == m.off else x)
    return r


def cmp_level(m, pts, now, obs, what, factor=1):
    """pts: expected step function [(t, x or OFF)]"""
    want = RefLevel(0, 0)
    want.pts = pts
    got = level_fn(m)
    br = sorted({t for t, _ in got.pts} | {t for t, _ in pts} | {now})
    for a, b in zip(br, br[1:]):
        if a >= now:
            break
        mid = (a + b) / 2
        g, w = got.at(mid), want.at(mid)
        if (g is OFF) != (w is OFF) or (g is not OFF and not same(g, w)):
            raise Violation("%s: value at %r is %r, should be %r (got %r, want %r)" % (what, mid, g, w, got.steps(), want.steps()))
    seg = want.segments(now)
    xw = [(x, b - a) for x, a, b in seg]
    x, w = m.xduration()
    gl = merge_runs([(a, b) for a, b in zip(x, w) if b])
    wl = merge_runs(xw)
    if len(gl) != len(wl) or any(not same(a, c) or not same(b, d) for (a, b), (c, d) in zip(gl, wl)):
        raise Violation("%s: xduration() is %r, should be %r" % (what, gl, wl))
    for n, f in (("mean", wmean), ("std", wstd), ("duration", lambda s: math.fsum(w for _, w in s))):
        if not same(getattr(m, n)(), f(xw), 1e-6):
            raise Violation("%s: %s() is %r, should be %r" % (what, n, getattr(m, n)(), f(xw)))
    obs("level_results")


def cmp_tally(m, obslist, obs, what):
    """obslist: expected (t, x, weight)"""
    x, t = m.xt(force_numeric=False)
    w = m.xweight()[1]
    got = list(zip(t, x, w))
    if len(list(w)) != len(list(x)):
        raise Violation("%s: %d weights for %d values" % (what, len(w), len(x)))
    if len(got) != len(obslist) or any(not same(a[0], b[0]) or not same(a[1], b[1]) or not same(a[2], b[2]) for a, b in zip(got, obslist)):
        raise Violation("%s: (t, x, weight) %r, should be %r" % (what, got, obslist))
    xw = [(numeric(x), w) for _, x, w in obslist]
    for n, f in (("mean", wmean), ("std", wstd), ("weight", lambda s: math.fsum(w for _, w in s)), ("number_of_entries", len)):
        if not same(getattr(m, n)(), f(xw), 1e-6):
            raise Violation("%s: %s() is %r, should be %r" % (what, n, getattr(m, n)(), f(xw)))
    obs("tally_results")


def restrict(pts, now, inside, extra):
    """step function restricted to the times where inside(t); extra: breakpoints"""
    r = RefLevel(0, 0)
    r.pts = pts
    br = sorted({t for t, _ in pts} | {t for t in extra if pts[0][0] <= t <= now} | {now})
    out = [(pts[0][0], OFF)]
    for a, b in zip(br, br[1:] + [now]):
        if a >= now:
            out.append((a, OFF))
            break
        mid = (a + b) / 2
        out.append((a, r.at(mid) if inside(mid) else OFF))
    return out


def combine(list_of_pts, f):
    br = sorted({t for p in list_of_pts for t, _ in p})
    out = []
    refs = []
    for p in list_of_pts:
        r = RefLevel(0, 0)
        r.pts = p
        refs.append(r)
    for t in br:
        v = [r.at(t) for r in refs]
        out.append((t, OFF if any(x is OFF for x in v) else f(v)))
    return out


def fingerprint(m):
    x, t = m.xt(force_numeric=False)
    return (list(x), list(t), list((m.xduration() if is_level(m) else m.xweight())[1]), m() if is_level(m) else None, m.monitor(), m.start_time(), repr(m.mean()), m.name())


def builtin_monitors(w):
    mons = []
    for r in w.resources:
        mons += [r.claimed_quantity, r.available_quantity, r.occupancy, r.capacity, r.requesters().length, r.requesters().length_of_stay]
    for s in w.states:
        mons += [s.value, s.waiters().length]
    for q in w.queues + w.stores:
        mons += [q.length, q.length_of_stay, q.capacity, q.available_quantity]
    for c in w.comps:
        mons += [c.status, c.mode]
    return mons


def observations(m):
    x, t = m.xt(force_numeric=False)
    return (list(x), list(t), m() if is_level(m) else None, m.value if is_level(m) else None, m.start_time(), list(m.xduration()[1]) if is_level(m) else list(m.xweight()[1]))


def check_builtin(case, obs):
    """freezing, slicing and mapping of the monitors of components, queues, resources and states"""
    w = RealWorld(case, yieldless=case["yieldless"])
    frozen = []
    for op in case["main"]:
        if op[0] == "run":
            w.run(op[2])
        else:
            w.execute(w.env.main(), op)
        mons = builtin_monitors(w)
        for m in mons:
            before = fingerprint(m)
            o = observations(m)
            f = m.freeze()
            if observations(f) != o:
                raise Violation("frozen %s holds %r instead of %r" % (m.name(), observations(f), o))
            p = pickle.loads(pickle.dumps(f))
            if observations(p) != o:
                raise Violation("pickled frozen %s holds %r instead of %r" % (m.name(), observations(p), o))
            frozen.append((f, o))
            if w.env.now() > 0:
                cut = w.env.now() / 2
                a, b = m[0:cut], m[cut:]
                g = lambda mm: sum(mm.xduration()[1]) if is_level(m) else sum(mm.xweight()[1])  # noqa
                if abs(g(a) + g(b) - g(m)) > 1e-9:
                    raise Violation("slices of %s: %r + %r is not %r" % (m.name(), g(a), g(b), g(m)))
            if fingerprint(m) != before or m.env is not w.env:
                raise Violation("freezing, pickling and slicing changed %s" % m.name())
            obs("builtin_frozen")
    for f, o in frozen:
        if observations(f) != o:
            raise Violation("frozen %s changed from %r to %r" % (f.name(), o, observations(f)))
    obs.nontrivial = len(w.log) > 20


def check(case, obs):
    if case.get("kind") == "builtin":
        return check_builtin(case, obs)
    level = case["level"]
    env = sim.Environment(trace=False, yieldless=False, time_unit=case["unit"])
    ms, refs = [], []
    w = W()
    w.t = w.off = 0
    frozen = []

    def new(i):
        typ = case["types"][i]
        vals = TYPES[typ]
        if level:
            v = vals[case["init"][i] % len(vals)]
            ms.append(sim.Monitor("m%d" % i, level=True, type=typ, initial_tally=v, env=env))
            refs.append(RefLevel(w.t, v))
        else:
            ms.append(sim.Monitor("m%d" % i, type=typ, env=env))
            refs.append(RefTally())

    for i in sorted(range(len(case["types"])), key=lambda i: case["starts"][i]):
        pass
    for i in range(len(case["types"])):
        d = max(0, case["starts"][i] - w.t)
        if d:
            env.run(d)
            w.t += d
        new(i)
    for op in case["ops"]:
        if op[0] == "tally":
            vals = TYPES[case["types"][op[1]]]
            v = vals[op[2] % len(vals)]
            ms[op[1]].tally(v) if op[3] == 1 else ms[op[1]].tally(v, op[3])
            refs[op[1]].tally(w.t, v) if level else refs[op[1]].tally(w.t, v, op[3])
        elif op[0] == "run":
            env.run(op[1])
            w.t += op[1]
        elif op[0] == "monitor":
            ms[op[1]].monitor(op[2])
            if level:
                refs[op[1]].monitor(w.t, op[2])
            else:
                refs[op[1]].on = op[2]
        elif op[0] == "reset":
            ms[op[1]].reset()
            refs[op[1]].reset(w.t) if level else refs[op[1]].reset()
        elif op[0] == "reset_now":
            env.reset_now(op[1])
            w.off = w.t - op[1]
        else:
            before = [fingerprint(m) for m in ms]
            ask(op, ms, refs, w, level, env, obs, frozen, case)
            after = [fingerprint(m) for m in ms]
            if before != after:
                raise Violation("%s changed a source monitor: %r, was %r" % (op[0], after, before))
            obs("sources_unchanged")
    for f, pts, t in frozen:
        if level:
            cmp_level(f, pts, t, obs, "frozen monitor, later")
        else:
            cmp_tally(f, pts, obs, "frozen monitor, later")
        try:
            f.tally(1)
        except TypeError:
            pass
        else:
            raise Violation("frozen monitor accepts tally")
        obs("frozen_later")


def ask(op, ms, refs, w, level, env, obs, frozen, case):
    t, off = w.t, w.off
    kind = op[0]

    def expect(refs_i, lo, hi, mod=None):
        """expected slice of one reference"""
        if mod is None:
            a = -math.inf if lo is None else lo + off
            b = math.inf if hi is None else hi + off
            inside = lambda x: a <= x < b
            extra = [a, b]
        else:
            n = math.ceil((t + 100) / mod) + 5
            inside = lambda x: (x - off - lo) % mod < hi - lo
            extra = [lo + off + q * mod for q in range(-n - 30, n + 30)] + [hi + off + q * mod for q in range(-n - 30, n + 30)]
        if level:
            return restrict(refs_i.pts, t, inside, extra)
        return [o for o in refs_i.obs if inside(o[0])]

    cmp_ = (lambda m, e, what: cmp_level(m, e, t, obs, what)) if level else (lambda m, e, what: cmp_tally(m, e, obs, what))
    if kind == "slice":
        _, i, a, b, brackets = op
        m = ms[i][a:b] if brackets else ms[i].slice(a, b)
        cmp_(m, expect(refs[i], a, b), "slice [%r:%r] with now=%r" % (a, b, t - off))
        obs("slices")
    elif kind == "mod":
        _, i, a, b, mod = op
        m = ms[i][a:b:mod]
        cmp_(m, expect(refs[i], a, b, mod), "slice [%r:%r:%r] with now=%r" % (a, b, mod, t - off))
        obs("periodic_slices")
    elif kind == "partition":
        _, i, cuts = op
        cuts = [None] + cuts + [None]
        parts = [ms[i].slice(a, b) for a, b in zip(cuts, cuts[1:])]
        if level:
            d = sum(p.duration() for p in parts)
            if not same(d, ms[i].duration()):
                raise Violation("durations of a partition %r add up to %r, whole %r" % (cuts, d, ms[i].duration()))
            s = sum(p.mean() * p.duration() for p in parts if p.duration())
            if ms[i].duration() and not same(s, ms[i].mean() * ms[i].duration()):
                raise Violation("integral of a partition %r is %r, whole %r" % (cuts, s, ms[i].mean() * ms[i].duration()))
        else:
            xs = [v for p in parts for v in zip(*p.xt(force_numeric=False))]
            if xs != list(zip(*ms[i].xt(force_numeric=False))):
                raise Violation("partition %r of %r gives %r" % (cuts, list(zip(*ms[i].xt())), xs))
        obs("partitions")
    elif kind == "merge":
        _, idx, how = op
        sel = [ms[i] for i in idx]
        if len(sel) == 1:
            m = sel[0].merge()
        elif how == "merge":
            m = sel[0].merge(*sel[1:])
        elif how == "+":
            m = sel[0]
            for x in sel[1:]:
                m = m + x
        else:
            m = sum(sel)
        if level:
            e = combine([refs[i].pts for i in idx], lambda v: sum(v))
        else:
            e = sorted([(o, k) for k, i in enumerate(idx) for o in refs[i].obs], key=lambda z: (z[0][0], z[1]))
            e = [o for o, _ in e]
        cmp_(m, e, "merge of %r (%s)" % (idx, how))
        obs("merges")
    elif kind == "nested":
        _, (i, j), a, b = op
        m = ms[i].merge(ms[j])
        if level:
            r = RefLevel(0, 0)
            r.pts = combine([refs[i].pts, refs[j].pts], lambda v: sum(v))
        else:
            r = RefTally()
            r.obs = [o for o, _ in sorted([(o, k) for k, q in enumerate((i, j)) for o in refs[q].obs], key=lambda z: (z[0][0], z[1]))]
        cmp_(m[a:a + b], expect(r, a, a + b), "slice of a merged monitor")
        s = ms[i][a:a + b]
        r2 = RefLevel(0, 0) if level else RefTally()
        e = expect(refs[i], a, a + b)
        if level:
            r2.pts = e
        else:
            r2.obs = e
        cmp_(s[a + 0.5:a + b - 0.25], expect(r2, a + 0.5, a + b - 0.25), "slice of a slice")
        s2 = ms[j][a:a + b]
        if level:
            e2 = combine([e, expect(refs[j], a, a + b)], lambda v: sum(v))
            cmp_(s + s2, e2, "merge of slices")
        obs("nested")
    elif kind == "freeze":
        i = op[1]
        f = ms[i].freeze()
        e = list(refs[i].pts) if level else list(refs[i].obs)
        if level:
            cmp_level(f, e, t, obs, "frozen monitor")
            if not same(f.get(), ms[i].get()):
                raise Violation("frozen monitor has value %r" % f.get())
        else:
            cmp_tally(f, e, obs, "frozen monitor")
        frozen.append((f, e, t))
        if f.start_time() != ms[i].start_time():
            raise Violation("start time of the frozen monitor is %r instead of %r" % (f.start_time(), ms[i].start_time()))
        now = env.now()
        for a, b in ((None, now - 1), (now - 3, now - 1), (now / 2, None)):
            g, h = f.slice(a, b).xt(force_numeric=False), ms[i].slice(a, b).xt(force_numeric=False)
            if [list(x) for x in g] != [list(x) for x in h]:
                raise Violation("slice(%r, %r) of the frozen monitor is %r, of the monitor itself %r" % (a, b, g, h))
        obs("freezes")
    elif kind == "map":
        _, idx, fi = op
        if len(idx) == 1:
            f = FUNCS1[fi]
            m = ms[idx[0]].x_map(f)
            if level:
                e = [(tt, OFF if x is OFF else f(x)) for tt, x in refs[idx[0]].pts]
            else:
                e = [(tt, f(x), ww) for tt, x, ww in refs[idx[0]].obs]
        else:
            f = FUNCSN[fi]
            m = ms[idx[0]].x_map(f, [ms[i] for i in idx[1:]])
            e = combine([refs[i].pts for i in idx], lambda v: f(*v))
        cmp_(m, e, "x_map of %r" % (idx,))
        obs("maps")
    elif kind == "mult":
        _, i, fac = op
        if level or case["types"][i] != "float":
            for f in (lambda: ms[i].multiply(fac),):
                try:
                    f()
                except ValueError:
                    obs("refused")
                else:
                    raise Violation("level or non float monitor multiplied")
            return
        for how, m in (("*", ms[i] * fac), ("r*", fac * ms[i]), ("multiply", ms[i].multiply(fac)), ("/", ms[i] / (1 / fac))):
            cmp_tally(m, [(tt, x * fac, ww) for tt, x, ww in refs[i].obs], obs, how)
        if case["unit"] != "n/a":
            secs = {"hours": 3600, "minutes": 60}[case["unit"]]
            for u, s in (("seconds", 1), ("minutes", 60), ("hours", 3600), ("days", 86400), ("weeks", 7 * 86400), ("milliseconds", 1e-3), ("years", 365 * 86400)):
                cmp_tally(getattr(ms[i], "to_" + u)(), [(tt, x * secs / s, ww) for tt, x, ww in refs[i].obs], obs, "to_" + u)
                cmp_tally(ms[i].to_time_unit(u), [(tt, x * secs / s, ww) for tt, x, ww in refs[i].obs], obs, "to_time_unit " + u)
        obs("multiplies")
    elif kind == "tmult":
        _, i, fac = op
        if not level:
            return
        m = ms[i].t_multiply(fac)
        e = [(tt * fac, x) for tt, x in refs[i].pts] + [(t * fac, OFF)]
        cmp_level(m, e, max(t, t * fac), obs, "t_multiply")
        obs("t_multiplies")


def shrink(case):
    if case.get("kind") == "builtin":
        return G.shrink_case(case)
    return shrink_ops(case)
