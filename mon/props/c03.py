from mon.kernel import KernelProp, run_pair, diff
from mon import gen as G
from mon.core import Violation, sim
import random
from mon.real import RealWorld

P = KernelProp(
    "C03",
    [
        dict(comps=(2, 6), len=(3, 10), runs=(2, 9), runprio=0.6, ops=dict(hold=10, oactivate=2, create=0.5, passivate=0.5, stop=0.7, standby=0.3, ocancel=0.2),
             mainops=dict(oactivate=3, create=2, ohold=1, opassivate=0.5, ocancel=0.3, stop=0.1)),
        dict(comps=(2, 6), len=(3, 10), runs=(2, 9), runprio=0.4, resources=(1, 2), states=(1, 1), ops=dict(hold=8, request=2, release=2, wait=1, set=1, stop=0.3),
             mainops=dict(oactivate=1, set=1, create=1, rcap=0.5)),
    ],
    "(a) random models with many run(duration)/run(till)/run() calls with priorities, urgent and main.activate(), compared with the reference model (now() after each run, events executed "
    "before and after it); (b) the same model run at once and in random pieces, recorded events and states compared; (c) components scheduled at and runs till arbitrary floating point times, to be met exactly",
    {"quick": 10000, "thorough": 60000}, required=("log_runend", "split_runs", "log_cont", "float_runs", "float_events"),
)

SPLIT = [
    dict(comps=(2, 7), len=(3, 12), runs=(1, 1), noinf=True, resources=(0, 2), states=(0, 1), stores=(0, 1), fail=0.3, drain=False,
         ops=dict(hold=10, oactivate=2, ohold=0.5, interrupt=0.7, resume=1, passivate=0.5, create=0.6, ocancel=0.3), mainops={}),
]
OPT = dict(resources=dict(request=3, release=2), states=dict(wait=2, set=2, trigger=0.5), stores=dict(from_store=2, to_store=2))

_gen = P.gen


def gen(rng, index, tier):
    if index % 8 == 5:
        return gen_float(rng)
    if index % 2 == 0:
        return _gen(rng, index // 2, tier)
    prof = dict(SPLIT[0], ops=dict(SPLIT[0]["ops"]))
    for k, ops in OPT.items():
        if rng.random() < 0.5:
            prof[k] = (1, 2)
            prof["ops"].update(ops)
        else:
            prof[k] = (0, 0)
    case = G.build(rng, prof)
    total = rng.choice([3, 5, 8, 12])
    cuts = sorted({rng.choice([x * 0.25 for x in range(0, int(total * 4) + 1)]) if rng.random() < 0.8 else rng.choice([rng.randrange(total * 64) / 64, rng.uniform(0, total)]) for _ in range(rng.randint(1, 6))})
    case["split"] = {"total": total, "cuts": cuts, "till": [rng.random() < 0.5 or any(c * 64 != int(c * 64) for c in cuts) for _ in range(len(cuts) + 1)], "drain": rng.random() < 0.4}
    case["yieldless"] = rng.random() < 0.5
    return case


def gen_float(rng):
    scale = rng.choice([1, 1, 10, 1000, 1e6, 0.01])
    u = lambda: rng.choice([rng.uniform(0, scale), round(rng.uniform(0, scale), 1), round(rng.uniform(0, scale), 3)])  # noqa: E731
    ops = []
    for _ in range(rng.randint(3, 12)):
        k = rng.choice(["till", "till", "till", "duration", "at", "at", "hold_till"])
        ops.append([k, u(), rng.randrange(10 ** 6)])
    return {"float": ops, "yieldless": rng.random() < 0.5, "name": "float"}


def check_float(case, obs):
    """arbitrary floating point times: a time that is given is met exactly"""
    yl = case["yieldless"]
    env = sim.Environment(yieldless=yl)
    log = []
    due = []

    class Y(sim.Component):
        def setup(self, then=None):
            self.then = then

        def process(self):
            log.append((env.now(), self.name()))
            if self.then is not None:
                yield self.hold(till=self.then)
                log.append((env.now(), self.name() + "'"))

    class N(Y):
        def process(self):
            log.append((env.now(), self.name()))
            if self.then is not None:
                self.hold(till=self.then)
                log.append((env.now(), self.name() + "'"))
    last = env.now()

    def absolute(t, x):
        return round(env.now() + t, x % 5) if x % 3 else (x % 1000) * t / 7 if x % 2 else env.now() + t

    for i, (k, t, x) in enumerate(case["float"]):
        if k in ("till", "duration"):
            want = env.now() + t
            if k == "till":
                want = max(absolute(t, x), env.now())
                env.run(till=want)
                if env.now() != want:
                    raise Violation("run(till=%r) ended at %r" % (want, env.now()))
            else:
                env.run(duration=t)
                if abs(env.now() - want) > 1e-12 * max(1, want):
                    raise Violation("run(duration=%r) from %r ended at %r" % (t, last, env.now()))
                want = env.now()
            for n, d in due:
                if (d < want) != ((d, n) in log) and d != want:
                    raise Violation("after running till %r: %s, due at %r, executed at %r" % (want, n, d, [a for a, b in log if b == n]))
            for a, n in log:
                if not any(n == n1 and a == d for n1, d in due):
                    raise Violation("%s executed at %r, due at %r" % (n, a, [d for n1, d in due if n1 == n]))
            if [a for a, n in log] != sorted(a for a, n in log):
                raise Violation("events not in order of time")
            last = env.now()
            obs("float_runs")
        else:
            at = max(absolute(t, x), env.now())
            then = max(at, random.Random(x).uniform(0, 2) + random.Random(x).choice([at, round(at, 1)])) if k == "hold_till" else None
            c = (N if yl else Y)("c%d" % i, at=at, then=then)
            if c.scheduled_time() != at or (at < env.peek()):
                raise Violation("component created at %r with at=%r is scheduled for %r" % (env.now(), at, c.scheduled_time()))
            due.append((c.name(), at))
            if then is not None:
                due.append((c.name() + "'", then))
            obs("float_events")
    env.run()
    if sorted(log) != sorted((d, n) for n, d in due):
        raise Violation("executed %r, should be %r" % (sorted(log), sorted((d, n) for n, d in due)))
    if due and env.now() != max([last] + [d for n, d in due]):
        raise Violation("run() ended at %r, last event at %r" % (env.now(), max(d for n, d in due)))
    obs.sig = log


def check(case, obs):
    if "float" in case:
        return check_float(case, obs)
    if "split" not in case:
        return P.__class__.check(P, case, obs)
    sp = case["split"]
    whole = dict(case, main=[["run", -3, {"d": sp["total"]}]] + ([["run", -3, {}]] if sp["drain"] else []))
    pts = [0] + sp["cuts"] + [sp["total"]]
    pieces = []
    for a, b, till in zip(pts, pts[1:], sp["till"]):
        kw = {"d": b - a}
        if till:
            kw["use_at"] = True
        pieces.append(["run", -3, kw])
    if sp["drain"]:
        pieces.append(["run", -3, {}])
    a = RealWorld(whole, yieldless=case["yieldless"])
    a.simulate()
    b = RealWorld(dict(case, main=[]), yieldless=case["yieldless"])
    b.snap()
    for op, t in zip(pieces, pts[1:] + [None]):
        b.env.run(**({"till": t} if op[2].get("use_at") else ({} if op[2].get("d") is None else {"duration": op[2]["d"]})))
        if t is not None and b.env.now() != t and (op[2].get("use_at") or abs(b.env.now() - t) > 1e-9):
            raise Violation("run until %r ended at %r" % (t, b.env.now()))
        obs("split_runs")
    b.snap()
    d = diff(strip(a.log), strip(b.log), "single run", "split run")
    if d:
        raise Violation(d)
    if abs(a.env.now() - b.env.now()) > 1e-9:
        raise Violation("single run ended at %r, split run at %r" % (a.env.now(), b.env.now()))
    fa, fb = final(a), final(b)
    if fa != fb:
        raise Violation("final state differs: single run %r, split run %r" % (fa, fb))
    obs("log_cont", sum(1 for e in b.log if e[0] == "cont"))
    from mon.core import digest
    obs.sig = digest(strip(b.log))
    obs.nontrivial = len(b.log) > 20


SN = ("snap", "res", "sta", "sto", "que")


def strip(log):
    """observations by components only: snapshots taken by main are dropped"""
    out = []
    cur = None
    for e in log:
        if e[0] == "snap":
            cur = e[2]
            e = ("snap",) + e[2:]
        if e[0] == "runend" or (e[0] in SN and cur == "main"):
            continue
        out.append(e)
    return out


def final(w):
    n = len(w.log)
    w.snap()
    s = w.log[n:]
    del w.log[n:]
    return [(("snap",) + e[2:]) if e[0] == "snap" else e for e in s]


def shrink(case):
    if "float" in case:
        return [dict(case, float=case["float"][:k] + case["float"][k + 1:]) for k in range(len(case["float"]))]
    return G.shrink_case(case)


_g, _c, _s = gen, check, shrink
P.export(globals())
gen, check, shrink = _g, _c, _s
