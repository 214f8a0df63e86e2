import salabim as sim
from mon.core import Violation
from mon.props.c17 import cmp_level, cmp_tally, restrict
from mon.refmon import RefLevel, RefTally
from mon.util import shrink_ops

ID = "C29"
RULE = ("random tallies by a process on a level or non level monitor with one to three period monitors (random periods, created at different times, in both modes, also removed, parent reset, several environments); "
        "each period monitor has to hold exactly the observations (the moments) of its part of the cycle, together all of them once, and to equal the periodic slice of the parent")
CASES = {"quick": 4000, "thorough": 30000}
REQUIRED = ["periods_compared", "entries", "partitions", "slices_compared", "removed", "resets"]


def gen(rng, index, tier):
    level = rng.random() < 0.5
    ops = []
    for _ in range(rng.randint(4, 30 if tier == "quick" else 80)):
        k = rng.random()
        if k < 0.55:
            ops.append(["tally", rng.choice([0, 1, 2, 3.5, -1]), rng.choice([1, 1, 2]) if not level else 1])
        elif k < 0.97:
            ops.append(["hold", rng.choice([0, 0.25, 0.5, 1, 1, 2, 3, 7])])
        else:
            ops.append(["reset", rng.random() < 0.4])
    pms = [{"at": rng.choice([0, 0, 0, 2, 3.5]), "periods": [rng.choice([0.25, 0.5, 1, 1, 2, 3.25]) for _ in range(rng.randint(1, 5))] if rng.random() < 0.85 else None,
            "names": rng.random() < 0.3} for _ in range(rng.randint(1, 3))]
    return {"level": level, "ops": ops, "pms": pms, "yieldless": rng.random() < 0.5, "other": rng.random() < 0.3, "remove": rng.random() < 0.2, "runs": rng.random() < 0.4,
            "before": rng.random() < 0.5, "shift": 0 if level and rng.random() < 0.5 else 0.125}


def check(case, obs):
    level = case["level"]
    env = sim.Environment(trace=False, yieldless=case["yieldless"])
    if case["other"]:  # a later default environment should not matter
        sim.Environment(trace=False, yieldless=case["yieldless"])
    m = sim.Monitor("m", level=level, env=env)
    ref = RefLevel(0, 0) if level else RefTally()
    start = [0]

    def do(op, t):
        if op[0] == "tally":
            m.tally(op[1]) if op[2] == 1 else m.tally(op[1], op[2])
            ref.tally(t, op[1]) if level else ref.tally(t, op[1], op[2])
        elif op[0] == "reset":
            m.reset(True) if op[1:] == [True] else m.reset()
            ref.reset(t) if level else ref.reset()
            start[0] = t
            obs("resets")

    ops = case["ops"]
    if case["yieldless"]:

        class D(sim.Component):
            def process(self):
                if case["shift"]:
                    self.hold(case["shift"])
                for op in ops:
                    if op[0] == "hold":
                        self.hold(op[1])
                    else:
                        do(op, self.env.now())
    else:

        class D(sim.Component):
            def process(self):
                if case["shift"]:
                    yield self.hold(case["shift"])
                for op in ops:
                    if op[0] == "hold":
                        yield self.hold(op[1])
                    else:
                        do(op, self.env.now())

    pms = []

    def make(s):
        kw = {}
        if s["periods"] is not None:
            kw["periods"] = s["periods"]
            if s["names"]:
                kw["period_monitor_names"] = ["p%d" % i for i in range(len(s["periods"]))]
        pm = sim.PeriodMonitor(m, env=env, **kw)
        pms.append([pm, env.now(), s["periods"] or 24 * [1], s["names"] and s["periods"], None])

    first = [s for s in case["pms"] if s["at"] == 0]
    if case["before"]:
        D(env=env)
    for s in first:
        make(s)
    if not level:
        do(["tally", 9, 1], 0)  # before the process of the period monitor has started
    if not case["before"]:
        D(env=env)
    t = 0
    for at in sorted({s["at"] for s in case["pms"]} - {0}):
        env.run(till=at)
        t = at
        for s in case["pms"]:
            if s["at"] == at:
                make(s)
    total = sum(op[1] for op in ops if op[0] == "hold") + case["shift"]
    end = max(t, total) + 0.0625
    if case["runs"]:
        env.run(till=t + (end - t) / 2)
    removed = None
    if case["remove"] and len(pms) > 1:
        env.run(till=t + (end - t) * 0.75)
        removed = pms.pop(0)
        removed[0].remove()
        obs("removed")
    env.run(till=end)
    verify(case, m, ref, pms, end, start[0], level, obs)


def verify(case, m, ref, pms, now, start, level, obs):
    if level:
        cmp_level(m, ref.pts, now, obs, "parent monitor")
    else:
        cmp_tally(m, ref.obs, obs, "parent monitor")
    for pm, t0, periods, names, _ in pms:
        cycle = sum(periods)
        cum = 0
        n = 0
        dur = 0
        for i, p in enumerate(periods):
            mon = pm[i]
            lo, hi = cum, cum + p
            inside = lambda x: x >= t0 and lo <= (x - t0) % cycle < hi
            what = "period monitor %d of %r (created at %r)" % (i, periods, t0)
            if level:
                k = int((now - t0) / cycle) + 2
                extra = [t0 + lo + q * cycle for q in range(k)] + [t0 + hi + q * cycle for q in range(k)] + [t0]
                cmp_level(mon, restrict(ref.pts, now, inside, extra), now, obs, what)
                dur += mon.duration()
            else:
                e = [o for o in ref.obs if inside(o[0])]
                cmp_tally(mon, e, obs, what)
                n += len(e)
                obs("entries", len(e))
            if mon.name() != ("p%d" % i if names else "%s.period [%s - %s]" % (m.name(), lo, hi)):
                raise Violation("name of period monitor %d is %r" % (i, mon.name()))
            if t0 == 0 and len(periods) > 1:
                s = m[lo:hi:cycle]
                if level:
                    cmp_level(s, restrict(ref.pts, now, inside, extra), now, obs, "periodic slice")
                else:
                    cmp_tally(s, e, obs, "periodic slice")
                obs("slices_compared")
            cum += p
            obs("periods_compared")
        if level:
            want = now - max(t0, start)
            if abs(dur - want) > 1e-9:
                raise Violation("durations of the periods add up to %r, should be %r" % (dur, want))
        elif n != len([o for o in ref.obs if o[0] >= t0]):
            raise Violation("period monitors hold %d observations" % n)
        obs("partitions")


def shrink(case):
    return shrink_ops(case)
