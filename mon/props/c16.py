import math

import salabim as sim
from mon.core import Violation
from mon.refmon import RefLevel, RefTally, check_level, check_tally, same
from mon.text import check_statistics_text
from mon.util import shrink_ops, echo, lengthy

ID = "C16"
RULE = ("the same random tallies, resets, on/off switches and time steps on a full and a stats_only monitor (level and non level), with queries at arbitrary moments; also turned into stats_only by a reset; "
        "both are compared with the reference and with each other, and the printed statistics of both have to be identical")
CASES = {"quick": 8000, "thorough": 60000}
REQUIRED = ["level_stats", "tally_stats", "resets", "off_periods", "switched", "tables", "blocked"]
VALUES = [0, 1, 2, 3.5, -1, 7, 0, "2", "x", True, 100.25]


def gen(rng, index, tier):
    n = rng.randint(3, 40 if tier == "quick" else 120)
    long = rng.random() < 0.01
    n = rng.randint(600, 1600) if long else n
    level = rng.random() < 0.5
    weighted = rng.random() < 0.5
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.45:
            ops.append(["tally", rng.randrange(len(VALUES)), rng.choice([1, 1, 2, 0.5, 0, 0.75]) if weighted and not level else 1])
        elif k < 0.72:
            ops.append(["run", rng.choice([0, 0.25, 1, 1, 2, 5])])
        elif k < 0.80:
            ops.append(["monitor", rng.random() < 0.5])
        elif k < 0.85:
            ops.append(["reset", rng.choice([None, None, True, False])])
        elif k < 0.87:
            ops.append(["switch"])
        else:
            ops.append(["query", rng.randrange(10)])
    if long:  # many entries
        ops = lengthy(rng, ops)
    elif rng.random() < 0.25:
        ops = echo(rng, ops, len(VALUES), ("query", rng.randrange(10)))
    return {"level": level, "init": rng.randrange(len(VALUES)), "on": long or rng.random() < 0.85, "ops": ops, "later": rng.random() < 0.3}


STATS = ["mean", "std", "minimum", "maximum"]


def check(case, obs):
    env = sim.Environment(trace=False, yieldless=False)
    level = case["level"]
    kw = dict(level=True, initial_tally=VALUES[case["init"]]) if level else {}
    full = sim.Monitor("m", monitor=case["on"], env=env, **kw)
    so = sim.Monitor("m", monitor=case["on"], stats_only=not case["later"], env=env, **kw)
    if case["later"]:
        so.reset(stats_only=True)
    t = 0
    ref = RefLevel(0, VALUES[case["init"]], on=case["on"]) if level else RefTally(on=case["on"])
    names = STATS + (["duration"] if level else ["weight", "number_of_entries"])

    last = [0]

    def verify(order):
        fresh = level and ref.pts[-1][0] == t
        for i in range(len(names)):  # in varying order, as a query might update the accumulated statistics
            n = names[(i + order) % len(names)]
            for ex0 in (False, True):
                a, b = getattr(full, n)(ex0=ex0), getattr(so, n)(ex0=ex0)
                if n in ("minimum", "maximum") and fresh:
                    continue
                if not same(a, b, 1e-6 if n == "std" else 1e-9):
                    raise Violation("%s(ex0=%r) is %r for the stats_only monitor, %r for the full one" % (n, ex0, b, a))
        if level:
            check_level(full, ref, t, obs, "full monitor", full=False)
            check_level(so, ref, t, obs, "stats_only monitor", full=False)
        else:
            check_tally(full, ref, obs, "full monitor", full=False)
            check_tally(so, ref, obs, "stats_only monitor", full=False)
        if level and not (so.t() == full.t() == last[0]):
            raise Violation("time of last tally is %r for the stats_only monitor, %r for the full one, should be %r" % (so.t(), full.t(), last[0]))
        if bool(so.monitor()) != ref.on or bool(full.monitor()) != ref.on:
            raise Violation("monitor() is %r" % so.monitor())
        if not so.stats_only() or full.stats_only():
            raise Violation("stats_only() wrong")

    for op in case["ops"]:
        if op[0] == "tally":
            v = VALUES[op[1]]
            for m in (full, so):
                m.tally(v) if op[2] == 1 else m.tally(v, op[2])
            last[0] = env.now()
            ref.tally(t, v) if level else ref.tally(t, v, op[2])
        elif op[0] == "run":
            env.run(op[1])
            t += op[1]
        elif op[0] == "monitor":
            full.monitor(op[1])
            so.monitor(op[1])
            if level:
                ref.monitor(t, op[1])
            else:
                ref.on = op[1]
            obs("off_periods", not op[1])
        elif op[0] in ("reset", "switch"):
            on = op[1] if op[0] == "reset" else None
            if op[0] == "switch":  # back and forth
                full.reset(stats_only=True)
                full.reset(stats_only=False)
                so.reset(stats_only=False)
                so.reset(stats_only=True)
                obs("switched")
            else:
                for m in (full, so):
                    m.reset() if on is None else m.reset(on)
            ref.reset(t, on) if level else ref.reset(on)
            obs("resets")
        else:
            verify(op[1])
    verify(0)
    fresh = level and ref.pts[-1][0] == t
    if not fresh:
        a = [l for l in full.print_statistics(as_str=True).split("\n") if "median" not in l and "percentile" not in l]
        b = so.print_statistics(as_str=True).split("\n")
        # a weight is only shown after a tally with a weight
        def line(l):
            return [x if not x.startswith("-0") else x[1:] for x in l.split()]
        for x, y in zip(a, b):
            if not close_line(line(x), line(y)):
                raise Violation("printed statistics differ: %r (stats_only) %r (full)" % (y, x))
        if len(a) != len(b):
            raise Violation("printed statistics differ in length")
        so.print_histogram(as_str=True)
        obs("tables")
    for what in (lambda: so.xt(), lambda: so.percentile(50), lambda: so.values()):
        try:
            what()
        except NotImplementedError:
            obs("blocked")
        else:
            raise Violation("stats_only monitor gives values that it does not keep")


def close_line(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        try:
            if abs(float(x) - float(y)) > 0.0011:
                return False
        except ValueError:
            if x != y:
                return False
    return True


def shrink(case):
    return shrink_ops(case)
