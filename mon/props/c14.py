import math

import salabim as sim
from mon.core import Violation
from mon.refmon import RefLevel, check_level, OFF, numeric, same
from mon.util import shrink_ops, echo, lengthy
from mon.text import check_statistics_text, check_histogram_text, check_values_histogram

ID = "C14"
RULE = ("random histories of a level monitor of every type: tallies (also several at one moment), value setter, time steps, monitoring off and on, resets, reset_now and queries in between; every statistic, the recorded points, "
        "the values at past moments, the printed tables and the dataframes are compared with a step function that is kept apart")
CASES = {"quick": 8000, "thorough": 60000}
REQUIRED = ["level_stats", "level_points", "off_periods", "resets", "tables", "values_tables", "dataframes", "same_time_tallies"]

TYPES = {
    "any": [0, 1, 2, 3.5, -1, "1", "abc", None, True, "2.5", 7],
    "float": [0.0, 1.5, 2, -3.25, 1e6, 0.125],
    "double": [0.0, 1.5, 2, -3.25],
    "bool": [True, False],
    "int8": [0, 1, -5, 100],
    "uint8": [0, 1, 5, 200],
    "int16": [0, 1, -300, 300],
    "uint16": [0, 1, 65000],
    "int32": [0, 1, -70000, 70000],
    "uint32": [0, 1, 70000],
    "int64": [0, 1, -5000000000],
    "uint64": [0, 1, 5000000000],
}
NUMERIC_ANY = [0, 1, 2, 3.5, -1, 7, 0]


def gen(rng, index, tier):
    typ = rng.choice(list(TYPES) + ["any"] * 6 + ["float"] * 2)
    values = NUMERIC_ANY if typ == "any" and rng.random() < 0.5 else TYPES[typ]
    n = rng.randint(4, 40 if tier == "quick" else 120)
    long = rng.random() < 0.01
    n = rng.randint(600, 1600) if long else n
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.40:
            ops.append(["tally", rng.randrange(len(values)), rng.random() < 0.15])
        elif k < 0.70:
            ops.append(["run", rng.choice([0, 0.25, 0.5, 1, 1, 2, 3.25, 10])])
        elif k < 0.80:
            ops.append(["monitor", rng.random() < 0.5])
        elif k < 0.86:
            ops.append(["reset", rng.choice([None, None, True, False])])
        elif k < 0.88:
            ops.append(["reset_now", rng.choice([0, 0, 7, -2.5])])
        else:
            ops.append(["query"])
    if long:  # many entries
        ops = lengthy(rng, ops)
    elif rng.random() < 0.25:
        ops = echo(rng, ops, len(values))
    return {"type": typ, "numeric": values is NUMERIC_ANY, "init": rng.choice([None, rng.randrange(len(values))]), "on": long or rng.random() < 0.85, "ops": ops,
            "qs": [rng.choice([0, 5, 25, 50, 75, 90, 99, 100]), rng.choice([10, 33.3, 50, 66.5])],
            "bins": [[rng.choice([-5, 0, 1]), rng.choice([0, 2, 3.5, 100])], [0, 1]]}


def norm(typ, v):
    if typ == "any":
        return v
    if typ in ("float", "double"):
        return float(v)
    return int(v)


def check(case, obs):
    env = sim.Environment(trace=False, yieldless=False)
    values = NUMERIC_ANY if case["numeric"] else TYPES[case["type"]]
    typ = case["type"]
    init = None if case["init"] is None else values[case["init"]]
    m = sim.Monitor("m", level=True, type=typ, initial_tally=init, monitor=case["on"], env=env)
    ref = RefLevel(0, norm(typ, 0 if init is None else init), on=case["on"])
    t = off = 0

    def verify():
        check_level(m, ref, t, obs, "monitor of type " + typ, qs=case["qs"], bins=[tuple(b) for b in case["bins"]], offset=off)
        if bool(m.monitor()) != ref.on:
            raise Violation("monitor() is %r" % m.monitor())

    for op in case["ops"]:
        if op[0] == "tally":
            v = values[op[1]]
            if op[2]:
                m.value = v
            else:
                m.tally(v)
            if ref.pts[-1][0] == t:
                obs("same_time_tallies")
            ref.tally(t, norm(typ, v))
        elif op[0] == "run":
            env.run(op[1])
            t += op[1]
        elif op[0] == "monitor":
            m.monitor(op[1])
            ref.monitor(t, op[1])
            obs("off_periods", not op[1])
        elif op[0] == "reset":
            m.reset() if op[1] is None else m.reset(op[1])
            ref.reset(t, op[1])
            obs("resets")
        elif op[0] == "reset_now":
            env.reset_now(op[1])
            off = t - op[1]
        else:
            verify()
            verify()  # asking does not change anything
    verify()
    # printed tables
    seg = ref.segments(t)
    fresh = ref.pts[-1][0] == t and ref.pts[-1][1] is not OFF
    xw = [(numeric(x), b - a) for x, a, b in seg]
    if not fresh and all(abs(x) < 1e8 for x, _ in xw):
        check_statistics_text(m.print_statistics(as_str=True), xw, True, obs)
        if xw:
            for ex0 in (False, True):
                check_histogram_text(m, xw, True, ex0, obs, {})
            check_histogram_text(m, xw, True, False, obs, dict(number_of_bins=5, lowerbound=-1, bin_width=1.5))
            check_values_histogram(m, [(x, b - a) for x, a, b in seg], True, obs)
    # dataframes
    import pandas as pd

    df = m.as_dataframe(force_numeric=False)
    xs, ts = m.xt(force_numeric=False)
    if [float(a) for a in df["t"]] != list(ts) or [repr(v) for v in list(df["m.x"])] != [repr(v) for v in list(pd.DataFrame({"x": xs})["x"])]:
        raise Violation("as_dataframe differs from xt()")
    if off == 0 and t > ref.start:
        d = 0.5
        df = m.as_resampled_dataframe(delta_t=d)
        for tt, x in zip(df["t"], df["m.x"]):
            w = ref.at(tt)
            if (w is OFF) != (x is pd.NA or (isinstance(x, float) and x != x and w is OFF)) and not (w is None):
                raise Violation("resampled dataframe at %r: %r, should be %r" % (tt, x, w))
            if w is not OFF and w is not None and not same(x, w):
                raise Violation("resampled dataframe at %r: %r, should be %r" % (tt, x, w))
        want = [ref.start + i * d for i in range(1 + int((t - ref.start) / d))]
        got = list(df["t"])
        if got[: len(want) - 1] != want[:-1]:
            raise Violation("resampled dataframe has times %r, should be %r" % (got, want))
    obs("dataframes")


def shrink(case):
    return shrink_ops(case)
