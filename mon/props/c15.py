import salabim as sim
from mon.core import Violation
from mon.props.c14 import TYPES, NUMERIC_ANY, norm
from mon.refmon import RefTally, check_tally, numeric
from mon.text import check_statistics_text, check_histogram_text, check_values_histogram, check_odd, ODD
from mon.util import shrink_ops, echo, lengthy

ID = "C15"
RULE = ("random histories of a non level monitor of every type: tallies with and without weights (also zero), fill, monitoring off and on, resets, queries in between; all statistics with and without zeroes, x, xweight, xt, "
        "the printed statistics and histograms and the dataframe are compared with textbook values over the list of observations")
CASES = {"quick": 8000, "thorough": 60000}
REQUIRED = ["tally_stats", "tally_entries", "off_periods", "resets", "tables", "values_tables", "infinite_values", "dataframes", "weighted", "fills"]


def gen(rng, index, tier):
    typ = rng.choice(list(TYPES) + ["any"] * 6 + ["float"] * 3)
    values = NUMERIC_ANY if typ == "any" and rng.random() < 0.5 else TYPES[typ]
    n = rng.randint(3, 40 if tier == "quick" else 120)
    long = rng.random() < 0.01
    n = rng.randint(600, 1600) if long else n
    weighted = rng.random() < 0.4
    ops = []
    for _ in range(n):
        k = rng.random()
        if k < 0.62:
            w = rng.choice([1, 1, 2, 0.5, 3, 0.25, 0]) if weighted else 1
            ops.append(["tally", rng.randrange(len(values)) if rng.random() < 0.7 or typ not in ("any", "float") or values is not NUMERIC_ANY else rng.choice([-1]), w])
        elif k < 0.75:
            ops.append(["run", rng.choice([0.25, 1, 2])])
        elif k < 0.83:
            ops.append(["monitor", rng.random() < 0.6])
        elif k < 0.87:
            ops.append(["reset", rng.choice([None, None, True, False])])
        else:
            ops.append(["query"])
    if long:  # many entries
        ops = lengthy(rng, ops)
    elif rng.random() < 0.25:
        ops = echo(rng, ops, len(values))
    return {"type": typ, "numeric": values is NUMERIC_ANY, "on": long or rng.random() < 0.85, "ops": ops, "legend": rng.choice([None, None, "kilos"]),
            "fill": [rng.randrange(len(values)) for _ in range(rng.randint(1, 6))] if rng.random() < 0.2 else None,
            "odd": [[rng.randrange(len(ODD)), 1 if rng.random() < 0.5 else rng.choice([0.5, 2, 3])] for _ in range(rng.randint(1, 8))] if rng.random() < 0.15 else None,
            "qs": [rng.choice([-5, 0, 5, 25, 50, 75, 90, 99, 100, 101]), rng.choice([10, 33.3, 50, 66.5])],
            "bins": [[rng.choice([-5, 0, 1]), rng.choice([0, 2, 3.5, 100])], [0, 1]]}


def check(case, obs):
    env = sim.Environment(trace=False, yieldless=False)
    values = NUMERIC_ANY if case["numeric"] else TYPES[case["type"]]
    typ = case["type"]
    kw = {}
    if case["legend"]:
        kw["weight_legend"] = case["legend"]
    ref = RefTally(on=case["on"])
    if case["fill"] is not None:
        kw["fill"] = [values[i] for i in case["fill"]]
        ref.obs = [(0, norm(typ, values[i]), 1) for i in case["fill"]]
        obs("fills")
    m = sim.Monitor("m", type=typ, monitor=case["on"], env=env, **kw)
    t = 0

    def verify():
        check_tally(m, ref, obs, "monitor of type " + typ, qs=case["qs"], bins=[tuple(b) for b in case["bins"]])
        if bool(m.monitor()) != ref.on:
            raise Violation("monitor() is %r" % m.monitor())

    for op in case["ops"]:
        if op[0] == "tally":
            v = values[op[1]]
            if op[2] == 1:
                m.tally(v)
            else:
                m.tally(v, op[2])
            ref.tally(t, norm(typ, v), op[2])
        elif op[0] == "run":
            env.run(op[1])
            t += op[1]
        elif op[0] == "monitor":
            m.monitor(op[1])
            ref.on = op[1]
            obs("off_periods", not op[1])
        elif op[0] == "reset":
            m.reset() if op[1] is None else m.reset(op[1])
            ref.reset(op[1])
            obs("resets")
        else:
            verify()
            verify()
    verify()
    raw = ref.sample()
    xw = [(numeric(x), w) for x, w in raw]
    weighted = any(w != 1 for _, w in xw)
    obs("weighted", weighted)
    if all(abs(x) < 1e8 for x, _ in xw) and all(w for _, w in xw):
        if not case["legend"]:
            check_statistics_text(m.print_statistics(as_str=True), xw, "weight" if weighted else False, obs)
        if xw:
            for ex0 in (False, True):
                check_histogram_text(m, xw, weighted, ex0, obs, {})
            check_histogram_text(m, xw, weighted, False, obs, dict(number_of_bins=5, lowerbound=-1, bin_width=1.5))
            check_histogram_text(m, xw, weighted, True, obs, dict(number_of_bins=3, lowerbound=0, bin_width=2))
            check_values_histogram(m, raw, "weight" if weighted else False, obs)
    df = m.as_dataframe(force_numeric=True)
    if [float(a) for a in df["t"]] != [t for t, _, _ in ref.obs] or [float(v) for v in df["m.x"]] != [float(x) for x, _ in xw]:
        raise Violation("as_dataframe differs")
    obs("dataframes")
    if case["odd"]:
        check_odd(sim, env, case["odd"], obs)


def shrink(case):
    return shrink_ops(case)
