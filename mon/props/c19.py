import math
import operator
import random

import numpy
import scipy.special
import scipy.stats

from mon.core import Violation, sim

ID = "C19"
RULE = ("random distributions with random parameters, time units and streams; thousands of samples per distribution are checked for support, against the specified probability law "
        "(deviation bounds that a correct sampler exceeds with probability < 1e-11), for independence, for reproducibility and for leaving other random streams alone; "
        "composite distributions are compared sample by sample with their parts; boundary values of the random stream are injected")
CASES = {"quick": 6000, "thorough": 40000}
KINDS = ["Exponential", "Normal", "Uniform", "Triangular", "Constant", "Weibull", "Gamma", "Beta", "Erlang", "IntUniform", "Poisson",
         "Pdf", "CumPdf", "Cdf", "External", "string", "expression", "Map", "Bounded", "sample_n", "invalid"]
REQUIRED = ["samples", "law", "boundary_draws", "time_unit", "global_stream", "own_stream"] + ["kind_" + k for k in KINDS]
ASSUMPTIONS = ["Python's random.Random, numpy.random and scipy.stats generate what they document",
               "probability laws are decided within statistical resolution (about 2.5% in distribution at 20000 samples, sharper for small probabilities)"]
L = 29.0  # -ln of half the probability of a false alarm of one bound
UNITS = {"years": 86400 * 365, "weeks": 86400 * 7, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 1e-3, "microseconds": 1e-6}


def r3(rng, a, b):
    return round(rng.uniform(a, b), 3)


def gen_simple(rng, kind):
    if kind == "Exponential":
        m = rng.choice([r3(rng, 0.01, 10), rng.choice([1, 100, 1e-3])])
        return rng.choice([{"mean": m}, {"rate": m}])
    if kind == "Normal":
        m = rng.choice([0, r3(rng, -10, 10), 50])
        a = {"mean": m}
        x = rng.random()
        if x < 0.6:
            a["standard_deviation"] = rng.choice([0, r3(rng, 0.01, 5), 1])
        elif x < 0.9:
            a["mean"] = abs(m) or 3
            a["coefficient_of_variation"] = r3(rng, 0.01, 2)
        if rng.random() < 0.3:
            a["use_gauss"] = True
        return a
    if kind == "Uniform":
        lo = r3(rng, -10, 10)
        return {"lowerbound": lo, "upperbound": lo + rng.choice([0, r3(rng, 0.01, 20), 1])} if rng.random() < 0.9 else {"lowerbound": lo}
    if kind == "Triangular":
        lo = r3(rng, -10, 10)
        hi = lo + rng.choice([r3(rng, 0.01, 20), 1, 0])
        a = {"low": lo, "high": hi}
        x = rng.random()
        if x < 0.2:
            a["mode"] = lo
        elif x < 0.4:
            a["mode"] = hi
        elif x < 0.8:
            a["mode"] = lo + (hi - lo) * rng.random()
        if x > 0.95:
            del a["high"]
        return a
    if kind == "Constant":
        return {"value": rng.choice([0, 1, r3(rng, -10, 10), 7])}
    if kind == "Weibull":
        return {"scale": r3(rng, 0.1, 10), "shape": rng.choice([1, 2, r3(rng, 0.5, 5)])}
    if kind == "Gamma":
        return {"shape": rng.choice([1, 2, r3(rng, 0.2, 8)]), rng.choice(["scale", "rate"]): r3(rng, 0.1, 5)}
    if kind == "Beta":
        return {"alpha": rng.choice([1, r3(rng, 0.3, 6)]), "beta": rng.choice([1, r3(rng, 0.3, 6)])}
    if kind == "Erlang":
        return {"shape": rng.choice([1, 2, 3, 5, 10, 4.0]), rng.choice(["scale", "rate"]): r3(rng, 0.1, 5)}
    if kind == "IntUniform":
        lo = rng.randint(-10, 10)
        return {"lowerbound": lo, "upperbound": lo + rng.choice([0, 1, 5, 9, 99])} if rng.random() < 0.9 else {"lowerbound": lo}
    if kind == "Poisson":
        a = {"mean": rng.choice([r3(rng, 0.01, 3), r3(rng, 3, 40), 100, 1, 300, 700, 740, 744.2, 745, 746, 800])}
        if rng.random() < 0.2:
            a["prefer_numpy"] = True
        return a
    raise AssertionError(kind)


TIMED = ["Exponential", "Normal", "Uniform", "Triangular", "Constant", "Weibull", "Gamma", "Erlang", "IntUniform"]


def gen_pdf(rng, kind):
    n = rng.randint(1, 7)
    typ = rng.choice(["num", "num", "str", "mixed", "dist"])
    pool = {"num": [0, 1, 2, 5, 10, 12.5, -3, 0.25, 100], "str": ["a", "b", "c", "x y", "", "1", "z"], "mixed": [1, "a", 2.5, "b", None, True, -4]}
    if typ == "dist":
        xs = [["dist", k, gen_simple(rng, k), rng.randrange(10 ** 6)] if rng.random() < 0.6 else rng.randint(0, 20)
              for k in (rng.choice(["Uniform", "Exponential", "Uniform", "Normal", "Constant"]) for _ in range(n))]
    else:
        xs = rng.sample(pool[typ], n)
        if rng.random() < 0.15 and n > 1:
            xs[-1] = xs[0]
    style = rng.choice(["equal", "equal", "any", "any", "any", "zeros", "tiny"])
    if style == "equal":
        p = [rng.choice([1, 0.25, 10])] * n
    elif style == "any":
        p = [rng.choice([rng.randint(1, 10), r3(rng, 0.01, 1)]) for _ in range(n)]
    elif style == "zeros":
        p = [rng.choice([0, 0, 1, 3]) for _ in range(n)]
        p[rng.randrange(n)] = 2
    else:
        p = [rng.choice([1e-3, 1, 0.1, 1e-9]) for _ in range(n)]
        p[rng.randrange(n)] = 1
    form = rng.choice(["flat", "pair", "pairtuple"] + (["dict"] if typ in ("num", "str") and len(set(map(str, xs))) == n else []) + (["scalar"] * 2 if style == "equal" else []))
    if kind == "CumPdf" and form in ("dict", "scalar"):
        form = "flat"
    return {"xs": xs, "p": p, "form": form, "typ": typ, "pm": rng.random() < 0.4}


def gen_cdf(rng):
    n = rng.randint(2, 6)
    x = r3(rng, -5, 5)
    c = 0
    spec = [x, 0]
    for i in range(n):
        x = round(x + rng.choice([0, 0, r3(rng, 0.1, 5), 1]), 3)
        c = round(c + (rng.choice([0, r3(rng, 0.05, 2), 5, 1]) if i < n - 1 else rng.choice([1, r3(rng, 0.1, 2)])), 3)
        spec += [x, c]
    return {"spec": spec}


def gen_any(rng, depth=0):
    """-> [kind, args] of a numeric distribution without time unit"""
    k = rng.choice(["Exponential", "Normal", "Uniform", "Triangular", "Constant", "IntUniform", "Gamma", "Cdf", "Beta"])
    return [k, gen_cdf(rng) if k == "Cdf" else gen_simple(rng, k), rng.randrange(10 ** 6)]


def gen(rng, index, tier):
    kind = KINDS[index % len(KINDS)]
    case = {"kind": kind, "seed": rng.randrange(10 ** 9), "n": rng.choice([300, 3000, 20000]) if tier == "quick" else rng.choice([3000, 20000, 60000]), "glob": rng.random() < 0.3}
    if kind in ("Pdf", "CumPdf"):
        case["args"] = gen_pdf(rng, kind)
    elif kind == "sample_n":
        a = gen_pdf(rng, kind)
        a["p"] = [a["p"][0] or 1] * len(a["p"]) if rng.random() < 0.8 else a["p"]
        case["args"] = a
        case["k"] = [rng.randint(-1, 9) for _ in range(20)]
    elif kind == "Cdf":
        case["args"] = gen_cdf(rng)
    elif kind == "External":
        case["args"] = rng.choice([
            ["random", "uniform", [1, 3], {}], ["random", "expovariate", [0.5], {}], ["random", "gauss", [5, 2], {}], ["random", "triangular", [], {"low": 1, "high": 5, "mode": 4}],
            ["numpy", "uniform", [1, 3], {}], ["numpy", "normal", [], {"loc": 5, "scale": 2, "size": 17}], ["numpy", "exponential", [], {"scale": 2, "size": 100}],
            ["scipy", "norm", [], {"loc": 5, "scale": 2}], ["scipy", "norm", [5, 2], {}], ["scipy", "uniform", [], {"loc": 1, "scale": 2, "size": 33}], ["scipy", "expon", [], {"scale": 2, "size": 7}],
            ["scipy", "gamma", [2.5], {"scale": 2}], ["scipy", "gamma", [], {"a": 2.5, "scale": 2, "size": 11}], ["scipy", "triang", [0.5, 1, 4], {"size": 5}]])
    elif kind == "string":
        k = rng.choice(["Exponential", "Normal", "Uniform", "Triangular", "Constant", "Weibull", "Gamma", "Beta", "Erlang", "IntUniform", "Poisson", "Pdf", "CumPdf", "Cdf"])
        if k in ("Pdf", "CumPdf"):
            a = gen_pdf(rng, "CumPdf")
            while a["typ"] == "dist" or a["form"] == "scalar":
                a = gen_pdf(rng, "CumPdf")
            a["form"] = "flat"
            a["pm"] = False
            case["args"] = a
        else:
            case["args"] = gen_cdf(rng) if k == "Cdf" else gen_simple(rng, k)
        case["inner"] = k
        minlen = {"Erlang": 2, "Cdf": 2, "CumPdf": 2, "Poisson": 2}.get(k, 1)
        case["short"] = rng.choice([len(k), len(k), rng.randint(minlen, len(k))])
        case["casing"] = rng.choice(["", "u", "l"])
        case["blank"] = rng.random() < 0.3
        case["plain"] = rng.random() < 0.3
    elif kind == "expression":
        def tree(d):
            x = rng.random()
            if d == 0 or x < 0.25:
                return gen_any(rng)
            if x < 0.4:
                return ["num", rng.choice([1, 2, 0.5, -3, 10])]
            if x < 0.5:
                return [rng.choice(["+", "-"]), tree(d - 1)]
            op = rng.choice(["add", "sub", "mul", "truediv", "floordiv", "pow"])
            return [op, tree(d - 1), ["num", rng.choice([1, 2, 3])] if op in ("pow",) else tree(d - 1)]
        t = tree(3)
        while t[0] == "num":
            t = tree(3)
        case["args"] = t
        case["n"] = 200
    elif kind == "Map":
        case["args"] = gen_any(rng)
        case["f"] = rng.choice(["int", "round", "square", "str", "neg"])
        case["n"] = 300
    elif kind == "Bounded":
        case["args"] = gen_any(rng)
        case["q"] = sorted([rng.random(), rng.random()])
        case["use"] = [rng.random() < 0.7, rng.random() < 0.7]
        case["incl"] = [rng.random() < 0.6, rng.random() < 0.6]
        case["fail"] = rng.choice([None, None, 99, -1])
        case["tries"] = rng.choice([None, None, 0, 1, 2, 5])
        case["meth"] = rng.random() < 0.3
        case["n"] = 300
    elif kind == "invalid":
        case["args"] = rng.randrange(len(INVALID))
    else:
        case["args"] = gen_simple(rng, kind)
    if (kind in TIMED + ["Pdf", "CumPdf", "Cdf", "External", "string"]) and rng.random() < 0.4:
        if not (kind in ("Pdf", "CumPdf") and case["args"]["typ"] != "num") and not (kind == "string" and (case["inner"] not in TIMED + ["Cdf"])):
            case["unit"] = [rng.choice(list(UNITS)), rng.choice(list(UNITS))]
    return case


INVALID = [
    (ValueError, lambda: sim.Exponential(0)), (ValueError, lambda: sim.Exponential(-1)), (TypeError, lambda: sim.Exponential()), (TypeError, lambda: sim.Exponential(1, rate=1)),
    (ValueError, lambda: sim.Exponential(rate=0)), (ValueError, lambda: sim.Normal(1, -1)), (TypeError, lambda: sim.Normal(1, 1, coefficient_of_variation=1)),
    (ValueError, lambda: sim.Normal(0, coefficient_of_variation=1)), (ValueError, lambda: sim.IntUniform(2, 1)), (TypeError, lambda: sim.IntUniform(0.5, 1)), (TypeError, lambda: sim.IntUniform(0, 1.5)),
    (ValueError, lambda: sim.Uniform(2, 1)), (ValueError, lambda: sim.Triangular(2, 1)), (ValueError, lambda: sim.Triangular(1, 2, 3)), (ValueError, lambda: sim.Triangular(1, 2, 0)),
    (ValueError, lambda: sim.Poisson(0)), (ValueError, lambda: sim.Weibull(1, 0)), (ValueError, lambda: sim.Gamma(0, 1)), (ValueError, lambda: sim.Gamma(1, 0)), (TypeError, lambda: sim.Gamma(1)),
    (TypeError, lambda: sim.Gamma(1, 1, rate=1)), (ValueError, lambda: sim.Beta(0, 1)), (ValueError, lambda: sim.Beta(1, 0)), (TypeError, lambda: sim.Erlang(1.5, 1)), (ValueError, lambda: sim.Erlang(0, 1)),
    (TypeError, lambda: sim.Erlang(1)), (ValueError, lambda: sim.Erlang(1, 0)), (ValueError, lambda: sim.Cdf((0, 1, 2, 3))), (ValueError, lambda: sim.Cdf((1, 0, 0, 3))),
    (ValueError, lambda: sim.Cdf((0, 0, 1, 3, 2, 2))), (ValueError, lambda: sim.Cdf((0, 0, 1))), (ValueError, lambda: sim.Cdf((0, 0, 1, 0))), (ValueError, lambda: sim.Pdf((1, 2, 3))),
    (ValueError, lambda: sim.Pdf((1, 0, 3, 0))), (ValueError, lambda: sim.Pdf((1, 2, 3), (1, 2))), (ValueError, lambda: sim.CumPdf((1, 0.5, 2, 0.3))), (ValueError, lambda: sim.CumPdf((1, 0.5, 2))),
    (ValueError, lambda: sim.CumPdf((1, 0, 2, 0))), (ValueError, lambda: sim.Bounded(sim.Uniform(1, 2), 2, 1)), (TypeError, lambda: sim.Exponential(1, randomstream=1)),
    (TypeError, lambda: sim.Uniform(1, 2, randomstream="x")), (ValueError, lambda: sim.Distribution("1,2,3,4")),
    (ValueError, lambda: sim.Gamma(1, rate=0)), (ValueError, lambda: sim.Gamma(1, rate=-1)), (ValueError, lambda: sim.Gamma(1, -1)), (ValueError, lambda: sim.Gamma(-1, 1)), (ValueError, lambda: sim.Erlang(1, scale=0)),
    (ValueError, lambda: sim.Erlang(1, -2)), (ValueError, lambda: sim.Erlang(2, scale=-1)), (ValueError, lambda: sim.Erlang(2, 1, scale=1)), (ValueError, lambda: sim.Erlang(-1, 1)), (ValueError, lambda: sim.Beta(-1, 1)),
    (ValueError, lambda: sim.Beta(1, -1)), (ValueError, lambda: sim.Poisson(-1)), (ValueError, lambda: sim.Weibull(1, -1)), (ValueError, lambda: sim.Exponential(rate=-2)), (ValueError, lambda: sim.Normal(0, coefficient_of_variation=-1)),
    (TypeError, lambda: sim.Normal(1, 1, randomstream=1)), (TypeError, lambda: sim.IntUniform(1, 2, randomstream=1)), (TypeError, lambda: sim.Triangular(1, 2, randomstream=1)), (TypeError, lambda: sim.Poisson(1, randomstream=1)),
    (TypeError, lambda: sim.Weibull(1, 1, randomstream=1)), (TypeError, lambda: sim.Gamma(1, 1, randomstream=1)), (TypeError, lambda: sim.Beta(1, 1, randomstream=1)), (TypeError, lambda: sim.Erlang(1, 1, randomstream=1)),
    (TypeError, lambda: sim.Cdf((0, 0, 1, 1), randomstream=1)), (TypeError, lambda: sim.Pdf((1, 1), randomstream=1)), (TypeError, lambda: sim.CumPdf((1, 1), randomstream=1)), (TypeError, lambda: sim.Constant(1, randomstream=1)),
]


class Edge(random.Random):
    """a random stream that starts with boundary values"""

    edges = ()

    def random(self):
        if self.edges:
            e, self.edges = self.edges[0], self.edges[1:]
            return e
        return super().random()


def cum_spec(p):
    c, out = 0, []
    for x in p:
        c = round(c + x, 9)
        out.append(c)
    return out


def mkx(x):
    if isinstance(x, list):
        return build(x[1], x[2], random.Random(x[3]))
    return x


def build(kind, a, stream, unit=None, env=None):
    kw = {}
    if stream is not None:
        kw["randomstream"] = stream
    if unit is not None:
        kw["time_unit"] = unit
        kw["env"] = env
    if kind in ("Pdf", "CumPdf"):
        cls = {"Pdf": sim.Pmf if a["pm"] else sim.Pdf, "CumPdf": sim.CumPmf if a["pm"] else sim.CumPdf}[kind]
        xs = [mkx(x) for x in a["xs"]]
        p = a["p"] if kind == "Pdf" else cum_spec(a["p"])
        f = a["form"]
        if f == "flat":
            return cls([v for xp in zip(xs, p) for v in xp], **kw)
        if f == "pair":
            return cls(xs, p, **kw)
        if f == "pairtuple":
            return cls(tuple(xs), tuple(p), **kw)
        if f == "dict":
            return cls(dict(zip(xs, p)), **kw)
        return cls(xs, 1, **kw)
    if kind == "Cdf":
        return sim.Cdf(a["spec"], **kw)
    return getattr(sim, kind)(**a, **kw)


def fac(case):
    return UNITS[case["unit"][1]] / UNITS[case["unit"][0]] if case.get("unit") else 1


def ref(kind, a):
    """-> dict(mean, lo, hi, and cdf (function of a numpy array) or probs {value: probability})"""
    if kind == "Exponential":
        m = a["mean"] if "mean" in a else 1 / a["rate"]
        return dict(mean=m, lo=0, hi=math.inf, cdf=lambda x: 1 - numpy.exp(-x / m))
    if kind == "Normal":
        m = a["mean"]
        s = a.get("standard_deviation", a.get("coefficient_of_variation", 0) * m)
        if s == 0:
            return dict(mean=m, lo=m, hi=m, cdf=None)
        return dict(mean=m, lo=-math.inf, hi=math.inf, cdf=lambda x: scipy.special.ndtr((x - m) / s))
    if kind == "Uniform":
        lo, hi = a["lowerbound"], a.get("upperbound", a["lowerbound"])
        return dict(mean=(lo + hi) / 2, lo=lo, hi=hi, cdf=None if lo == hi else (lambda x: (x - lo) / (hi - lo)))
    if kind == "Triangular":
        lo = a["low"]
        hi = a.get("high", lo)
        mo = a.get("mode", (lo + hi) / 2)
        mo = min(max(mo, lo), hi)

        def cdf(x):
            left = numpy.square(x - lo) / ((hi - lo) * (mo - lo)) if mo > lo else numpy.zeros_like(x)
            right = 1 - numpy.square(hi - x) / ((hi - lo) * (hi - mo)) if hi > mo else numpy.ones_like(x)
            return numpy.where(x <= mo, left, right) if mo > lo else right
        return dict(mean=(lo + hi + mo) / 3, lo=lo, hi=hi, cdf=None if lo == hi else cdf)
    if kind == "Constant":
        return dict(mean=a["value"], lo=a["value"], hi=a["value"], cdf=None)
    if kind == "Weibull":
        sc, sh = a["scale"], a["shape"]
        return dict(mean=sc * math.gamma(1 + 1 / sh), lo=0, hi=math.inf, cdf=lambda x: 1 - numpy.exp(-((x / sc) ** sh)))
    if kind in ("Gamma", "Erlang"):
        sc = a["scale"] if "scale" in a else 1 / a["rate"]
        sh = a["shape"]
        return dict(mean=sc * sh, lo=0, hi=math.inf, cdf=lambda x: scipy.special.gammainc(sh, x / sc))
    if kind == "Beta":
        return dict(mean=a["alpha"] / (a["alpha"] + a["beta"]), lo=0, hi=1, cdf=lambda x: scipy.special.betainc(a["alpha"], a["beta"], numpy.clip(x, 0, 1)))
    if kind == "IntUniform":
        lo, hi = a["lowerbound"], a.get("upperbound", a["lowerbound"])
        return dict(mean=(lo + hi) / 2, lo=lo, hi=hi, probs=[(v, 1 / (hi - lo + 1)) for v in range(lo, hi + 1)])
    if kind == "Poisson":
        m = a["mean"]
        return dict(mean=m, lo=0, hi=math.inf, poisson=m)
    if kind == "Cdf":
        s = a["spec"]
        xs, cs = s[::2], s[1::2]
        t = cs[-1]
        mean = sum((xs[i] + xs[i + 1]) / 2 * (cs[i + 1] - cs[i]) for i in range(len(xs) - 1)) / t
        return dict(mean=mean, lo=xs[0], hi=xs[-1], xs=xs, cs=[c / t for c in cs])
    raise AssertionError(kind)


def bern(p, n):
    return math.sqrt(2 * p * (1 - p) * L / n) + 2 * L / (3 * n) + 1e-12


def check_probs(counts, probs, n, what):
    for v, p in probs.items():
        f = counts.get(v, 0) / n
        if p == 0 and f > 0:
            raise Violation("%s: %r has probability 0 but is sampled" % (what, v))
        if abs(f - p) > bern(p, n):
            raise Violation("%s: %r has probability %g but a fraction %g of %d samples" % (what, v, p, f, n))
    for v in counts:
        if v not in probs:
            raise Violation("%s: sampled %r is not one of the possible values" % (what, v))


def check_law(xs, rf, what, obs):
    """xs samples (numbers, already divided by the time unit factor)"""
    n = len(xs)
    lo, hi = rf["lo"], rf["hi"]
    tol = 1e-9 * max(1, abs(lo) if lo > -math.inf else 1, abs(hi) if hi < math.inf else 1)
    for x in xs:
        if isinstance(x, bool) or not isinstance(x, (int, float)) or x != x or not (lo - tol <= x <= hi + tol):
            raise Violation("%s: sample %r is not in [%r, %r]" % (what, x, lo, hi))
    obs("samples", n)
    obs("law")
    if "probs" in rf:
        counts = {}
        for x in xs:
            k = round(x)
            if abs(x - k) > 1e-6 * max(1, abs(x)):
                raise Violation("%s: sample %r is not an integer" % (what, x))
            counts[k] = counts.get(k, 0) + 1
        check_probs(counts, dict(rf["probs"]), n, what)
        return
    if "poisson" in rf:
        m = rf["poisson"]
        for x in xs:
            if x != int(x):
                raise Violation("%s: sample %r is not an integer" % (what, x))
        ks = numpy.array(xs, dtype=float)
        for q in (0.01, 0.1, 0.3, 0.5, 0.7, 0.9, 0.99):
            k = float(scipy.stats.poisson.ppf(q, m))
            p = float(scipy.stats.poisson.cdf(k, m))
            f = float(numpy.mean(ks <= k))
            if abs(f - p) > bern(p, n):
                raise Violation("%s: P(X<=%g) is %g but fraction %g of %d samples" % (what, k, p, f, n))
        return
    arr = numpy.array(xs, dtype=float)
    if "xs" in rf:
        px, pc = rf["xs"], rf["cs"]
        for i in range(len(px)):
            # P(X < px - eps) and P(X <= px + eps); eps keeps the probability change negligible
            span = max(px[-1] - px[0], abs(px[0]), abs(px[-1]), 1e-9)
            eps = span * 1e-9
            cl = max([c for x, c in zip(px, pc) if x < px[i]] + [0])
            same = [c for x, c in zip(px, pc) if x == px[i]]
            lower, upper = min(same), max(same)
            f = float(numpy.mean(arr < px[i] - eps))
            if abs(f - lower) > bern(lower, n) + 1e-6:
                raise Violation("%s: P(X<%g) is %g but fraction %g of %d samples" % (what, px[i], lower, f, n))
            f = float(numpy.mean(arr <= px[i] + eps))
            if abs(f - upper) > bern(upper, n) + 1e-6:
                raise Violation("%s: P(X<=%g) is %g but fraction %g of %d samples" % (what, px[i], upper, f, n))
        for i in range(len(px) - 1):
            if px[i + 1] > px[i]:
                for w in (0.25, 0.5, 0.75):
                    x = px[i] + w * (px[i + 1] - px[i])
                    p = pc[i] + w * (pc[i + 1] - pc[i])
                    f = float(numpy.mean(arr <= x))
                    if abs(f - p) > bern(p, n) + 1e-6:
                        raise Violation("%s: P(X<=%g) is %g but fraction %g of %d samples" % (what, x, p, f, n))
        return
    if rf["cdf"] is None:
        return
    if lo > -math.inf or hi < math.inf:
        arr = numpy.clip(arr, lo, hi)
    u = rf["cdf"](arr)
    s = numpy.sort(u)
    i = numpy.arange(1, n + 1) / n
    d = float(max(numpy.max(i - s), numpy.max(s - (i - 1 / n))))
    if d > math.sqrt(L / (2 * n)) + 1e-6:
        raise Violation("%s: empirical distribution of %d samples deviates %.4f from the specified one" % (what, n, d))
    for p in (0.001, 0.01, 0.05, 0.95, 0.99, 0.999):
        f = float(numpy.mean(u <= p))
        if abs(f - p) > bern(p, n) + 1e-6:
            raise Violation("%s: fraction %g of %d samples is below the %g quantile" % (what, f, n, p))
    if n >= 3000:
        c = float(numpy.mean((u[1:] - 0.5) * (u[:-1] - 0.5)) * 12)
        if abs(c) > 8.5 / math.sqrt(n):
            raise Violation("%s: successive samples are correlated (%.3f)" % (what, c))
        if len(set(xs)) < 0.98 * n and float(numpy.min(numpy.abs(arr))) > 1e-100:
            raise Violation("%s: only %d different values in %d samples" % (what, len(set(xs)), n))


def same_mean(got, want, what):
    if want is None:
        return
    if want != want:
        if got == got:
            raise Violation("%s: mean() is %r, should be nan" % (what, got))
    elif not abs(got - want) <= 1e-9 * max(1, abs(want)):
        raise Violation("%s: mean() is %r, should be %r" % (what, got, want))


def sampler(d, rng):
    return d.sample if rng.random() < 0.5 else d


def pdf_probs(a, kind):
    if a["form"] == "scalar":
        p = [1] * len(a["xs"])
    elif kind == "CumPdf":
        c = cum_spec(a["p"])
        p = [c[0]] + [y - x for x, y in zip(c, c[1:])]
    else:
        p = a["p"]
    t = sum(p)
    return [x / t for x in p]


def draw(case, make, obs):
    """samples with own stream / global stream; checks reproducibility and non interference; make(stream) -> distribution"""
    n, seed = case["n"], case["seed"]
    if case["glob"]:
        sim.random_seed(seed)
        d = make(None)
        xs = [d.sample() for _ in range(n)]
        sim.random_seed(seed)
        d2 = make(None)
        ys = [d2() for _ in range(min(n, 300))]
        obs("global_stream")
    else:
        st = random.Random(seed)
        random.seed(seed + 1)
        numpy.random.seed(7)
        gstate = random.getstate()
        nstate = repr(numpy.random.get_state())
        d = make(st)
        xs = [d.sample() for _ in range(n)]
        if random.getstate() != gstate or repr(numpy.random.get_state()) != nstate:
            raise Violation("sampling with its own randomstream changes the global random stream")
        random.seed(seed + 2)
        d2 = make(random.Random(seed))
        ys = [d2() for _ in range(min(n, 300))]
        obs("own_stream")
    if [repr(x) for x in xs[:300]] != [repr(y) for y in ys]:
        raise Violation("samples are not reproducible: %r and %r" % (xs[:5], ys[:5]))
    return d, xs


def check_pdf(case, obs, kind, a, make, f=1):
    probs = pdf_probs(a, kind)
    what = "%s%r" % (kind, a)
    if a["typ"] == "dist":
        # which part was sampled is seen from the parts' own streams
        st = random.Random(case["seed"])
        d = make(st)
        xs = [d.sample() for _ in range(case["n"])]
        parts = [mkx(x) for x in a["xs"]]
        nxt = [p.sample() if hasattr(p, "sample") else p for p in parts]
        counts = {}
        for x in xs:
            cand = [i for i in range(len(parts)) if repr(nxt[i]) == repr(x) and probs[i] > 0]
            if not cand:
                raise Violation("%s: sample %r is not the next sample of any of the parts" % (what, x))
            if len({id(parts[i]) if hasattr(parts[i], "sample") else 0 for i in cand}) > 1:
                return  # parts that give the same value cannot be told apart
            i = cand[0]
            key = i if hasattr(parts[i], "sample") else repr(x)
            counts[key] = counts.get(key, 0) + 1
            if key == i:
                nxt[i] = parts[i].sample()
        want = {}
        for x, p, part in zip(range(len(parts)), probs, parts):
            key = x if hasattr(part, "sample") else repr(part)
            want[key] = want.get(key, 0) + p
        check_probs(counts, want, len(xs), what)
        ms = [p.mean() if hasattr(p, "sample") else p for p in parts]
        same_mean(d.mean(), sum(m * p for m, p in zip(ms, probs)), what)
        obs("samples", len(xs))
        return
    d, xs = draw(case, make, obs)
    scaled = [(x * f if case.get("unit") else x) for x in a["xs"]]
    want = {}
    for x, p in zip(scaled, probs):
        key = (type(x).__name__, x) if not case.get("unit") else round(x, 9)
        want[key] = want.get(key, 0) + p
    counts = {}
    for x in xs:
        if case.get("unit"):
            key = min(want, key=lambda k: abs(k - x))
            if abs(key - x) > 1e-9 * max(1, abs(x)):
                key = x
        else:
            key = (type(x).__name__, x)
        counts[key] = counts.get(key, 0) + 1
    check_probs(counts, want, len(xs), what)
    try:
        m = sum(float(x) * p for x, p in zip(scaled, probs))
    except (ValueError, TypeError):
        m = math.nan
    same_mean(d.mean(), m, what)
    obs("samples", len(xs))
    obs("law")
    # boundary values of the stream
    b = [0.0, 1 - 2 ** -53, 2 ** -53, 0.5]
    c = 0
    for p in probs:
        c += p
        b += [min(c, 1 - 2 ** -53), min(c * (1 - 2 ** -53), 1 - 2 ** -53), min(c * (1 + 2 ** -52), 1 - 2 ** -53)]
    st = Edge(case["seed"])
    d = make(st)
    for e in b:
        st.edges = (e,)
        x = d.sample()
        if case.get("unit"):
            ok = any(abs(x - k) <= 1e-9 * max(1, abs(k)) and p > 0 for k, p in want.items()) if isinstance(x, (int, float)) else False
        else:
            ok = want.get((type(x).__name__, x), 0) > 0
        if not ok:
            raise Violation("%s: sampled %r (random draw %r), which has probability zero" % (what, x, e))
        obs("boundary_draws")


def evaluate(t, streams):
    """-> (distribution or number)"""
    k = t[0]
    if k == "num":
        return t[1]
    if k in ("+", "-") and len(t) == 2:
        v = evaluate(t[1], streams)
        return +v if k == "+" else -v
    if k in ("add", "sub", "mul", "truediv", "floordiv", "pow"):
        return getattr(operator, k)(evaluate(t[1], streams), evaluate(t[2], streams))
    return build(k, t[1], random.Random(t[2]))


class Tree:
    """reference evaluation of an expression on samples of clones of the leaves"""

    def __init__(self, t):
        self.t = t
        k = t[0]
        self.kids = []
        self.leaf = None
        if k == "num":
            pass
        elif k in ("+", "-", "add", "sub", "mul", "truediv", "floordiv", "pow"):
            self.kids = [Tree(x) for x in t[1:]]
        else:
            self.leaf = build(k, t[1], random.Random(t[2]))

    def const(self):
        return self.leaf is None and all(x.const() for x in self.kids) if self.t[0] != "num" else True

    def sample(self):
        k = self.t[0]
        if k == "num":
            return self.t[1]
        if self.leaf is not None:
            return self.leaf.sample()
        v = [x.sample() for x in self.kids]
        if k == "+":
            return v[0]
        if k == "-":
            return -v[0]
        return getattr(operator, k)(*v)

    def mean(self):
        """exact mean, or None if not asserted"""
        k = self.t[0]
        if k == "num":
            return self.t[1]
        if self.leaf is not None:
            return ref(k, self.t[1])["mean"]
        m = [x.mean() for x in self.kids]
        if any(x is None for x in m):
            return None
        if k == "+":
            return m[0]
        if k == "-":
            return -m[0]
        if k == "add":
            return m[0] + m[1]
        if k == "sub":
            return m[0] - m[1]
        if k == "mul" and any(x.t[0] == "num" for x in self.kids):
            return m[0] * m[1]
        if k == "truediv" and self.kids[1].t[0] == "num":
            return m[0] / m[1]
        if k == "truediv" and self.kids[1].fixed():
            return None  # it may be derived or not
        if k in ("truediv", "floordiv", "pow") and not self.fixed():
            return math.nan  # cannot be derived from the means
        return None

    def fixed(self):
        return self.t[0] in ("num", "Constant") or bool(self.kids) and all(x.fixed() for x in self.kids)


FUN = {"int": int, "round": round, "square": lambda x: x * x, "str": str, "neg": lambda x: -x}


def check(case, obs):
    kind = case["kind"]
    obs("kind_" + kind)
    a = case["args"]
    u = case.get("unit")
    env = sim.Environment(time_unit=u[0] if u else "n/a")
    f = fac(case)
    if u:
        obs("time_unit")
    unit = u[1] if u else None
    what = "%s %r%s" % (kind, a, " %s in %s" % (u[1], u[0]) if u else "")
    if kind == "invalid":
        exc, fun = INVALID[a]
        try:
            fun()
        except exc:
            return
        except Exception as e:
            raise Violation("invalid specification %d raises %s instead of %s" % (a, type(e).__name__, exc.__name__))
        raise Violation("invalid specification %d is accepted" % a)
    if kind in ("Pdf", "CumPdf"):
        check_pdf(case, obs, kind, a, lambda st: build(kind, a, st, unit, env), f)
    elif kind == "sample_n":
        d = build("Pdf", a, random.Random(case["seed"]))
        equal = a["form"] == "scalar" or len(set(a["p"])) == 1
        for k in case["k"]:
            try:
                got = d.sample(k)
            except ValueError:
                if equal and k >= 0:
                    raise Violation("Pdf %r: sample(%d) raises" % (a, k))
                continue
            if not equal or k < 0:
                raise Violation("Pdf %r: sample(%d) does not raise" % (a, k))
            if len(got) != min(k, len(a["xs"])):
                raise Violation("Pdf %r: sample(%d) gives %d values" % (a, k, len(got)))
            if a["typ"] != "dist":
                left = [repr(x) for x in a["xs"]]
                for x in got:
                    if repr(x) not in left:
                        raise Violation("Pdf %r: sample(%d) gives %r: with replacement or not one of the values" % (a, k, got))
                    left.remove(repr(x))
            obs("samples", len(got))
        if equal and a["typ"] != "dist" and len(set(map(repr, a["xs"]))) == len(a["xs"]):
            n, k = 2000, max(1, len(a["xs"]) // 2)
            counts = {}
            for _ in range(n):
                for x in d.sample(k):
                    counts[repr(x)] = counts.get(repr(x), 0) + 1
            check_probs(counts, {repr(x): k / len(a["xs"]) for x in a["xs"]}, n, "Pdf %r sample(%d)" % (a, k))
    elif kind == "External":
        mod, name, args, kw = a
        fun = {"random": random, "numpy": numpy.random, "scipy": scipy.stats}[mod]
        rf = {"uniform": ref("Uniform", {"lowerbound": 1, "upperbound": 3}), "expovariate": ref("Exponential", {"mean": 2}), "exponential": ref("Exponential", {"mean": 2}),
              "expon": ref("Exponential", {"mean": 2}), "gauss": ref("Normal", {"mean": 5, "standard_deviation": 2}), "normal": ref("Normal", {"mean": 5, "standard_deviation": 2}),
              "norm": ref("Normal", {"mean": 5, "standard_deviation": 2}), "triangular": ref("Triangular", {"low": 1, "high": 5, "mode": 4}),
              "triang": ref("Triangular", {"low": 1, "high": 5, "mode": 3}), "gamma": ref("Gamma", {"shape": 2.5, "scale": 2})}[name]
        case = dict(case, glob=True, n=min(case["n"], 3000))
        d, xs = draw(case, lambda st: sim.External(getattr(fun, name), *args, **dict(kw, **({"time_unit": unit, "env": env} if unit else {}))), obs)
        check_law([float(x) / f for x in xs], rf, what, obs)
        given = []

        def batch(size):
            new = numpy.array([len(given) + k + 0.5 for k in range(size)])
            given.extend(new.tolist())
            return new
        size = kw.get("size", 3)
        d1 = sim.External(batch, size)
        got = [d1.sample() for _ in range(4 * size)]
        if sorted(got) != given:
            raise Violation("External: not all values of a batch are used once: %r, %r" % (sorted(got)[:9], given[:9]))
        m = d.mean()
        if mod == "scipy":
            same_mean(m, rf["mean"] * f, what)
        elif m == m:
            same_mean(m, rf["mean"] * f, what)
    elif kind == "string":
        k = case["inner"]
        word = k[:case["short"]]
        word = {"": word, "u": word.upper(), "l": word.lower()}[case["casing"]]
        if k in ("Pdf", "CumPdf"):
            p = a["p"] if k == "Pdf" else cum_spec(a["p"])
            inside = "(%s)" % ", ".join("%r, %r" % xp for xp in zip(a["xs"], p))
        elif k == "Cdf":
            inside = "(%s)" % ", ".join(map(repr, a["spec"]))
        else:
            inside = ", ".join("%s=%r" % it for it in a.items())
        spec = word + "(" + inside + ")"
        plain = case["plain"] and k in ("Constant", "Uniform", "Triangular") and not (k == "Uniform" and "upperbound" not in a) and not (k == "Triangular" and ("mode" not in a or "high" not in a))
        if plain:
            spec = ",".join(repr(v) for v in ([a["low"], a["high"], a["mode"]] if k == "Triangular" else list(a.values())))
            if case["blank"]:
                spec = "(" + spec + ")"
        elif case["blank"]:
            spec = " " + spec.replace(", ", " ,  ") + " "
        kw = {"time_unit": unit} if unit else {}
        if unit and not plain and case["seed"] % 2:  # the time unit as a part of the specification
            spec = spec.rstrip()[:-1].rstrip() + ", time_unit=%r)" % unit
            kw = {}
            obs("unit_in_spec")
        if u and case["seed"] % 3:  # what was specified in an earlier environment does not matter
            sim.Environment(time_unit={"hours": "minutes", "minutes": "days"}.get(u[0], "hours"))
            sim.Distribution(spec, **kw).sample()
            env = sim.Environment(time_unit=u[0])
        same = lambda st: build(k, a, st, unit, env)  # noqa: E731

        def make(st):
            return sim.Distribution(spec, **dict(kw, **({} if st is None else {"randomstream": st})))
        case = dict(case, n=min(case["n"], 1000))
        if k == "Poisson" and a.get("prefer_numpy"):
            case = dict(case, glob=True)
        d, xs = draw(case, make, obs)
        d2, ys = draw(case, same, obs)
        if [repr(x) for x in xs] != [repr(y) for y in ys]:
            raise Violation("Distribution(%r) does not sample as %s%r: %r and %r" % (spec, k, a, xs[:3], ys[:3]))
        if repr(d.mean()) != repr(d2.mean()):
            raise Violation("Distribution(%r) has mean %r, should be %r" % (spec, d.mean(), d2.mean()))
        if not (k == "Poisson" and a.get("prefer_numpy")):  # equally specified ones with streams of their own do not disturb each other
            def ds():
                return [make(random.Random(case["seed"] + i)) for i in range(2)]
            alone = [[x.sample() for _ in range(4)] for x in ds()]
            pair = ds()
            mixed = list(zip(*[[x.sample() for x in pair] for _ in range(4)]))
            if repr([list(x) for x in mixed]) != repr(alone):
                raise Violation("two Distribution(%r) sampled alternately give %r, one after the other %r" % (spec, mixed, alone))
        obs("samples", len(xs))
    elif kind == "expression":
        random.seed(case["seed"])
        gstate = random.getstate()
        d = evaluate(a, None)
        t = Tree(a)
        if not hasattr(d, "sample"):
            if repr(d) != repr(t.sample()):
                raise Violation("expression %r is %r" % (a, d))
            return
        for i in range(case["n"]):
            try:
                want = t.sample()
            except (ZeroDivisionError, OverflowError) as e:
                try:
                    d.sample()
                except type(e):
                    return
                raise Violation("expression %r: sample does not raise %s" % (a, type(e).__name__))
            got = d.sample() if i % 2 else d()
            if not (got == want or abs(got - want) <= 1e-9 * max(1, abs(want)) or (got != got and want != want)):
                raise Violation("expression %r: sample %d is %r, should be %r" % (a, i, got, want))
        if random.getstate() != gstate:
            raise Violation("sampling an expression changes the global random stream")
        m = t.mean()
        if m is not None and not isinstance(m, complex):
            got = d.mean()
            same_mean(got, m, what)
        obs("samples", case["n"])
    elif kind == "Map":
        d = sim.Map(build(a[0], a[1], random.Random(a[2])), FUN[case["f"]])
        clone = build(a[0], a[1], random.Random(a[2]))
        for i in range(case["n"]):
            got, want = d.sample(), FUN[case["f"]](clone.sample())
            if repr(got) != repr(want):
                raise Violation("Map %r %s: sample %d is %r, should be %r" % (a, case["f"], i, got, want))
        obs("samples", case["n"])
    elif kind == "Bounded":
        probe = build(a[0], a[1], random.Random(a[2] + 1))
        vals = sorted(float(probe.sample()) for _ in range(101))
        lo, hi = vals[int(case["q"][0] * 101)], vals[int(case["q"][1] * 101)]
        if case["tries"] is not None and case["seed"] % 3 == 0:
            lo, hi = vals[-1] + 1, vals[-1] + 2
        if not case["use"][0]:
            lo = None
        if not case["use"][1]:
            hi = None
        kw = {}
        if lo is not None:
            kw["lowerbound"] = lo
        if hi is not None:
            kw["upperbound"] = hi
        if case["fail"] is not None:
            kw["fail_value"] = case["fail"]
        if case["tries"] is not None:
            kw["number_of_retries"] = case["tries"]
        kw["include_lowerbound"], kw["include_upperbound"] = case["incl"]
        inner = build(a[0], a[1], random.Random(a[2]))
        d = None if case["meth"] else sim.Bounded(inner, **kw)
        clone = build(a[0], a[1], random.Random(a[2]))
        failv = case["fail"] if case["fail"] is not None else (lo if lo is not None else hi)
        for i in range(case["n"]):
            got = d.sample() if d else inner.bounded_sample(**kw)
            if lo is None and hi is None:
                want = clone.sample()
            else:
                want = failv
                for _ in range(100 if case["tries"] is None else case["tries"]):
                    x = clone.sample()
                    if (lo is None or x > lo or (x == lo and case["incl"][0])) and (hi is None or x < hi or (x == hi and case["incl"][1])):
                        want = x
                        break
            if repr(got) != repr(want) and not got == want:
                raise Violation("Bounded %r %r: sample %d is %r, should be %r" % (a, kw, i, got, want))
        obs("samples", case["n"])
    else:
        rf = ref(kind, a)
        if kind == "Poisson":
            if a["mean"] > 100:
                case = dict(case, n=min(case["n"], 1500))
            if a.get("prefer_numpy"):
                case = dict(case, glob=True)
        d, xs = draw(case, lambda st: build(kind, a, st, unit, env), obs)
        check_law([x / f for x in xs] if u else xs, rf, what, obs)
        same_mean(d.mean(), rf["mean"] * f, what)
        if kind in ("Uniform", "Triangular", "IntUniform", "Cdf", "Beta", "Exponential", "Weibull"):
            st = Edge(case["seed"])
            d = build(kind, a, st, unit, env)
            b = [0.0, 1 - 2 ** -53, 2 ** -53, 0.5]
            if kind == "Cdf":
                for c in rf["cs"]:
                    b += [min(c, 1 - 2 ** -53), min(c * (1 - 2 ** -53), 1 - 2 ** -53)]
            for e in b:
                st.edges = (e,)
                x = d.sample() / f
                lo, hi = rf["lo"], rf["hi"]
                tol = 1e-9 * max(1, abs(lo), abs(hi) if hi < math.inf else 1)
                if not (lo - tol <= x <= hi + tol):
                    raise Violation("%s: sample %r (random draw %r) is not in [%r, %r]" % (what, x, e, lo, hi))
                obs("boundary_draws")
