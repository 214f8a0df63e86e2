import math
import random

from mon.core import Violation, sim

ID = "C20"
RULE = ("random component generators of all kinds (iat constant, list, distribution or in another time unit; random and equidistant spread; moments; disturbance) with random at/delay/till/duration/number/force_at/force_till, "
        "component classes, functions and distributions of classes, started from main or from a process, in default and other environments, in yield and yieldless mode, runs split and the clock reset in between; "
        "every creation and every start of a generated component is recorded and compared with the moments that follow from the specification; specifications that are not allowed have to be refused and to generate nothing")
CASES = {"quick": 12000, "thorough": 100000}
REQUIRED = ["generated", "iat", "spread", "equidistant", "moments", "disturbance", "ended_by_number", "ended_by_till", "at_end", "other_env", "reset_now", "reset_before", "yield", "yieldless", "class_distribution", "function", "time_unit", "bad_past_moment", "bad_moments_iat", "bad_at_delay", "bad_equidistant_single"]
ASSUMPTIONS = ["at_end with number=0, disturbance together with force_at or equidistant, and empty moments are not specified by the documentation and not asserted"]
HORIZON = 99.96875
UNITS = {"days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}


def gen(rng, index, tier):
    if index % 31 == 30:
        return gen_bad(rng, index // 31)
    kind = ["iat", "iat", "spread", "equidistant", "moments", "disturbance"][index % 6]
    q = lambda a, b: rng.randint(a * 4, b * 4) / 4  # noqa: E731
    c = {"kind": kind, "yieldless": rng.random() < 0.5, "now": rng.choice([0, 0, 1.5, 10]), "seed": rng.randrange(10 ** 9), "how": rng.choice(["class", "class", "class", "function", "pdf", "pdf", "cumpdf"]),
         "env": rng.choice(["default", "given", "other"]), "from_process": rng.random() < 0.3, "runs": sorted(q(0, 40) for _ in range(rng.randint(0, 4))),
         "reset": [[q(0, 30), rng.choice([0, 5, -3, 100])] for _ in range(rng.choice([0, 0, 1, 2]))], "kw": rng.choice([{}, {"a": 1}, {"a": 2, "b": "x"}]), "generic": rng.choice(["plain", "plain", "callable"])}
    if rng.random() < 0.25:
        c["unit"] = [rng.choice(["minutes", "hours"]), rng.choice(["minutes", "hours"])]
    if rng.random() < 0.35:
        c["pre"] = rng.choice([0, 3, -5, 200])
    if kind == "moments":
        c["moments"] = [q(0, 20) for _ in range(rng.randint(1, 10))]
        c["mform"] = rng.choice(["list", "tuple", "iter", "callable"])
        if c["how"] == "class" and rng.random() < 0.3:
            c["how"] = "function"
        return c
    start = rng.random()
    if start < 0.35:
        c["at"] = q(0, 10)
    elif start < 0.7:
        c["delay"] = q(0, 10)
    x = rng.random()
    need = kind in ("spread", "equidistant")
    if need or x < 0.6:
        if rng.random() < 0.5:
            c["duration"] = rng.choice([0, q(0, 20), q(1, 20)])
        else:
            c["till"] = rng.choice([0, q(0, 20), q(1, 20)])
    if need or x > 0.35:
        c["number"] = rng.choice([0, 1, 2, 3, 5, 10, 20]) if kind != "spread" or rng.random() < 0.85 else 600
    if kind == "equidistant" and c["number"] == 1:
        c["number"] = 2
    if kind in ("iat", "disturbance"):
        if "number" not in c and "till" not in c and "duration" not in c:
            c["number"] = rng.randint(1, 8)
        t = rng.random()
        if t < 0.3:
            c["iat"] = rng.choice([0.25, 0.5, 1, 2, 5])
        elif t < 0.65:
            c["iat"] = ["list", [rng.choice([0, 0.25, 0.5, 1, 2, 2.5, 5]) for _ in range(7)] + [1]]
        else:
            c["iat"] = ["exp", rng.choice([0.3, 1, 2])]
        if kind == "iat":
            c["force_at"] = rng.random() < 0.4
        else:
            c["how"] = "class"
            c["dist"] = [rng.choice([0, 0, 0.25, 1, 3, 7]) for _ in range(5)] + [rng.choice([0.5, 2])] if rng.random() < 0.75 else [rng.choice([0.5, 1, 2, 6])]
    if kind == "spread":
        c["force_at"], c["force_till"] = rng.random() < 0.4, rng.random() < 0.4
        if c["number"] == 1 and c["force_at"] and c["force_till"]:
            c["force_at"] = False
    if kind == "equidistant":
        c["force_at"], c["force_till"] = rng.random() < 0.3, rng.random() < 0.3
    return c


# specifications that are not allowed; times are given as offsets to now
BAD = {
    "past_moment": dict(moments=[5, -0.5, 3]), "past_moment_single": dict(moments=[-1]), "moments_iat": dict(moments=[1, 2], iat=1), "moments_at": dict(moments=[1, 2], at=1), "moments_till": dict(moments=[1, 2], till=4),
    "moments_number": dict(moments=[1, 2], number=2), "moments_force": dict(moments=[1, 2], force_at=True), "moments_delay": dict(moments=[1], delay=1), "moments_duration": dict(moments=[1], duration=3),
    "moments_disturbance": dict(moments=[1], disturbance=1), "moments_equidistant": dict(moments=[1], equidistant=True), "moments_force_till": dict(moments=[1], force_till=True),
    "at_delay": dict(at=3, delay=2, iat=1), "till_duration": dict(till=5, duration=3, iat=1), "at_after_till": dict(at=5, till=4, iat=1), "at_after_till_spread": dict(at=5, till=4, number=3), "negative_number": dict(iat=1, number=-1),
    "no_iat_no_number": dict(till=5), "no_iat_no_till": dict(number=5), "nothing": dict(), "spread_disturbance": dict(number=3, till=8, disturbance=1), "force_both_single": dict(number=1, till=8, force_at=True, force_till=True),
    "iat_force_till": dict(iat=1, number=3, force_till=True), "equidistant_single": dict(equidistant=True, number=1, till=6), "equidistant_no_till": dict(equidistant=True, number=3), "equidistant_iat": dict(equidistant=True, number=3, till=9, iat=2),
    "at_past": dict(iat=0.25, at=-3, number=4), "equidistant_past": dict(equidistant=True, at=-2, till=3, number=4), "not_callable": dict(iat=1, number=3), "negative_duration": dict(iat=1, duration=-2),
}


def gen_bad(rng, index):
    names = sorted(BAD)
    return {"kind": "bad", "yieldless": rng.random() < 0.5, "now": rng.choice([0, 1.5, 10]), "pre": rng.choice([None, 0, -5, 200]), "bad": names[index % len(names)], "other": rng.random() < 0.5,
            "from_process": rng.random() < 0.3, "form": rng.random() < 0.3}


def check_bad(case, obs):
    """a specification that is not allowed raises an error, and nothing is ever generated"""
    W.made, W.started, W.base = [], [], 0
    yl = case["yieldless"]
    env = sim.Environment(yieldless=yl)
    kw = {}
    if case["other"]:
        sim.Environment(yieldless=not yl)
        kw["env"] = env
    env.run(duration=case["now"])
    if case["pre"] is not None:
        env.reset_now(case["pre"])
    ends, got = [], []

    def start():
        a = dict(BAD[case["bad"]])
        for k in ("at", "till"):
            if k in a:
                a[k] += env.now()
        if "moments" in a:
            a["moments"] = [env.now() + m for m in a["moments"]]
            if case["form"]:
                ms = a["moments"]
                a["moments"] = lambda: ms
        before = env.peek()
        try:
            sim.ComponentGenerator("a" if case["bad"] == "not_callable" else AN if yl else AY, at_end=lambda: ends.append(env.now()), generator_name="g.", **kw, **a)
        except (ValueError, TypeError, AttributeError) as e:
            got.append(type(e).__name__)
            if env.peek() != before:
                raise Violation("a refused generator (%s) has been scheduled" % case["bad"])
        else:
            raise Violation("generator specification %s is accepted" % case["bad"])
    if case["from_process"]:
        if yl:
            class S(sim.Component):
                def process(self):
                    self.hold(0.5)
                    start()
        else:
            class S(sim.Component):
                def process(self):
                    yield self.hold(0.5)
                    start()
        S(env=env)
        env.run(duration=0.5, priority=math.inf)
    else:
        start()
    env.run(duration=20)
    if W.made or W.started or ends:
        raise Violation("a refused generator (%s) has generated %d components, at_end called %d times" % (case["bad"], len(W.made), len(ends)))
    obs("bad_" + case["bad"])
    obs.sig = ["bad", case["bad"], yl, case["now"], case["pre"], case["other"], case["from_process"]]


class Cycle:
    def __init__(self, vals):
        self.vals, self.n = vals, 0

    def __call__(self):
        self.n += 1
        return self.vals[(self.n - 1) % len(self.vals)]


class World:
    pass


W = World()


class AY(sim.Component):
    def setup(self, a=None, b=None):
        W.made.append((W.base + self.env.now(), type(self).__name__, a, b, self, self.env))

    def process(self):
        W.started.append((W.base + self.env.now(), self))
        yield self.hold(0.125)


class BY(AY):
    pass


class AN(sim.Component):
    def setup(self, a=None, b=None):
        W.made.append((W.base + self.env.now(), type(self).__name__, a, b, self, self.env))

    def process(self):
        W.started.append((W.base + self.env.now(), self))
        self.hold(0.125)


class BN(AN):
    pass


def check(case, obs):
    if case["kind"] == "bad":
        return check_bad(case, obs)
    yl = case["yieldless"]
    obs("yieldless" if yl else "yield")
    obs(case["kind"])
    unit = case.get("unit")
    W.made, W.started, W.base = [], [], 0
    ends = []
    kwenv = {}
    env = sim.Environment(yieldless=yl, time_unit=unit[0] if unit else "n/a")
    if case["env"] != "default":
        kwenv = {"env": env}
    if case["env"] == "other":
        other = sim.Environment(yieldless=not yl)  # is now the default
        obs("other_env")
    CA, CB = (AN, BN) if yl else (AY, BY)
    env.run(duration=case["now"])
    t0 = case["now"]
    if "pre" in case:
        W.base = t0 - case["pre"]
        env.reset_now(case["pre"])
        obs("reset_before")
    f = 1
    if unit:
        f = UNITS[unit[1]] / UNITS[unit[0]]
        obs("time_unit")

    called = []

    def func(**kw):
        called.append(W.base + env.now())
        return CA(**kw)

    how = case["how"]
    if how == "class":
        cls = CA
    elif how == "function":
        cls = func
        obs("function")
    elif how == "pdf":
        cls = sim.Pdf((CA, 1, CB, 2), randomstream=random.Random(case["seed"]))
        obs("class_distribution")
    else:
        cls = sim.CumPdf((CA, 0.5, CB, 1), randomstream=random.Random(case["seed"]))
        obs("class_distribution")
    kw = dict(case["kw"])
    w = (lambda v: (lambda: v)) if case["generic"] == "callable" else (lambda v: v)

    # ------------------------------------------------------------ expected moments
    kind = case["kind"]
    expected = None
    tillabs = math.inf

    def build(now):
        nonlocal expected, tillabs
        a = {}
        at = now
        if "at" in case:
            at = now + case["at"]
            a["at"] = w(at - W.base)
        if "delay" in case:
            at = now + case["delay"]
            a["delay"] = w(case["delay"])
        number = case.get("number", math.inf)
        if "number" in case:
            a["number"] = w(number)
        if "till" in case:
            tillabs = at + case["till"]
            a["till"] = w(tillabs - W.base)
        if "duration" in case:
            tillabs = at + case["duration"]
            a["duration"] = w(case["duration"])
        for k in ("force_at", "force_till"):
            if k in case:
                a[k] = case[k]
        if kind == "moments":
            ms = [now + m - W.base for m in case["moments"]]
            a["moments"] = {"list": ms, "tuple": tuple(ms), "iter": iter(ms), "callable": lambda: ms}[case["mform"]]
            expected = sorted(now + m for m in case["moments"])
        elif kind == "equidistant":
            a["equidistant"] = True
            expected = [at + i * (tillabs - at) / (number - 1) for i in range(number)] if number else []
        elif kind in ("iat", "disturbance"):
            spec = case["iat"]
            if isinstance(spec, list) and spec[0] == "list":
                a["iat"] = Cycle(spec[1])
                ref = Cycle(spec[1])
            elif isinstance(spec, list):
                ukw = {"time_unit": unit[1], "env": env} if unit else {}
                a["iat"] = sim.Exponential(spec[1] / f, randomstream=random.Random(case["seed"]), **ukw)
                ref = sim.Exponential(spec[1] / f, randomstream=random.Random(case["seed"]), **ukw).sample
            else:
                a["iat"] = spec
                ref = lambda: spec  # noqa: E731
            expected = []
            if kind == "iat":
                t = at if case["force_at"] else at + (ref() if number > 0 else 0)
                while len(expected) < number and t <= tillabs and len(expected) < 3000 and t < HORIZON:
                    expected.append(t)
                    t += ref()
            else:
                a["disturbance"] = Cycle(case["dist"]) if len(set(case["dist"])) > 1 else case["dist"][0]
                d = Cycle(case["dist"])
                t = at
                while len(expected) < number and len(expected) < 3000 and t < HORIZON:
                    i = ref()
                    x = t + i + d()
                    if x > tillabs:
                        break
                    expected.append(x)
                    t += i
        return a, at

    holder = {}

    def start():
        now = W.base + env.now()
        a, at = build(now)
        holder["at"] = at
        holder["gen"] = sim.ComponentGenerator(cls, at_end=lambda: ends.append(W.base + env.now()), **kwenv, **a, **kw)

    random.seed(case["seed"])
    if case["from_process"]:
        if yl:
            class S(sim.Component):
                def process(self):
                    self.hold(0.5)
                    start()
        else:
            class S(sim.Component):
                def process(self):
                    yield self.hold(0.5)
                    start()
        S(env=env)
        env.run(duration=0.5, priority=math.inf)
        t0 += 0.5
    else:
        start()
    at = holder["at"]

    # ------------------------------------------------------------ run
    stops = sorted([(t0 + t, None) for t in case["runs"]] + [(t0 + t, r) for t, r in case["reset"]], key=lambda x: x[0])
    for t, r in stops:
        now = W.base + env.now()
        if t > now:
            env.run(till=t - W.base)
        if r is not None:
            W.base = W.base + env.now() - r
            env.reset_now(r)
            obs("reset_now")
    env.run(till=HORIZON - W.base)

    # ------------------------------------------------------------ verdict
    times = [m[0] for m in W.made]
    starts = sorted(W.started, key=lambda x: x[0])
    if kind == "disturbance":
        got = [s[0] for s in starts]
        want = sorted(x for x in expected if x < HORIZON)
    else:
        got = times
        want = None if kind == "spread" else [x for x in expected if x < HORIZON]
    n = case.get("number", math.inf)
    if kind == "spread":
        if n and (len(got) != n):
            raise Violation("spread generator made %d components, should be %d" % (len(got), n))
        if not n and got:
            raise Violation("generator with number=0 made %d components" % len(got))
        for t in got:
            if not (at - 1e-9 <= t <= tillabs + 1e-9):
                raise Violation("component generated at %r, which is not between %r and %r" % (t, at, tillabs))
        if n and case["force_at"] and abs(min(got) - at) > 1e-9:
            raise Violation("force_at: first component generated at %r instead of %r" % (min(got), at))
        if n and case["force_till"] and abs(max(got) - tillabs) > 1e-9:
            raise Violation("force_till: last component generated at %r instead of %r" % (max(got), tillabs))
        if n >= 600 and tillabs > at:
            u = sorted((t - at) / (tillabs - at) for t in got)
            d = max(max((i + 1) / n - x, x - i / n) for i, x in enumerate(u))
            if d > math.sqrt(29 / (2 * n)) + 0.01:
                raise Violation("moments of %d components are not uniformly spread (deviation %.3f)" % (n, d))
        if n >= 2 and not case["force_at"] and not case["force_till"] and tillabs > at and len(set(got)) == 1:
            raise Violation("random spread gives only one moment")
    else:
        if len(got) != len(want) or any(abs(a - b) > 1e-7 for a, b in zip(sorted(got), want)):
            raise Violation("%s: components generated at %r..., should be at %r... (%d, should be %d)" % (kind, sorted(got)[:8], want[:8], len(got), len(want)))
    if any(a > b + 1e-9 for a, b in zip(times, times[1:])):
        raise Violation("components not generated in order of time")
    obs("generated", len(got))
    # every component starts exactly once at its creation (or its disturbed time)
    byid = {}
    for t, c in W.started:
        if id(c) in byid:
            raise Violation("generated component %s started twice" % c.name())
        byid[id(c)] = t
    if kind != "disturbance":
        for t, cn, a, b, c, e in W.made:
            if byid.get(id(c)) != t:
                raise Violation("component generated at %r is started at %r" % (t, byid.get(id(c))))
    for t, cn, a, b, c, e in W.made:
        if e is not env:
            raise Violation("generated component belongs to another environment than its generator")
        if a != case["kw"].get("a") or b != case["kw"].get("b"):
            raise Violation("generated component got a=%r, b=%r instead of %r" % (a, b, case["kw"]))
    if how in ("pdf", "cumpdf"):
        ref = sim.Pdf((CA, 1, CB, 2), randomstream=random.Random(case["seed"])) if how == "pdf" else sim.CumPdf((CA, 0.5, CB, 1), randomstream=random.Random(case["seed"]))
        want = [ref.sample().__name__ for _ in W.made]
        if [m[1] for m in W.made] != want:
            raise Violation("classes of generated components are not those sampled from the distribution")
    elif any(m[1] != CA.__name__ for m in W.made):
        raise Violation("generated component of another class")
    if how == "function" and len(called) != len(W.made):
        raise Violation("function called %d times for %d components" % (len(called), len(W.made)))
    # end
    finished = n == 0 or (len(W.made) >= n) or tillabs < HORIZON or kind == "moments"
    if kind == "disturbance" and not (len(W.made) >= n):
        finished = tillabs < HORIZON
    if n != 0:
        if finished:
            if len(ends) != 1:
                raise Violation("at_end called %d times" % len(ends))
            if times and ends[0] < max(times) - 1e-9:
                raise Violation("at_end called at %r, before the last component is generated at %r" % (ends[0], max(times)))
            if ends[0] > tillabs + 1e-9:
                raise Violation("at_end called at %r, after till=%r" % (ends[0], tillabs))
            if len(W.made) >= n and abs(ends[0] - max(times)) > 1e-9:
                raise Violation("at_end called at %r, but the last component was generated at %r" % (ends[0], max(times)))
            if len(W.made) < n and kind in ("iat", "disturbance") and abs(ends[0] - tillabs) > 1e-9:
                raise Violation("at_end called at %r, but the generator ends at till=%r" % (ends[0], tillabs))
            obs("at_end")
            obs("ended_by_number" if len(W.made) >= n else "ended_by_till")
            if not holder["gen"].isdata():
                raise Violation("generator has status %s after it ended" % holder["gen"].status())
        elif ends:
            raise Violation("at_end called at %r while the generator has not ended" % ends[0])
    if holder["gen"].env is not env:
        raise Violation("generator belongs to another environment")
    if case["env"] == "other" and (other.now() != 0 or other.peek() != math.inf):
        raise Violation("the other environment is affected by a generator")
    obs.sig = [kind, case["yieldless"], how, tuple(round(t, 6) for t in times[:20]), len(times), case["env"]]
    obs.nontrivial = bool(times)
