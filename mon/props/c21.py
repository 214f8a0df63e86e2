import datetime
import math
import random

from mon.core import Violation, sim
from mon.kernel import KernelProp

UNITS = {"years": 86400 * 365, "weeks": 86400 * 7, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1, "milliseconds": 1e-3, "microseconds": 1e-6}
NAMES = list(UNITS)

OPS = dict(hold=10, oactivate=2, ohold=1, interrupt=1, resume=1.5, passivate=0.5, opassivate=0.3, standby=0.3, create=0.5, holdpast=0.3, remaining=0.7, reset_now=2)
MAINOPS = dict(oactivate=1, ohold=0.5, create=1, reset_now=2)
P = KernelProp(
    "C21",
    [
        dict(comps=(2, 6), len=(3, 12), runs=(1, 5), runprio=0.3, ops=OPS, mainops=MAINOPS),
        dict(comps=(2, 6), len=(3, 12), runs=(1, 5), resources=(1, 2), states=(1, 1), stores=(1, 1), queues=(1, 1), fail=0.6,
             ops=dict(OPS, request=3, release=2, wait=2, set=1.5, trigger=0.5, from_store=2, to_store=2, enter=1, leave=1), mainops=MAINOPS),
    ],
    "(a) random models in which components and main reset the clock at random moments, compared with the reference model (all scheduled, fail, mode and enter times, runs); "
    "(b) conversions between random time units, datetimes, timedeltas and strings checked against exact arithmetic, also after reset_now and as time specifications of hold, activate, request, run; "
    "(c) the same queueing model in two time units compared event by event and on all statistics",
    {"quick": 10000, "thorough": 80000},
    required=("log_cont", "conversions", "roundtrips", "strings", "datetime_specs", "scaled_events", "scaled_statistics", "resets", "fractions"),
    assumptions=["conversions are exact up to floating point rounding (relative 1e-9) and the microsecond resolution of datetime"],
)
ID, RULE, CASES, REQUIRED, ASSUMPTIONS = P.ID, P.RULE, P.CASES, P.REQUIRED, P.ASSUMPTIONS


def gen(rng, index, tier):
    part = index % 4
    if part < 2:
        c = P.gen(rng, index // 4 * 2 + part, tier)
        c["part"] = "kernel"
        return c
    if part == 2:
        return {"part": "conv", "unit": rng.choice(NAMES + ["n/a"]), "dt0": rng.choice([None, True, [2024, 2, 28, 22, 30, 15], [2020, 1, 1], [1999, 12, 31, 23, 59, 59, 500000], "2022-06-01 12:00"]),
                "later": rng.random() < 0.3, "vals": [rng.choice([0, 1, 2.5, rng.randint(1, 100000), round(rng.uniform(0, 1000), 3)]) for _ in range(6)],
                "resets": [[rng.choice([0, 1, 17, 3600]), rng.choice([0, 0, 5, -20, 1000])] for _ in range(rng.randint(0, 3))], "yieldless": rng.random() < 0.5, "seed": rng.randrange(10 ** 9)}
    return {"part": "scale", "units": rng.sample(NAMES[2:7], 2), "seed": rng.randrange(10 ** 9), "yieldless": rng.random() < 0.5, "cap": rng.randint(1, 2), "n": rng.randint(3, 25),
            "iat": rng.choice([1, 3.5, 10]), "serv": rng.choice([1, 4, 12]), "pat": rng.choice([0.5, 3, 8]), "iu": rng.choice(NAMES[3:6]), "su": rng.choice(NAMES[3:6]), "runs": [rng.choice([1, 5, 30]) for _ in range(rng.randint(0, 3))]}


def near(a, b, tol=1e-9):
    return a == b or abs(a - b) < math.inf and abs(a - b) <= tol * max(abs(a), abs(b)) + 1e-12


def conv(case, obs):
    kw = {}
    dt0 = case["dt0"]
    if isinstance(dt0, list):
        dt0 = datetime.datetime(*dt0)
    if case["unit"] != "n/a" or case["later"]:
        kw["time_unit"] = case["unit"]
    if dt0 is not None and not case["later"]:
        kw["datetime0"] = dt0
    env = sim.Environment(yieldless=case["yieldless"], **kw)
    if dt0 is not None and case["later"]:
        env.datetime0(dt0)
    zero = None
    if dt0 is not None:
        zero = datetime.datetime(1970, 1, 1) if dt0 is True else (datetime.datetime(2022, 6, 1, 12) if isinstance(dt0, str) else dt0)
        if env.datetime0() != zero:
            raise Violation("datetime0() is %r, should be %r" % (env.datetime0(), zero))
    elif env.datetime0():
        raise Violation("datetime0() is %r without specification" % env.datetime0())
    unit = case["unit"]
    if unit == "n/a" and zero is not None:
        unit = "seconds"
    if env.get_time_unit() != unit:
        raise Violation("get_time_unit() is %r, should be %r" % (env.get_time_unit(), unit))
    plain = "" if unit == "n/a" else unit
    want = {"d": plain, "(d)": plain and "(%s)" % plain, "t": "" if zero else plain, "(t)": "(yyyy-mm-dd)" if zero else plain and "(%s)" % plain}
    got = {k: env.get_time_unit(template=k) for k in want}
    if got != {k: v and " " + v for k, v in want.items()}:
        raise Violation("get_time_unit per template is %r, should be %r" % (got, want))
    obs("templates")
    if unit == "n/a":
        for n in NAMES:
            for f in (getattr(env, n), getattr(env, "to_" + n)):
                try:
                    f(1)
                except AttributeError:
                    obs("conversions")
                    continue
                raise Violation("%s works without a time unit" % n)
        for t in case["vals"]:
            if float(env.time_to_str(t)) != float("%.3f" % t) or float(env.duration_to_str(t)) != float("%.3f" % t):
                raise Violation("time_to_str(%r) is %r, duration_to_str %r" % (t, env.time_to_str(t), env.duration_to_str(t)))
            obs("strings")
        return
    U = UNITS[unit]
    mon = sim.Monitor("mon", type="float")
    for v in case["vals"]:
        mon.tally(v)
        for n in NAMES:
            w = v * UNITS[n] / U
            got = getattr(env, n)(v)
            if not near(got, w):
                raise Violation("env.%s(%r) in %s is %r, should be %r" % (n, v, unit, got, w))
            if not near(getattr(env, n)(lambda: v), w):
                raise Violation("env.%s of a callable in %s is wrong" % (n, unit))
            w = v * U / UNITS[n]
            got = getattr(env, "to_" + n)(v)
            if not near(got, w) or not near(env.to_time_unit(n, v), w) or not near(getattr(env, "to_" + n)(lambda: v), w):
                raise Violation("env.to_%s(%r) in %s is %r, should be %r" % (n, v, unit, got, w))
            if not near(getattr(env, "to_" + n)(getattr(env, n)(v)), v):
                raise Violation("env.to_%s(env.%s(%r)) in %s does not round trip" % (n, n, v, unit))
            obs("conversions", 4)
            obs("roundtrips")
            d = sim.Constant(v, time_unit=n, env=env)
            if not near(d(), v * UNITS[n] / U):
                raise Violation("Constant(%r, %r) in %s samples %r" % (v, n, unit, d()))
    for n in NAMES:
        for m2 in (getattr(mon, "to_" + n)(), mon.to_time_unit(n)):
            got = list(m2.x(force_numeric=False))
            want = [v * U / UNITS[n] for v in case["vals"]]
            if len(got) != len(want) or not all(near(a, b) for a, b in zip(got, want)):
                raise Violation("Monitor.to_%s in %s gives %r, should be %r" % (n, unit, got, want))
    rng = random.Random(case["seed"])
    secs = [0, 1, 59, 60, 61, 3599, 3600, 3661, 86399, 86400, 90061] + [rng.randint(0, 400000) for _ in range(8)]
    secs += [rng.choice([0.5, 0.25, 1e-6, 0.001, 1.5, 3600.75, round(rng.uniform(0, 100), 6), round(rng.uniform(0, 100000), 3)]) for _ in range(4)]
    origin = zero
    elapsed = 0.0  # seconds since the start
    CR = []

    def close(a, b):
        return abs(a - b) < math.inf and abs(a - b) <= 1e-6 * max(1, abs(a), abs(b)) + 1e-11 * U * max(1, abs(env.now()), 1000)

    def verify():
        """all conversions with the present origin"""
        if zero is None:
            return
        if not close((env.datetime0() - origin).total_seconds(), 0):
            raise Violation("datetime0() is %r, should be %r" % (env.datetime0(), origin))
        want = zero + datetime.timedelta(seconds=elapsed)
        got = env.t_to_datetime(env.now())
        if abs((got - want).total_seconds()) > 1e-5 + 1e-11 * U * max(1000, abs(env.now())):
            raise Violation("t_to_datetime(now) is %s, should be %s" % (got, want))
        for s in secs:
            dt = env.datetime0() + datetime.timedelta(seconds=s)
            t = env.datetime_to_t(dt)
            if not near(t, s / U):
                raise Violation("datetime_to_t is %r, should be %r %s" % (t, s / U, unit))
            if abs((env.t_to_datetime(t) - dt).total_seconds()) > 2e-6:
                raise Violation("t_to_datetime(datetime_to_t(%s)) is %s" % (dt, env.t_to_datetime(t)))
            td = datetime.timedelta(seconds=s)
            du = env.timedelta_to_duration(td)
            if not near(du, s / U):
                raise Violation("timedelta_to_duration(%s) is %r, should be %r %s" % (td, du, s / U, unit))
            if abs((env.duration_to_timedelta(du) - td).total_seconds()) > 2e-6:
                raise Violation("duration_to_timedelta(timedelta_to_duration(%s)) is %s" % (td, env.duration_to_timedelta(du)))
            if not near(env.spec_to_time(dt), s / U) or not near(env.spec_to_duration(td), s / U) or not near(env.spec_to_time(lambda: dt), s / U):
                raise Violation("spec_to_time/spec_to_duration of %s/%s is %r/%r" % (dt, td, env.spec_to_time(dt), env.spec_to_duration(td)))
            if s != int(s):
                obs("fractions")
                if U <= 1 and s < 86400:
                    txt = "%d:%02d:%09.6f" % (s // 3600, s // 60 % 60, s % 60)
                    if not near(env.spec_to_duration(txt), s / U):
                        raise Violation("spec_to_duration(%r) is %r, should be %r" % (txt, env.spec_to_duration(txt), s / U))
                continue
            if env.datetime0().microsecond == 0:
                txt = dt.strftime("%Y-%m-%d %H:%M:%S")
                if not near(env.spec_to_time(txt), s / U):
                    raise Violation("spec_to_time(%r) is %r, should be %r" % (txt, env.spec_to_time(txt), s / U))
                want = "%s %s" % (["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"][dt.weekday()], txt)
                if env.time_to_str(t).strip() != want:
                    raise Violation("time_to_str(%r) is %r, should be %r" % (t, env.time_to_str(t), want))
            if s < 86400:
                txt = "%d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
                if not near(env.spec_to_duration(txt), s / U):
                    raise Violation("spec_to_duration(%r) is %r, should be %r" % (txt, env.spec_to_duration(txt), s / U))
            want = ("%d " % (s // 86400) if s >= 86400 else "") + "%02d:%02d:%02d" % (s // 3600 % 24, s // 60 % 60, s % 60)
            if env.duration_to_str(du) != want:
                raise Violation("duration_to_str(%r) in %s is %r, should be %r" % (du, unit, env.duration_to_str(du), want))
            obs("roundtrips", 2)
            obs("strings", 3)
            obs("conversions", 6)
        if env.t_to_datetime(math.inf) != math.inf:
            raise Violation("t_to_datetime(inf) is %r" % env.t_to_datetime(math.inf))

    verify()
    log = []
    # clock resets between runs; what lies ahead keeps its moment
    ahead = 5000.0
    due = {}

    class Y(sim.Component):
        def process(self):
            log.append((self.name(), elapsed_now()))
            yield self.hold(0)

    class N(sim.Component):
        def process(self):
            log.append((self.name(), elapsed_now()))
            self.hold(0)
    C = N if case["yieldless"] else Y

    def elapsed_now():
        return (env.now() - ref[1]) * U + ref[0]
    ref = [0.0, 0.0]  # elapsed seconds and now() at the last reset
    k = 0
    for s, r in case["resets"] + [[7200, 0]]:
        # components to be started at various moments, specified in various ways
        for _ in range(3):
            secs_ahead = rng.choice([1, 10, 4000, 20000])
            target = elapsed + secs_ahead
            form = rng.choice(["num", "datetime", "delay", "timedelta", "str"]) if zero is not None else rng.choice(["num", "delay"])
            a = {}
            if form == "num":
                a["at"] = env.now() + secs_ahead / U
            elif form == "datetime":
                a["at"] = env.t_to_datetime(env.now()) + datetime.timedelta(seconds=secs_ahead)
            elif form == "delay":
                a["delay"] = secs_ahead / U
            elif form == "timedelta":
                a["delay"] = datetime.timedelta(seconds=secs_ahead)
            else:
                a["delay"] = "%02d:%02d:%02d" % (secs_ahead // 3600, secs_ahead // 60 % 60, secs_ahead % 60)
            c = C("c%d" % k, **a)
            CR.append((c, elapsed))
            due[c.name()] = target
            k += 1
            obs("datetime_specs")
        if zero is not None and s and rng.random() < 0.5:
            env.run(till=env.t_to_datetime(env.now()) + datetime.timedelta(seconds=s))
        elif zero is not None and rng.random() < 0.5:
            env.run(duration=datetime.timedelta(seconds=s))
        else:
            env.run(duration=s / U)
        elapsed += s
        if not close(elapsed_now(), elapsed):
            raise Violation("now() is %r after running till %r seconds" % (env.now(), elapsed))
        before = env.now()
        env.reset_now(r)
        if not near(env.now(), r):
            raise Violation("now() is %r after reset_now(%r)" % (env.now(), r))
        if zero is not None:
            origin = origin + datetime.timedelta(seconds=(before - r) * U)
        ref[:] = [elapsed, env.now()]
        obs("resets")
        for c, t in CR:
            if not close(elapsed + (c.creation_time() - env.now()) * U, t):
                raise Violation("creation_time() of %s is %r after reset_now" % (c.name(), c.creation_time()))
            if c.isscheduled() and not close(elapsed + (c.scheduled_time() - env.now()) * U, due[c.name()]):
                raise Violation("scheduled_time() of %s is %r after reset_now" % (c.name(), c.scheduled_time()))
        verify()
    env.run()
    got = dict(log)
    if len(got) != len(log) or set(got) != set(due):
        raise Violation("not all components executed once")
    for n in due:
        if not close(got[n], due[n]):
            raise Violation("%s executed %r seconds after the start instead of %r" % (n, got[n], due[n]))


def one(case, unit):
    env = sim.Environment(yieldless=case["yieldless"], time_unit=unit, random_seed=case["seed"])
    log = []
    res = sim.Resource("res", capacity=case["cap"])
    mon = sim.Monitor("service", type="float")
    S = sim.Exponential(case["serv"], case["su"])
    stop = sim.Uniform(0.5 * case["pat"], 2 * case["pat"], case["su"])

    def begin(self):
        log.append(("arr", self.name(), env.now()))

    class Y(sim.Component):
        def process(self):
            begin(self)
            yield self.request(res, fail_delay=stop)
            log.append(("start", self.name(), env.now(), self.failed()))
            if not self.failed():
                s = S()
                mon.tally(s)
                yield self.hold(s)
                log.append(("end", self.name(), env.now()))
                if self.sequence_number() % 3 == 0:
                    yield self.hold(till=env.now() + env.minutes(2))
                self.release()
            log.append(("leave", self.name(), env.now()))

    class N(sim.Component):
        def process(self):
            begin(self)
            self.request(res, fail_delay=stop)
            log.append(("start", self.name(), env.now(), self.failed()))
            if not self.failed():
                s = S()
                mon.tally(s)
                self.hold(s)
                log.append(("end", self.name(), env.now()))
                if self.sequence_number() % 3 == 0:
                    self.hold(till=env.now() + env.minutes(2))
                self.release()
            log.append(("leave", self.name(), env.now()))
    cls = N if case["yieldless"] else Y
    sim.ComponentGenerator(cls, iat=sim.Exponential(case["iat"], case["iu"]), number=case["n"], delay=env.seconds(30))
    for d in case["runs"]:
        env.run(env.minutes(d))
        log.append(("run", "main", env.now()))
    env.run()
    log.append(("run", "main", env.now()))
    q, c = res.requesters(), res.claimers()
    times = [q.length_of_stay.mean(), q.length_of_stay.maximum(), c.length_of_stay.mean(), c.length_of_stay.std(), mon.mean(), mon.percentile(50), res.claimed_quantity.duration(), q.length.duration(), env.now()]
    nums = [q.length.mean(), q.length.maximum(), c.length.mean(), res.occupancy.mean(), res.claimed_quantity.mean(), q.length.std(), q.number_of_arrivals, q.number_of_departures, mon.number_of_entries(),
            q.length.percentile(90), env.now() * q.arrival_rate()]
    secs = [mon.to_minutes().mean(), q.length_of_stay.to_hours().maximum(), env.to_days(env.now())]
    return log, times, nums, secs


def scale(case, obs):
    a, b = [one(case, u) for u in case["units"]]
    f = UNITS[case["units"][0]] / UNITS[case["units"][1]]
    same = lambda x, y: x == y or (x != x and y != y) or near(x, y, 1e-7)  # noqa: E731
    if len(a[0]) != len(b[0]):
        raise Violation("%d events in %s and %d in %s" % (len(a[0]), case["units"][0], len(b[0]), case["units"][1]))
    for x, y in zip(a[0], b[0]):
        if x[:2] != y[:2] or x[3:] != y[3:] or not same(x[2] * f, y[2]):
            raise Violation("event %r in %s is %r in %s" % (x, case["units"][0], y, case["units"][1]))
        obs("scaled_events")
    for i, (x, y) in enumerate(zip(a[1], b[1])):
        if not same(x * f, y):
            raise Violation("time statistic %d: %r in %s, %r in %s" % (i, x, case["units"][0], y, case["units"][1]))
        obs("scaled_statistics")
    for k in (2, 3):
        for i, (x, y) in enumerate(zip(a[k], b[k])):
            if not same(x, y):
                raise Violation("statistic %d: %r in %s, %r in %s" % (i, x, case["units"][0], y, case["units"][1]))
            obs("scaled_statistics")
    obs.sig = [x[:2] for x in a[0]] + [round(x[2] * UNITS[case["units"][0]], 3) for x in a[0]]


def check(case, obs):
    if case["part"] == "kernel":
        KernelProp.check(P, case, obs)
    elif case["part"] == "conv":
        conv(case, obs)
    else:
        scale(case, obs)


def shrink(case):
    if case["part"] == "kernel":
        yield from P.shrink(case)
