"""C18: runs are reproducible and observing them does not change them"""
import contextlib
import hashlib
import io
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

from mon import gen as G
from mon.core import Violation, digest, sim, REPO, is_level
from mon.kernel import diff, count
from mon.real import RealWorld

ID = "C18"
RULE = ("random stochastic models with all kinds of process interaction, resources, states, stores, queues and generators, run plainly and once more with: other simulations before it, trace to stdout, "
        "to a file or switched on and off, monitors switched off (also temporarily), stats_only monitors, all accessors and reports called after every step, blind animation with a video, and in "
        "fresh interpreters with different PYTHONHASHSEED; the complete logs of events, samples and states have to be equal. Seeds: equal seeds give equal streams, different seeds different ones")
CASES = {"quick": 2400, "thorough": 24000}
VARIANTS = ["again", "trace", "trace", "tracefile", "traceflip", "off", "off", "flip", "statsonly", "poke", "poke", "poke", "anim"]
REQUIRED = ["variant_" + v for v in set(VARIANTS)] + ["fresh_interpreters", "seeds_compared", "samples"]
ASSUMPTIONS = ["models of several environments that sample from the default stream while interleaved share that stream and are therefore not compared",
               "blind animation is done with a gif video at a low frame rate (the only animation possible without a display)"]

BASE = dict(hold=8, passivate=1, standby=0.5, cancel=0.2, oactivate=1.5, ohold=0.5, opassivate=0.4, ocancel=0.3, interrupt=1, resume=1.2, remaining=0.3, end=0.3, create=0.4)
OPT = {
    "resources": dict(request=5, release=3, rcap=0.4),
    "states": dict(wait=4, set=3, trigger=1),
    "stores": dict(from_store=4, to_store=4, item_leave=0.5, scap=0.3, refilter=0.3),
    "queues": dict(enter=3, leave=1.5, qpop=0.7, qprio=0.7),
}
DISTS = ["Uniform(0,1)", "Exponential(0.5)", "Pdf((0, 1, 0.5, 2, 1.5, 1))", "IntUniform(0,2)", "Triangular(0,2,1)", "Normal(1,0.2)", "Bounded", "Weibull(1,1.5)", "Erlang(2,2)", "Poisson(1)", "Cdf((0,0,1,50,2,100))"]


def gen_model(rng):
    prof = dict(comps=(2, 6), len=(3, 12), fail=0.3, mode=0.15, ops=dict(BASE), mainops=dict(oactivate=2, create=0.5, resume=0.5), res_kinds=dict(plain=4, first=1, highest=1), drain=False)
    kinds = rng.sample(sorted(OPT), rng.choice([1, 1, 2, 3, 4]))
    for k in kinds:
        prof[k] = (1, 2)
        prof["ops"].update(OPT[k])
    if "resources" in kinds:
        x = rng.random()
        if x < 0.15:
            prof["res_kinds"] = dict(pre=1)
        elif x < 0.35:
            prof["res_kinds"] = dict(anon=1)
            prof["ops"].update(get=4, put=4)
    case = G.build(rng, prof)
    case["dists"] = [rng.choice(DISTS) for _ in range(rng.randint(1, 3))]
    case["seed"] = rng.choice([None, 1, 2, 12345, "abc", 3.5, 2 ** 70])
    if rng.random() < 0.4:
        case["gen"] = {"iat": rng.choice(["Exponential(1)", "Uniform(0.5,1)"]), "number": rng.randint(1, 4)}
    case["yieldless"] = rng.random() < 0.5
    case["big"] = rng.choice([0, 0, 0, 0, 30, 300, 2500])
    return case


def gen(rng, index, tier):
    if index % 100 == 7:
        return {"kind": "hash", "models": [gen_model(rng) for _ in range(25)], "hash": [0, rng.randrange(1, 10 ** 6), "random"]}
    if index % 20 == 3:
        return {"kind": "seed", "seeds": [rng.choice([rng.randrange(10 ** 9), "s%d" % rng.randrange(10 ** 6), rng.random()]) for _ in range(2)], "dists": rng.sample(DISTS, 4), "n": 50}
    c = gen_model(rng)
    c["kind"] = "observe"
    v = rng.choice(VARIANTS)
    if index % 40 == 11:
        v = "anim"
    elif v == "anim":
        v = "poke"
    c["variant"] = v
    c["vseed"] = rng.randrange(10 ** 6)
    if v == "anim":
        c["main"] = [["run", -3, {"d": 3}], ["run", -3, {"d": 2}]]
    return c


def make_dist(spec, env):
    if spec == "Bounded":
        return sim.Bounded(sim.Normal(1, 1, env=env), lowerbound=0, upperbound=2)
    d = eval("sim." + spec, {"sim": sim})
    return d


class GComp(sim.Component):
    def setup(self, rw):
        self.rw = rw
        rw.log.append(("generated", self.env.now(), self.sequence_number()))


class Stoch(RealWorld):
    def __init__(self, case, variant=None, vseed=0, env_kwargs=None):
        self.variant = variant
        self.vrng = random.Random(vseed)
        self.nsamples = 0
        self.ready = False
        kw = dict(random_seed=case["seed"])
        kw.update(env_kwargs or {})
        super().__init__(case, yieldless=case["yieldless"], env_kwargs=kw)
        self.dists = [make_dist(d, self.env) for d in case["dists"]]
        # own monitors, one with many observations
        r = random.Random(len(case["comps"]) if "comps" in case else 1)
        self.mons = [sim.Monitor("big", env=self.env), sim.Monitor("weighted", weighted=True, env=self.env), sim.Monitor("level", level=True, env=self.env)]
        for k in range(case.get("big", 0)):
            self.mons[0].tally(r.choice([0, r.randint(1, 50), r.random()]))
            self.mons[1].tally(r.randint(0, 9), r.randint(0, 3))
            self.mons[2].tally(r.randint(0, 9))
        self.gens = []
        if "gen" in case:
            g = dict(case["gen"])
            g["iat"] = eval("sim." + g["iat"], {"sim": sim})
            g = sim.ComponentGenerator(GComp, env=self.env, rw=self, **g)
            self.gens.append(g)
        self.ready = True

    def sample(self):
        v = self.dists[self.nsamples % len(self.dists)].sample()
        self.nsamples += 1
        self.log.append(("sample", v))
        for m in self.mons:
            m.tally(v)
        return v

    def op_hold(self, who, ti, kw):
        if kw.get("d") is not None:
            kw = dict(kw, d=kw["d"] + abs(self.sample()))
        return super().op_hold(who, ti, kw)

    def monitors(self):
        mons = list(self.mons)
        for r in self.resources:
            mons += [r.claimed_quantity, r.available_quantity, r.occupancy, r.capacity, r.requesters().length, r.requesters().length_of_stay, r.claimers().length, r.claimers().length_of_stay]
        for s in self.states:
            mons += [s.value, s.waiters().length, s.waiters().length_of_stay]
        for s in self.stores:
            mons += [s.from_store_requesters().length, s.from_store_requesters().length_of_stay, s.to_store_requesters().length, s.to_store_requesters().length_of_stay]
        for q in self.queues + self.stores:
            mons += [q.length, q.length_of_stay, q.capacity, q.available_quantity]
        for c in self.comps:
            mons += [c.status, c.mode]
        return mons

    def finals(self):
        return [(m.name(), m.xt()) for m in self.monitors()] + [(x.name(), x.print_statistics(as_str=True)) for x in self.resources + self.states + self.stores + self.queues]

    def snap(self):
        super().snap()
        if self.ready and self.variant:
            getattr(self, "v_" + self.variant, lambda: None)()

    def v_traceflip(self):
        if self.vrng.random() < 0.3:
            self.env.trace(not self.env.trace())

    def v_flip(self):
        ms = self.monitors()
        for m in self.vrng.sample(ms, min(len(ms), 3)):
            m.monitor(not m.monitor())
        for x in self.queues + self.resources + self.states:
            if self.vrng.random() < 0.1:
                x.reset_monitors()

    def v_off(self):
        for m in self.monitors():
            if m.monitor():
                m.monitor(False)

    def v_poke(self):
        rng = self.vrng
        env = self.env
        out = []
        ops = []
        for q in self.queues + self.stores + [r.requesters() for r in self.resources] + [r.claimers() for r in self.resources] + [s.waiters() for s in self.states]:
            ops += [lambda q=q: (len(q), q.head(), q.tail(), list(q), list(reversed(q)), q[:], q[::-1], bool(q), repr(q), str(q), q.name(), q.base_name(), q.sequence_number(), q.number_of_arrivals, q.arrival_rate()),
                    lambda q=q: q.print_statistics(as_str=True), lambda q=q: q.print_info(as_str=True), lambda q=q: q.print_histograms(as_str=True), lambda q=q: q.all_monitors(),
                    lambda q=q: [(c.successor(q), c.predecessor(q), c.index(q), c.enter_time(q), c.priority(q), q.index(c), q.count(c), c in q) for c in q],
                    lambda q=q: (q.copy("copy"), q.as_list(), q.as_set()), lambda q=q: [c for c in q][:1], lambda q=q: next(iter(q), None), lambda q=q: (q | q, q & q, q - q, q ^ q, q == q, q < q)]
        for r in self.resources:
            ops += [lambda r=r: r.print_statistics(as_str=True), lambda r=r: r.print_info(as_str=True), lambda r=r: r.print_histograms(as_str=True), lambda r=r: (repr(r), r.ispreemptive()),
                    lambda r=r: [(c.isclaiming(r), c.isbumped(r), c.claimed_quantity(r), c.requested_quantity(r)) for c in self.comps]]
        for s in self.states:
            ops += [lambda s=s: s.print_statistics(as_str=True), lambda s=s: s.print_info(as_str=True), lambda s=s: s.print_histograms(as_str=True), lambda s=s: (s(), s.get(), repr(s), str(s))]
        for c in self.comps:
            ops += [lambda c=c: c.print_info(as_str=True), lambda c=c: (repr(c), str(c), c.ispassive(), c.iswaiting(), c.isrequesting(), c.claimed_resources(), c.requested_resources(), c.queues(), c.count()),
                    lambda c=c: (c.creation_time(), c.scheduled_time(), c.remaining_duration(), c.mode_time(), c.running_process(), c.skip_standby(), c.failed(), c.lineno_txt()),
                    lambda c=c: (c.sequence_number(), c.base_name(), c.interrupt_level(), c.from_store_item(), c.from_store_store(), c.to_store_store())]
        for m in self.monitors():
            ops += [lambda m=m: (m.mean(), m.std(), m.minimum(), m.maximum(), m.median(), m.percentile(90), m.value_number_of_entries(1) if not is_level(m) else m.value_duration(1)) if m.xtype == "float" else m.values(),
                    lambda m=m: (m.xt(), m.tx(), m.x() if not is_level(m) else m.xduration(), m()) if is_level(m) else (m.x(), m.xt()), lambda m=m: m.freeze(), lambda m=m: m[0:2], lambda m=m: (repr(m), m.name()),
                    lambda m=m: m.print_histogram(as_str=True), lambda m=m: m.print_statistics(as_str=True), lambda m=m: m.as_dataframe(), lambda m=m: m.slice(0, 1, 2)]
        for d in self.dists:
            ops += [lambda d=d: (d.mean(), repr(d), d.print_info(as_str=True))]
        ops += [lambda: (env.now(), env.t(), env.main(), env.current_component(), env.peek(), repr(env), env.print_info(as_str=True), env.get_time_unit(), env.trace(), env.suppress_trace_standby())]
        state = random.getstate()
        for f in rng.sample(ops, min(len(ops), 12)) + [lambda: [m.print_statistics(as_str=True) for m in self.mons] if rng.random() < 0.2 else None]:
            try:
                out.append(f())
            except (ZeroDivisionError, NotImplementedError, OverflowError):
                pass
        if random.getstate() != state:
            raise Violation("reading or printing samples from the random stream")
        return out


def plain(case, **kw):
    w = Stoch(case, **kw)
    w.simulate()
    return w


def check(case, obs):
    if case["kind"] == "hash":
        return check_hash(case, obs)
    if case["kind"] == "seed":
        return check_seed(case, obs)
    base = plain(case)
    fin = base.finals()
    v = case["variant"]
    obs("variant_" + v)
    obs("samples", base.nsamples)
    cmpfin = True
    buf = io.StringIO()
    tmp = None
    try:
        with contextlib.redirect_stdout(buf):
            if v == "again":
                rng = random.Random(case["vseed"])
                other = gen_model(rng)
                other["main"] = other["main"][:1]
                plain(other)
                sim.random.random()
                sim.reset()
                w = plain(case)
            elif v == "trace":
                w = plain(case, env_kwargs={"trace": True})
            elif v == "tracefile":
                f = io.StringIO()
                w = plain(case, env_kwargs={"trace": f})
                if f.getvalue().count("\n") < 3:
                    raise Violation("no trace in the file")
            elif v == "traceflip":
                w = plain(case, variant="traceflip", vseed=case["vseed"])
            elif v in ("off", "flip"):
                w = plain(case, variant=v, vseed=case["vseed"])
                cmpfin = False
            elif v == "statsonly":
                w = Stoch(case)
                for x in w.resources + w.queues + w.stores:
                    x.reset_monitors(stats_only=True)
                w.simulate()
                cmpfin = False
                compare_stats_only(base, w, obs)
            elif v == "poke":
                w = plain(case, variant=v, vseed=case["vseed"])
            elif v == "anim":
                tmp = tempfile.mkdtemp(prefix="c18-")
                w = Stoch(case, env_kwargs={"blind_animation": True})
                w.env.animate(True)
                w.env.fps(4)
                for i, q in enumerate(w.queues + w.stores + [r.requesters() for r in w.resources]):
                    sim.AnimateQueue(q, x=100, y=50 * i + 50)
                    sim.AnimateMonitor(q.length, x=300, y=60 * i + 50, width=100, height=50)
                sim.AnimateText(text=lambda t: "%.3f" % t, x=5, y=5, env=w.env)
                sim.AnimateRectangle(spec=lambda t: (0, 0, t * 10, 20), x=lambda t: t, env=w.env)
                w.env.video(os.path.join(tmp, "x.gif"))
                w.simulate()
                w.env.video_close()
                if not os.path.exists(os.path.join(tmp, "x.gif")):
                    raise Violation("no video produced")
                # pending frames show up in peek() only
                for x in (base, w):
                    x.log = [(e[:1] + e[2:]) if e[0] == "snap" else e for e in x.log]
    finally:
        if tmp:
            shutil.rmtree(tmp, ignore_errors=True)
    if v == "trace" and buf.getvalue().count("\n") < 5:
        raise Violation("trace is on, but nothing is shown")
    d = diff(w.log, base.log, "with %s" % v, "plain run")
    if d or w.log != base.log:
        raise Violation("%s changes the simulation: %s" % (v, d))
    if w.env.now() != base.env.now():
        raise Violation("%s: ended at %r instead of %r" % (v, w.env.now(), base.env.now()))
    if cmpfin:
        f2 = w.finals()
        for a, b in zip(fin, f2):
            if a != b:
                raise Violation("%s changes the statistics of %s:\n%s\nplain run\n%s" % (v, a[0], b[1], a[1]))
        obs("finals_compared", len(fin))
    count(base.log, obs)
    obs.sig = digest((v, base.log))
    obs.nontrivial = len(base.log) > 20


def compare_stats_only(a, b, obs):
    for x, y in zip(a.resources + a.queues + a.stores, b.resources + b.queues + b.stores):
        for m, n in zip(x.all_monitors(), y.all_monitors()):
            if m.name() != n.name():
                raise Violation("monitor %s <-> %s" % (m.name(), n.name()))
            for f in ("mean", "std"):
                p, q = getattr(m, f)(), getattr(n, f)()
                if p != q and not (p != p and q != q) and not abs(p - q) <= 1e-8 * max(1, abs(p)):
                    raise Violation("stats_only changes %s of %s: %r instead of %r" % (f, m.name(), q, p))
            obs("stats_only_monitors")


def model_digest(case):
    w = plain(case)
    return hashlib.sha256(repr((w.log, w.finals())).encode()).hexdigest()


SUB = """
import sys, json
sys.path.insert(0, %r)
from mon.props import c18
for m in json.load(sys.stdin):
    print("D", c18.model_digest(m))
"""


def check_hash(case, obs):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    mine = [model_digest(m) for m in case["models"]]
    for h in case["hash"]:
        env = dict(os.environ, PYTHONHASHSEED=str(h), VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
        p = subprocess.run([sys.executable, "-c", SUB % here], input=json.dumps(case["models"]), capture_output=True, text=True, env=env)
        if p.returncode:
            raise Violation("fresh interpreter failed: " + p.stderr[-600:])
        got = [x.split()[1] for x in p.stdout.splitlines() if x.startswith("D ")]
        obs("fresh_interpreters")
        for i, (a, b) in enumerate(zip(mine, got)):
            if a != b:
                raise Violation("model %d gives another run in a fresh interpreter with PYTHONHASHSEED=%s: %s" % (i, h, json.dumps(case["models"][i])[:1500]))
        if len(got) != len(mine):
            raise Violation("fresh interpreter ran %d of %d models" % (len(got), len(mine)))


def check_seed(case, obs):
    def stream(seed, how):
        if how == "env":
            env = sim.Environment(random_seed=seed)
        else:
            env = sim.Environment(random_seed="" if how == "func" else 5)
            sim.random_seed(seed)
        ds = [make_dist(d, env) for d in case["dists"]]
        return [d.sample() for _ in range(case["n"]) for d in ds]

    a, b = case["seeds"]
    s = {x: [stream(x, h) for h in ("env", "func", "func2", "env")] for x in (a, b)}
    for x in s:
        if any(y != s[x][0] for y in s[x]):
            raise Violation("seed %r does not give the same samples each time" % (x,))
    if a != b and s[a][0] == s[b][0]:
        raise Violation("seeds %r and %r give the same samples" % (a, b))
    if stream(None, "env") != stream(None, "func") or stream(None, "env") != stream(1234567, "env"):
        raise Violation("default seed is not reproducible")
    if stream("*", "env") == stream("*", "env"):
        raise Violation("random_seed='*' gives the same samples twice")
    # random_seed="" does not reseed
    sim.Environment(random_seed=a)
    x = [sim.random.random() for _ in range(3)]
    sim.Environment(random_seed=a)
    y = [sim.random.random()]
    sim.Environment(random_seed="")
    y += [sim.random.random() for _ in range(2)]
    if x != y:
        raise Violation("random_seed='' reseeds")
    # own stream
    env = sim.Environment(random_seed=b)
    r1, r2 = random.Random(), random.Random()
    sim.random_seed(a, randomstream=r1)
    sim.random_seed(a, randomstream=r2)
    e1 = sim.Uniform(0, 1, randomstream=r1, env=env)
    e2 = sim.Uniform(0, 1, randomstream=r2, env=env)
    g = sim.Uniform(0, 1, env=env)
    want = [e1.sample() for _ in range(20)]
    got = []
    for _ in range(20):
        g.sample()
        got.append(e2.sample())
    if want != got:
        raise Violation("a seeded randomstream is influenced by sampling from the default stream")
    obs("seeds_compared")
    obs.sig = digest(s[a][0])


def shrink(case):
    if case["kind"] == "observe":
        for c in G.shrink_case(case):
            yield c
