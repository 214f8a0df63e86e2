
from mon import gen as G
from mon.core import Violation, sim, digest
from mon.kernel import diff, count
from mon.real import RealWorld

ID = "C22"
RULE = ("2-4 random models (own modes, components, resources, states, stores, queues), each run on its own and then together: main steps interleaved in random order, or executed from processes of another "
        "environment (yield or yieldless, environment created outside or inside that process), with the default environment changing in between; recorded events, states, statistics and names of each model have to be the same")
CASES = {"quick": 3000, "thorough": 40000}
REQUIRED = ["worlds", "interleaved", "nested", "host_yield", "host_yieldless", "created_inside", "log_cont", "default_env_objects", "generated", "boom"]
PROFILES = [
    dict(comps=(1, 4), len=(2, 8), runs=(1, 4), runprio=0.2, queues=(0, 0), ops=dict(hold=8, oactivate=2, interrupt=1, resume=1.5, passivate=1, standby=0.7, create=0.7, ocancel=0.4, stop=0.3),
         mainops=dict(oactivate=2, create=1, ohold=1)),
    dict(comps=(2, 5), len=(2, 8), runs=(1, 4), resources=(1, 2), states=(1, 1), stores=(1, 1), queues=(1, 1), fail=0.3,
         ops=dict(hold=8, request=4, release=3, wait=2, set=2, trigger=0.5, from_store=2, to_store=2, enter=2, leave=1, oactivate=0.5, rcap=0.3),
         mainops=dict(set=1, rcap=1, create=1, item_enter=1, enter=1)),
]


def gen_gen(rng):
    """arguments for a deterministic component generator"""
    g = {"kind": rng.choice(["iat", "iat", "list", "disturbance", "disturbance", "moments", "equidistant"]), "number": rng.randint(1, 6)}
    q = lambda a, b: rng.randint(a * 4, b * 4) / 4  # noqa: E731
    if g["kind"] in ("iat", "disturbance"):
        g["iat"] = rng.choice([0.25, 0.5, 1, 2])
    if g["kind"] == "list":
        g["iats"] = [q(0, 3) for _ in range(4)] + [1]
    if g["kind"] == "disturbance":
        g["dist"] = [q(0, 3) for _ in range(3)]
    if g["kind"] == "moments":
        g["moments"] = [q(0, 8) for _ in range(rng.randint(1, 5))]
    if g["kind"] == "equidistant":
        g["duration"] = q(1, 8)
        g["number"] += 1
    elif g["kind"] != "moments" and rng.random() < 0.4:
        g["till"] = q(0, 9)
    if g["kind"] in ("iat", "list"):
        g["force_at"] = rng.random() < 0.4
    if g["kind"] != "moments" and rng.random() < 0.4 and g.get("till", 9) > 3:
        g["at"] = q(0, 3)
    g["process"] = rng.choice(["hold", "hold", "data"])
    return g


def cycle(vals):
    n = [0]

    def f():
        n[0] += 1
        return vals[(n[0] - 1) % len(vals)]
    return f


class GY(sim.Component):
    def setup(self, log, data):
        self.log = log
        log.append(("generated", self.name(), self.env.now(), self.env.name(), self.creation_time(), self.status()))
        sim.Component("inside.", process="")  # goes to the default environment, which has to be the one of the generator
        log.append(("inside", sim.default_env() is self.env))

    def process(self):
        self.log.append(("gstart", self.name(), self.env.now()))
        yield self.hold(0.5)
        self.log.append(("gend", self.name(), self.env.now()))


class GN(GY):
    def process(self):
        self.log.append(("gstart", self.name(), self.env.now()))
        self.hold(0.5)
        self.log.append(("gend", self.name(), self.env.now()))


def start_generator(w, g, yl):
    kw = {k: g[k] for k in ("iat", "number", "till", "duration", "at", "force_at", "moments") if k in g}
    if g["kind"] == "list":
        kw["iat"] = cycle(g["iats"])
    if g["kind"] == "disturbance":
        kw["disturbance"] = cycle(g["dist"])
    if g["kind"] == "moments":
        del kw["number"]
    if g["kind"] == "equidistant":
        kw["equidistant"] = True
    if g["process"] == "data" and g["kind"] != "disturbance":
        kw["process"] = ""
    sim.ComponentGenerator(GN if yl else GY, env=w.env, log=w.log, data=None, at_end=lambda: w.log.append(("at_end", w.env.now())), **kw)


def gen(rng, index, tier):
    n = rng.choice([2, 2, 3, 4])
    worlds = []
    for _ in range(n):
        c = G.build(rng, rng.choice(PROFILES))
        c["yieldless"] = rng.random() < 0.6
        c["gens"] = [gen_gen(rng) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        worlds.append(c)
    total = sum(len(c["main"]) + 2 for c in worlds)
    order = [i for i, c in enumerate(worlds) for _ in range(len(c["main"]) + 2)]
    if rng.random() < 0.8:
        rng.shuffle(order)
    return {"worlds": worlds, "order": order, "how": ["interleave", "nested"][index % 2], "host_yl": rng.random() < 0.5, "early": [rng.random() < 0.5 for _ in worlds],
            "hosts": rng.randint(1, 3), "total": total, "late_env": rng.random() < 0.3,
            "boom": {"g": gen_gen(rng), "at": rng.randint(1, 3), "yl": rng.random() < 0.5, "iat": rng.random() < 0.3} if index % 4 == 3 else None}


def stats(w):
    out = []
    for q in w.queues + w.stores + [x for r in w.resources for x in (r.requesters(), r.claimers())] + [s.waiters() for s in w.states]:
        out.append((q.name(), len(q), q.length.mean(), q.length.maximum(), q.length_of_stay.number_of_entries(), repr(q.length_of_stay.mean()), q.number_of_arrivals, q.number_of_departures))
    for r in w.resources:
        out.append((r.name(), r.claimed_quantity.mean(), r.occupancy.mean(), r.claimed_quantity.maximum()))
    for c in w.comps:
        out.append((c.name(), [(s, round(c.status.value_duration(s), 9)) for s in sim.statuses()], c.creation_time()))
    return out


def steps(case, envs):
    w = RealWorld(case, yieldless=case["yieldless"])
    envs.append(w.env)
    for g in case["gens"]:
        start_generator(w, g, case["yieldless"])
    yield w
    w.snap()
    for k, op in enumerate(case["main"]):
        if op[0] == "run":
            w.run(op[2])
        else:
            w.execute(w.env.main(), op)
        if k % 2:
            a, m, q = sim.Component(process="", env=w.env), sim.Monitor(env=w.env), sim.Queue(env=w.env)
            r, s, t = sim.Resource(env=w.env), sim.State(env=w.env), sim.Store(env=w.env)
        else:  # via the environment
            a, m, q = w.env.Component(process=""), w.env.Monitor(), w.env.Queue()
            r, s, t = w.env.Resource(), w.env.State(), w.env.Store()
        a.enter(q)
        lv = sim.Monitor("lv.", level=True, env=w.env, initial_tally=2)
        made = [a, m, q, r, s, t, lv, r.requesters(), r.claimers(), r.occupancy, r.claimed_quantity, r.capacity, s.waiters(), s.value, t.from_store_requesters(), t.to_store_requesters(), q.length, q.length_of_stay, a.status, a.mode,
                q.copy(), q | t, q & t, q - t, q ^ t, q.move(), lv[0:1], m[0:1], lv + lv, m.merge(m), lv.x_map(lambda x: x), m.x_map(lambda x: x), lv.to_seconds() if w.env.get_time_unit() != "n/a" else lv]
        for x in made:
            if x.env is not w.env:
                raise Violation("%s (%s), made in or derived from an object in %s, belongs to %s" % (x.name(), type(x).__name__, w.env.name(), x.env.name()))
        w.log.append(("made", [x.name() for x in made[:19]]))
        w.log.append(("names", a.name(), m.name(), q.name(), a.creation_time(), w.env.main().status(), w.env.current_component().name()))
        yield w
    w.log.append(("stats", repr(stats(w))))
    yield w


def drive(gens, i, worlds):
    if gens[i] is not None:
        try:
            worlds[i] = next(gens[i])
        except StopIteration:
            gens[i] = None


class Boom(Exception):
    pass


def check_boom(b, obs):
    """a component that cannot be generated (its setup, or the function that gives the iat, raises) does not change the default environment"""
    env = sim.Environment(yieldless=b["yl"])
    other = sim.Environment(yieldless=not b["yl"])
    n = [0]

    def tick():
        n[0] += 1
        if n[0] == b["at"]:
            raise Boom

    class C(sim.Component):
        def setup(self):
            if not b["iat"]:
                tick()

        def process(self):
            pass
    g = b["g"]
    kw = {k: g[k] for k in ("iat", "number", "till", "duration", "at", "force_at", "moments") if k in g}
    if g["kind"] == "list":
        kw["iat"] = cycle(g["iats"])
    if g["kind"] == "disturbance":
        kw["disturbance"] = cycle(g["dist"])
    if g["kind"] == "moments":
        del kw["number"]
    if g["kind"] == "equidistant":
        kw["equidistant"] = True
    if b["iat"] and "iat" in kw:
        f = kw["iat"] if callable(kw["iat"]) else cycle([kw["iat"]])
        kw["iat"] = lambda: (tick(), f())[1]
    try:
        sim.ComponentGenerator(C, env=env, **kw)
        env.run()
    except Boom:
        obs("boom")
        if sim.default_env() is not other:
            raise Violation("a component generator of %s that failed (%s) has left the default environment changed to %s" % (env.name(), g["kind"], sim.default_env().name()))


def check(case, obs):
    if case.get("boom"):
        check_boom(case["boom"], obs)
    alone = []
    for c in case["worlds"]:
        g = steps(c, [])
        w = None
        for w in g:
            pass
        alone.append(w.log)
    n = len(case["worlds"])
    envs = []
    gens = [steps(c, envs) for c in case["worlds"]]
    worlds = [None] * n
    order = list(case["order"])
    obs("worlds", n)
    for w in alone:
        obs("generated", sum(1 for e in w if e[0] == "generated"))
    if case["how"] == "interleave":
        obs("interleaved")
        other = sim.Environment(yieldless=True)
        for k, i in enumerate(order):
            drive(gens, i, worlds)
            if case["late_env"] and k == len(order) // 2:
                other = sim.Environment(yieldless=False)
            before = sim.default_env()
            d = sim.Component("d", process="")
            if d.env is not before:
                raise Violation("component created without env belongs to another environment than the default one")
            q = sim.Queue("d")
            if q.env is not before or sim.Resource("d").env is not before or sim.State("d").env is not before or sim.Monitor("d").env is not before:
                raise Violation("object created without env belongs to another environment than the default one")
            obs("default_env_objects")
            if before not in envs and before is not other:
                raise Violation("default environment is not the last one created")
    else:
        obs("nested")
        yl = case["host_yl"]
        host = sim.Environment(yieldless=yl)
        obs("host_yieldless" if yl else "host_yield")
        for i in range(n):
            if case["early"][i]:
                drive(gens, i, worlds)
            else:
                obs("created_inside")
        trace = []

        def step(c):
            if order:
                drive(gens, order.pop(0), worlds)
                trace.append((host.now(), c.name()))
                if host.current_component() is not c:
                    raise Violation("current component of the host environment is %s instead of %s" % (host.current_component().name(), c.name()))
                if c.status() != "current":
                    raise Violation("status of the current component of the host is %s" % c.status())

        class HY(sim.Component):
            def process(self):
                while order:
                    yield self.hold(1)
                    step(self)

        class HN(sim.Component):
            def process(self):
                while order:
                    self.hold(1)
                    step(self)
        for h in range(case["hosts"]):
            (HN if yl else HY)("h%d" % h, env=host)
        tick = sim.Component("tick", process="", env=host)
        host.run(till=2.5)
        while order:
            t = host.now()
            host.run(1)
            if host.now() != t + 1:
                raise Violation("now() of the host environment is %r, should be %r" % (host.now(), t + 1))
        if [x[1] for x in trace] != ["h%d" % (k % case["hosts"]) for k in range(len(trace))] or [x[0] for x in trace] != [1 + k // case["hosts"] for k in range(len(trace))]:
            raise Violation("events of the host environment are disturbed: %r" % trace[:10])
        if tick.status() != "data":
            raise Violation("data component disturbed")
    for i in range(n):
        while gens[i] is not None:
            drive(gens, i, worlds)
        d = diff(worlds[i].log, alone[i], "together", "alone")
        if d:
            raise Violation("model %d (%s): %s" % (i, case["how"], d))
        if worlds[i].errors:
            raise Violation("monitor: " + repr(worlds[i].errors[0]))
        count(worlds[i].log, obs)
    obs.sig = [case["how"], digest(alone), case["order"]]


def shrink(case):
    if case.get("boom"):
        yield dict(case, boom=None)
    for i, c in enumerate(case["worlds"]):
        for x in list(G.shrink_case(c)) + [dict(c, gens=c["gens"][:k] + c["gens"][k + 1:]) for k in range(len(c["gens"]))]:
            w = list(case["worlds"])
            w[i] = dict(x, yieldless=c["yieldless"])
            yield dict(case, worlds=w)
    for k in range(len(case["order"])):
        yield dict(case, order=case["order"][:k] + case["order"][k + 1:])
