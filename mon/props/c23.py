"""C23: rejected operations raise and leave everything unchanged"""
from mon import gen as G
from mon.core import Violation, digest, sim
from mon.kernel import diff, count
from mon.real import RealWorld, nm

ID = "C23"
RULE = ("random models with all kinds of process interaction in which components and main attempt operations that must be rejected (see the observed counters for the kinds), in whatever "
        "state the model is in; each attempt has to raise, complete snapshots (statuses, scheduled times, modes, queue contents, claims, values, stores, peek, all monitors) before and after "
        "have to be equal, and the complete run has to be equal to that of the same model without the attempts")
CASES = {"quick": 6000, "thorough": 40000}
ASSUMPTIONS = ["fail_at/fail_delay in the past is not attempted (known finding)", "names are given, as the name counter of a rejected object may be consumed"]

BASE = dict(hold=8, passivate=1, standby=0.6, cancel=0.2, oactivate=1.5, ohold=0.5, opassivate=0.4, ocancel=0.3, interrupt=1.2, resume=0.7, remaining=0.3, end=0.3, create=0.3)
OPT = {
    "resources": dict(request=5, release=2.5, rcap=0.3),
    "states": dict(wait=4, set=3, trigger=0.5),
    "stores": dict(from_store=4, to_store=4, item_leave=0.5),
    "queues": dict(enter=4, leave=1.5, qpop=0.5),
}

PROC_KINDS = ["interrupt", "resume", "hold_past", "hold_both", "activate_past", "activate_noproc", "activate_kwarg", "activate_dataproc", "ondata", "onmain", "remaining_cur", "remaining_neg",
              "interrupted_status", "create_noproc", "create_data_at", "create_past", "run_bad"]
KINDS = {
    "queues": ["twice", "twice", "full", "full", "leave", "rel", "rel", "access", "index", "pop", "insert", "create_q"],
    "resources": ["release", "release", "release_multi", "rrelease", "req_spec", "req_neg", "req_both", "req_pre", "release_spec", "create_r"],
    "states": ["wait_none", "wait_spec", "wait_spec", "wait_both", "wait_for_none"],
    "stores": ["st_dup", "st_none", "st_both", "st_full"],
}
MON_KINDS = ["mon_weight", "mon_frozen", "mon_multiply", "mon_slice", "mon_merge", "mon_register", "mon_create", "dist_create"]
REQUIRED = ["rejected_" + k for ks in KINDS.values() for k in ks] + ["rejected_" + k for k in PROC_KINDS + MON_KINDS] + ["continuations_compared", "monitors_compared"]


def gen(rng, index, tier):
    prof = dict(comps=(2, 6), len=(4, 14), fail=0.3, mode=0.1, ops=dict(BASE), mainops=dict(oactivate=1, create=0.3, ohold=0.3), res_kinds=dict(plain=4, first=1, highest=1, pre=1, anon=1))
    kinds = rng.sample(sorted(OPT), rng.choice([1, 1, 2, 3, 4]))
    for k in kinds:
        prof[k] = (1, 3)
        prof["ops"].update(OPT[k])
    if "resources" in kinds:
        x = rng.random()
        if x < 0.3:
            prof["res_kinds"] = dict(anon=1)
            prof["ops"].update(get=4, put=4)
        elif x < 0.5:
            prof["res_kinds"] = dict(pre=2)
        else:
            prof["res_kinds"] = dict(plain=4, first=1, highest=1)
    case = G.build(rng, prof)
    pool = list(PROC_KINDS) + MON_KINDS
    for k in kinds:
        pool += KINDS[k] * 3

    def bad():
        return ["bad", -9, {"k": rng.choice(pool), "i": [rng.randrange(1000) for _ in range(4)]}]

    def mix(script):
        out = []
        for op in script:
            while rng.random() < 0.5:
                out.append(bad())
            out.append(op)
        return out

    for spec in case["comps"]:
        spec["script"] = mix(spec["script"])
    case["main"] = mix(case["main"])
    case["yieldless"] = rng.random() < 0.5
    case["animate"] = False
    return case


DUCK = ("req_spec", "release_spec", "wait_spec", "mon_register", "mon_merge", "mon_multiply", "create_q", "dist_create")  # arguments of a wrong type


def fail_past():
    """a request with a fail time in the past that cannot be honored raises, but the component stays in the requesters"""
    env = sim.Environment(yieldless=False)
    r = sim.Resource("r", 0, env=env)

    class X(sim.Component):
        def process(self):
            try:
                yield self.request(r, fail_delay=-1)
            except ValueError:
                pass

    X(env=env)
    env.run(1)
    return len(r.requesters()) > 0


KNOWN = {"fail-time-in-the-past": fail_past}


class NoProcess(sim.Component):
    pass


class World(RealWorld):
    def __init__(self, case, obs, armed, **kw):
        super().__init__(case, **kw)
        self.obs = obs
        self.armed = armed
        self.violations = []
        self.level = sim.Monitor("level", level=True, env=self.env, type="float")
        self.plain = sim.Monitor("plain", env=self.env)
        self.text = sim.Monitor("text", env=self.env, type="any")
        self.spare = NoProcess("spare", env=self.env)
        self.frozen = self.plain.freeze(name="frozen")
        self.registry = []
        self.plain.register(self.registry)

    def bad(self, text):
        self.violations.append(text)

    def op_bad(self, who, _, kw):
        self.level.tally(self.nop % 5)
        self.plain.tally(self.nop % 7)
        if not self.armed:
            return None
        k, i = kw["k"], kw["i"]
        att = getattr(self, "b_" + k)(who, *i)
        if att is None:
            return None
        what, fn = att
        before = self.full_snap()
        try:
            if sum(i) % 5 == 0:
                with sim.cap_now(not (k.endswith(("past", "_neg")) or k == "run_bad")):
                    res = fn()
            else:
                res = fn()
        except Exception as e:
            exc = e
        else:
            self.bad("not rejected: %s by %s at %s returned %r" % (what, who.name(), self.env.now(), res))
            return None
        after = self.full_snap()
        if before != after:
            for a, b in zip(before, after):
                if a != b:
                    break
            else:
                a, b = len(before), len(after)
            self.bad("rejected but not without effect: %s by %s at %s (%s: %s)\nbefore %s\nafter  %s" % (what, who.name(), self.env.now(), type(exc).__name__, exc, a, b))
        if isinstance(exc, (NameError, RecursionError, MemoryError)) or (isinstance(exc, AttributeError) and "object has no attribute" in str(exc) and k not in DUCK):
            self.bad("%s: %s: %s" % (what, type(exc).__name__, exc))
        if k == "full" and not isinstance(exc, sim.QueueFullError):
            self.bad("%s raised %s instead of QueueFullError" % (what, type(exc).__name__))
        self.obs("rejected_" + k)
        return None

    # ------------------------------------------------------------- everything that can be observed
    def full_snap(self):
        n = len(self.log)
        self.snap()
        out = [x for e in self.log[n:] for x in ((e[0], y) for y in e[1:])]
        del self.log[n:]
        out.append(("main", self.snap_comp(self.env.main()), self.env.now()))
        mons = [self.level, self.plain, self.frozen]
        for r in self.resources:
            mons += [r.claimed_quantity, r.available_quantity, r.occupancy, r.capacity, r.requesters().length, r.requesters().length_of_stay, r.claimers().length, r.claimers().length_of_stay]
        for s in self.states:
            mons += [s.value, s.waiters().length, s.waiters().length_of_stay]
        for s in self.stores:
            mons += [s.from_store_requesters().length, s.from_store_requesters().length_of_stay, s.to_store_requesters().length, s.to_store_requesters().length_of_stay]
        for q in self.queues + self.stores:
            mons += [q.length, q.length_of_stay, q.capacity, q.available_quantity]
            out.append((q.name(), q.number_of_arrivals, q.number_of_departures, [nm(c) for c in q], [nm(c) for c in reversed(q)], nm(q.head()), nm(q.tail())))
        for c in self.comps:
            mons += [c.status, c.mode]
        for m in mons:
            out.append((m.name(), m.xt()))
        self.obs("monitors_compared", len(mons))
        for c in self.comps + self.items + [self.spare]:
            out.append((c.name(), sorted((q.name(), nm(c.predecessor(q)), nm(c.successor(q)), c.index(q), c.priority(q), c.enter_time(q)) for q in c.queues())))
        out.append(("default_cap_now", sim.default_cap_now()))
        out.append(("registry", [m.name() for m in self.registry]))
        return out

    # ------------------------------------------------------------- attempts: (text, callable) or None if not possible now
    def anyc(self, i):
        return self.comps[i % len(self.comps)]

    def enters(self, c, q, i, j):
        """some way to enter c into q"""
        x = list(q)
        ways = [("enter", lambda: c.enter(q)), ("enter_sorted", lambda: c.enter_sorted(q, j % 4)), ("enter_at_head", lambda: c.enter_at_head(q)),
                ("add", lambda: q.add(c)), ("append", lambda: q.append(c)), ("add_at_head", lambda: q.add_at_head(c)), ("add_sorted", lambda: q.add_sorted(c, j % 3)),
                ("insert", lambda: q.insert(j % (len(x) + 1), c)), ("enter with priority", lambda: c.enter(q, j % 4))]
        if x:
            y = x[j % len(x)]
            ways += [("enter_in_front_of", lambda: c.enter_in_front_of(q, y)), ("enter_behind", lambda: c.enter_behind(q, y)),
                     ("add_in_front_of", lambda: q.add_in_front_of(c, y)), ("add_behind", lambda: q.add_behind(c, y))]
        n, f = ways[i % len(ways)]
        return "%s of %s in %s" % (n, c.name(), q.name()), f

    def allq(self):
        return self.queues + self.stores

    def b_twice(self, who, i, j, k, l):
        qs = [q for q in self.allq() if len(q)]
        if not qs:
            return
        q = qs[i % len(qs)]
        return self.enters(q[j % len(q)], q, k, l)

    def b_full(self, who, i, j, k, l):
        qs = [q for q in self.allq() if len(q) >= q.capacity()]
        if not qs:
            return
        q = qs[i % len(qs)]
        cs = [c for c in self.comps + [self.spare] if c not in q]
        return self.enters(cs[j % len(cs)], q, k, l)

    b_st_full = b_full

    def b_leave(self, who, i, j, k, l):
        q = self.allq()[i % len(self.allq())]
        cs = [c for c in self.comps + [self.spare] + self.items if c not in q]
        c = cs[j % len(cs)]
        return "leave of non member " + c.name(), [lambda: c.leave(q), lambda: q.remove(c)][k % 2]

    def b_rel(self, who, i, j, k, l):
        q = self.queues[i % len(self.queues)]
        cs = [c for c in self.comps + [self.spare] if c not in q]
        if len(cs) < 2 or len(q) >= q.capacity():
            return
        c = cs[j % len(cs)]
        y = cs[(j + 1) % len(cs)]
        return "position relative to non member " + y.name(), [lambda: c.enter_in_front_of(q, y), lambda: c.enter_behind(q, y), lambda: q.add_in_front_of(c, y), lambda: q.add_behind(c, y)][k % 4]

    def b_access(self, who, i, j, k, l):
        q = self.queues[i % len(self.queues)]
        cs = [c for c in self.comps + [self.spare] if c not in q]
        c = cs[j % len(cs)]
        ways = [("priority", lambda: c.priority(q)), ("set priority", lambda: c.priority(q, 3)), ("successor", lambda: c.successor(q)), ("predecessor", lambda: c.predecessor(q)),
                ("enter_time", lambda: c.enter_time(q)), ("q.successor", lambda: q.successor(c)), ("q.predecessor", lambda: q.predecessor(c))]
        n, f = ways[k % len(ways)]
        return n + " of non member " + c.name(), f

    def b_index(self, who, i, j, k, l):
        q = self.allq()[i % len(self.allq())]
        n = len(q)

        def dele(x):
            del q[x]

        return "index out of range", [lambda: q[n + j % 3], lambda: q[-n - 1 - j % 3], lambda: dele(n + j % 3), lambda: dele(-n - 1 - j % 3), lambda: q["a"]][k % 5]

    def b_pop(self, who, i, j, k, l):
        q = self.allq()[i % len(self.allq())]
        n = len(q)
        return "pop out of range", [lambda: q.pop(n + j % 3), lambda: q.pop(-n - 1 - j % 3)][k % 2]

    def b_insert(self, who, i, j, k, l):
        q = self.queues[i % len(self.queues)]
        cs = [c for c in self.comps + [self.spare] if c not in q]
        c = cs[j % len(cs)]
        n = len(q)
        return "insert out of range", [lambda: q.insert(n + 1 + k % 3, c), lambda: q.insert(-n - 1 - k % 3, c)][l % 2]

    def b_create_q(self, who, i, j, k, l):
        q = self.queues[i % len(self.queues)]
        reg = []
        q.register(reg)
        return "queue errors", [lambda: q.register(reg), lambda: q.register(5), lambda: self.queues[0].deregister([]), lambda: q + 5][k % 4]

    def b_release(self, who, i, j, k, l):
        r = self.resources[i % len(self.resources)]
        cs = [c for c in self.comps if not c.isclaiming(r)]
        if not cs:
            return
        c = cs[j % len(cs)]
        return "release of not claimed " + r.name(), [lambda: c.release(r), lambda: c.release((r, 1))][k % 2]

    def b_release_multi(self, who, i, j, k, l):
        for c in self.comps[i % len(self.comps):] + self.comps[:i % len(self.comps)]:
            has = c.claimed_resources()
            hasnot = [r for r in self.resources if r not in has]
            if has and hasnot:
                return "release of claimed and not claimed", lambda: c.release(*(list(has) + [hasnot[j % len(hasnot)]]))
        r = self.resources[i % len(self.resources)]
        c = self.anyc(j)
        if not c.isclaiming(r):
            return "release of not claimed", lambda: c.release(r, r)

    def b_rrelease(self, who, i, j, k, l):
        rs = [r for r in self.resources if not r.isanonymous()] if hasattr(sim.Resource, "isanonymous") else [r for r, s in zip(self.resources, self.case["resources"]) if not s.get("anon")]
        if rs:
            r = rs[i % len(rs)]
            return "release(quantity) of non anonymous", lambda: r.release(1)
        r = self.resources[i % len(self.resources)]
        c = self.anyc(j)
        return "component release of anonymous", lambda: c.release(r)

    def tgt(self, i):
        """an arbitrary component (also the current one)"""
        return self.anyc(i)

    def b_release_spec(self, who, i, j, k, l):
        c = self.anyc(i)
        has = c.claimed_resources()
        return "release with wrong specifier", lambda: c.release(*(list(has) + [["r0"], [17]][k % 2]))

    def b_req_spec(self, who, i, j, k, l):
        c = self.tgt(i)
        r = self.resources[j % len(self.resources)]
        x = ["r0", 17, None, {}][k % 4]
        a = [(x,), (r, x), (x, r)][l % 3]
        return "request with wrong specifier", lambda: c.request(*a, mode="bad", oneof=i % 2 == 0)

    def b_req_neg(self, who, i, j, k, l):
        c = self.tgt(i)
        r = self.resources[j % len(self.resources)]
        rs = [x for x, s in zip(self.resources, self.case["resources"]) if not s.get("anon")]
        if not rs:
            return
        n = rs[k % len(rs)]
        a = [((n, -1),), (r, (n, -1)), ((n, -0.5, 2),)][l % 3]
        if l % 5 == 4:
            return "put in non anonymous", lambda: c.put((n, 1), mode="bad")
        return "request with negative quantity", lambda: c.request(*a, mode="bad")

    def b_req_both(self, who, i, j, k, l):
        c = self.tgt(i)
        r = self.resources[j % len(self.resources)]
        m = [c.request, c.get][k % 2]
        t = self.env.now() + 1
        return "request with fail_at and fail_delay", lambda: m((r, 1 + l % 2), fail_at=t, fail_delay=1, mode="bad", oneof=l % 3 == 0)

    def b_req_pre(self, who, i, j, k, l):
        pre = [r for r, s in zip(self.resources, self.case["resources"]) if s.get("pre")]
        rest = [r for r in self.resources if r not in pre] + pre[1:]
        if not pre or not rest:
            return
        c = self.tgt(i)
        a = [pre[0], rest[j % len(rest)]]
        if k % 2:
            a.reverse()
        return "multiple request with preemptive resource", lambda: c.request(*a, mode="bad")

    def b_create_r(self, who, i, j, k, l):
        return "resource with initial_claimed_quantity", lambda: sim.Resource("bad", 5, initial_claimed_quantity=1 + i % 4, env=self.env)

    def b_wait_none(self, who, i, j, k, l):
        c = self.tgt(i)
        return "wait without states", lambda: c.wait(mode="bad", all=j % 2 == 0)

    def b_wait_for_none(self, who, i, j, k, l):
        c = self.tgt(i)
        return "wait_for without states", lambda: c.wait_for(lambda: True, [], mode="bad")

    def b_wait_spec(self, who, i, j, k, l):
        c = self.tgt(i)
        s = self.states[j % len(self.states)]
        s2 = self.states[(j + 1) % len(self.states)]
        a = [("s0",), (s, "x"), (s, (s2, 1, 2, 3)), ((1, s),), (None,), (s, (None, 1))][k % 6]
        return "wait with wrong specifier", lambda: c.wait(*a, mode="bad", all=l % 2 == 0)

    def b_wait_both(self, who, i, j, k, l):
        c = self.tgt(i)
        s = self.states[j % len(self.states)]
        t = self.env.now() + 1
        if k % 2:
            return "wait_for with fail_at and fail_delay", lambda: c.wait_for(lambda: l % 2 == 0, [s], fail_at=t, fail_delay=1, mode="bad")
        return "wait with fail_at and fail_delay", lambda: c.wait((s, l % 3), fail_at=t, fail_delay=1, mode="bad")

    def st(self, i, c, a, **kw):
        if i % 2:
            return lambda: c.from_store(a, mode="bad", **kw)
        return lambda: c.to_store(a, self.spare, mode="bad", **kw)

    def b_st_dup(self, who, i, j, k, l):
        c = self.tgt(i)
        s = self.stores[j % len(self.stores)]
        return "store specified twice", self.st(k, c, [s, s] if l % 2 else list(self.stores) + [s])

    def b_st_none(self, who, i, j, k, l):
        return "no stores specified", self.st(k, self.tgt(i), [[], ()][l % 2])

    def b_st_both(self, who, i, j, k, l):
        s = self.stores[j % len(self.stores)]
        return "store action with fail_at and fail_delay", self.st(k, self.tgt(i), s, fail_at=self.env.now() + 1, fail_delay=2)

    # process interaction
    def b_interrupt(self, who, i, j, k, l):
        cs = [c for c in self.comps + [self.env.main()] if c.status() not in ("scheduled", "interrupted")]
        if cs:
            c = cs[i % len(cs)]
            return "interrupt of a %s component" % c.status(), lambda: c.interrupt(mode="bad")

    def b_resume(self, who, i, j, k, l):
        cs = [c for c in self.comps if c.status() != "interrupted"]
        if cs:
            c = cs[i % len(cs)]
            return "resume of a %s component" % c.status(), lambda: c.resume(mode="bad", all=j % 2 == 0)

    def b_interrupted_status(self, who, i, j, k, l):
        cs = [c for c in self.comps if c.status() != "interrupted"]
        if cs:
            c = cs[i % len(cs)]
            return "interrupted_status of a %s component" % c.status(), lambda: c.interrupted_status()

    def b_hold_past(self, who, i, j, k, l):
        c = self.tgt(i)
        t = [0.25, 1, 5][j % 3]
        if k % 2:
            return "hold of a %s component till the past" % c.status(), lambda: c.hold(till=self.env.now() - t, mode="bad", interrupted=l % 3 == 0)
        return "hold of a %s component for a negative duration" % c.status(), lambda: c.hold(-t, mode="bad")

    def b_hold_both(self, who, i, j, k, l):
        c = self.tgt(i)
        return "hold of a %s component with duration and till" % c.status(), lambda: c.hold(1, till=self.env.now() + 1, mode="bad")

    def b_activate_past(self, who, i, j, k, l):
        c = self.tgt(i)
        t = [0.25, 1, 5][j % 3]
        kw = {}
        if l % 3 == 0:
            kw["process"] = "process"
        if l % 5 == 0:
            kw["keep_request"] = True
        if k % 2:
            return "activate of a %s component in the past" % c.status(), lambda: c.activate(at=self.env.now() - t, mode="bad", **kw)
        return "activate of a %s component with a negative delay" % c.status(), lambda: c.activate(delay=-t, mode="bad", **kw)

    def b_activate_noproc(self, who, i, j, k, l):
        c = self.tgt(i)
        return "activate of a %s component with unknown process" % c.status(), lambda: c.activate(process="nonexistent", mode="bad", delay=j % 3)

    def b_activate_kwarg(self, who, i, j, k, l):
        c = self.tgt(i)
        return "activate of a %s component with unknown process parameter" % c.status(), lambda: c.activate(process="process", mode="bad", delay=j % 3, nonexistent=1)

    def b_activate_dataproc(self, who, i, j, k, l):
        return "activate of a data component without process", lambda: self.spare.activate(delay=j % 3, mode="bad")

    def b_ondata(self, who, i, j, k, l):
        cs = [c for c in self.comps if c.isdata()] + [self.spare]
        c = cs[i % len(cs)]
        ways = [c.passivate, c.standby, lambda: c.hold(1), c.interrupt, c.resume]
        if self.resources:
            ways.append(lambda: c.request(self.resources[0], mode="bad"))
        if self.states:
            ways.append(lambda: c.wait(self.states[0], mode="bad"))
        if self.stores:
            ways.append(lambda: c.from_store(self.stores[0], mode="bad"))
            ways.append(lambda: c.to_store(self.stores[0], self.spare, mode="bad"))
        return "operation %d on data component" % (j % len(ways)), ways[j % len(ways)]

    def b_onmain(self, who, i, j, k, l):
        c = self.env.main()
        if c.status() == "current":
            return
        ways = [c.standby]
        if self.resources:
            ways.append(lambda: c.request(self.resources[0], mode="bad"))
        if self.states:
            ways.append(lambda: c.wait(self.states[0], mode="bad"))
        if self.stores:
            ways.append(lambda: c.from_store(self.stores[0], mode="bad"))
            ways.append(lambda: c.to_store(self.stores[0], self.spare, mode="bad"))
        return "operation %d on main" % (j % len(ways)), ways[j % len(ways)]

    def b_remaining_cur(self, who, i, j, k, l):
        cs = [c for c in self.comps if c.status() in ("current", "standby")]
        if cs:
            c = cs[i % len(cs)]
            return "setting remaining_duration of a %s component" % c.status(), lambda: c.remaining_duration(1)

    def b_remaining_neg(self, who, i, j, k, l):
        cs = [c for c in self.comps if c.status() in ("scheduled", "requesting", "waiting")]
        if cs:
            c = cs[i % len(cs)]
            return "negative remaining_duration of a %s component" % c.status(), lambda: c.remaining_duration(-1)

    def b_create_noproc(self, who, i, j, k, l):
        return "creation with unknown process", lambda: NoProcess("bad", process="nonexistent", delay=i % 3, env=self.env)

    def b_create_data_at(self, who, i, j, k, l):
        kw = [{"at": self.env.now() + 1}, {"delay": 1}, {"priority": 1}, {"urgent": True}][i % 4]
        return "creation of a data component with %s" % sorted(kw), lambda: [lambda: NoProcess("bad", env=self.env, **kw), lambda: self.cls("bad", process="", env=self.env, rw=self, script=[], **kw)][j % 2]()

    def b_create_past(self, who, i, j, k, l):
        kw = [{"at": self.env.now() - 1}, {"delay": -1}][i % 2]
        return "creation in the past", lambda: self.cls("bad", env=self.env, rw=self, script=[], **kw)

    def b_run_bad(self, who, i, j, k, l):
        if self.env.main().status() != "current":
            return
        e = self.env
        return "contradicting run", [lambda: e.run(duration=1, till=e.now() + 1), lambda: e.run(till=e.now() - 1), lambda: e.run(duration=-1)][i % 3]

    # monitors
    def b_mon_weight(self, who, i, j, k, l):
        return "level tally with weight", lambda: self.level.tally(5, weight=2 + i % 2)

    def b_mon_frozen(self, who, i, j, k, l):
        m = [self.frozen, self.plain[0:1e9], self.level.freeze()][i % 3]
        return "operation on frozen monitor", [lambda: m.tally(3), m.reset, lambda: m.monitor(True)][j % 3]

    def b_mon_multiply(self, who, i, j, k, l):
        return "monitor arithmetic", [lambda: self.text * 2, lambda: self.plain.t_multiply(2), lambda: self.level.t_multiply(0), lambda: self.plain == 3, lambda: self.level + 5][i % 5]

    def b_mon_slice(self, who, i, j, k, l):
        return "monitor slice", [lambda: self.plain.slice(5, 3, 10), lambda: self.level.slice(modulo=3), lambda: self.plain.slice(1, 5, 3), lambda: self.level.slice(start=1, modulo=3)][i % 4]

    def b_mon_merge(self, who, i, j, k, l):
        other = self.level
        return "monitor merge", [lambda: self.plain.merge(other), lambda: other.merge(self.plain), lambda: self.plain + other, lambda: self.plain.merge(5)][i % 4]

    def b_mon_register(self, who, i, j, k, l):
        return "monitor registration", [lambda: self.plain.register(self.registry), lambda: self.level.deregister(self.registry), lambda: self.plain.register(3)][i % 3]

    def b_mon_create(self, who, i, j, k, l):
        ways = [lambda: sim.Monitor("bad", initial_tally=1, env=self.env), lambda: sim.Monitor("bad", type="nonexistent", env=self.env), lambda: sim.Monitor("bad", level=True, fill=[1], env=self.env),
                lambda: self.plain.get(1), lambda: self.level.number_of_entries(), lambda: self.level.weight(), lambda: self.plain.duration(), lambda: self.plain.xduration(),
                lambda: self.level.xweight(), lambda: self.plain.percentile(50, interpolation="nonexistent")]
        return "monitor call %d" % (i % len(ways)), ways[i % len(ways)]

    def b_dist_create(self, who, i, j, k, l):
        e = self.env
        ways = [lambda: sim.Exponential(env=e), lambda: sim.Exponential(1, rate=2, env=e), lambda: sim.Exponential(0, env=e), lambda: sim.Triangular(5, 3, 4, env=e), lambda: sim.Normal(3, -1, env=e),
                lambda: sim.Normal(3, 1, 1, env=e), lambda: sim.Weibull(1, 0, env=e), lambda: sim.Gamma(0, 1, env=e), lambda: sim.Erlang(0, 1, env=e), lambda: sim.Pdf((), env=e), lambda: sim.Pdf((1, 0), env=e),
                lambda: sim.CumPdf((1, 50, 2, 40), env=e), lambda: sim.Cdf((1, 0, 2), env=e), lambda: sim.Poisson(0, env=e), lambda: sim.Beta(0, 1, env=e), lambda: sim.Distribution("Nonexistent(1)", env=e),
                lambda: sim.IntUniform(5, 3, env=e), lambda: sim.Uniform(randomstream=3, env=e)]
        n = i % len(ways)
        return "distribution %d" % n, ways[n]


def check(case, obs):
    a = World(case, obs, True, yieldless=case["yieldless"])
    a.simulate()
    if a.violations:
        raise Violation(a.violations[0])
    b = World(case, obs, False, yieldless=case["yieldless"])
    b.simulate()
    d = diff(a.log, b.log, "with rejected operations", "without")
    if d:
        raise Violation("continuation: " + d)
    if a.full_snap() != b.full_snap():
        for x, y in zip(a.full_snap(), b.full_snap()):
            if x != y:
                raise Violation("continuation: at the end with rejected operations %s, without %s" % (x, y))
    obs("continuations_compared")
    count(a.log, obs)
    obs.sig = digest(a.log)
    obs.nontrivial = len(a.log) > 20


def shrink(case):
    return G.shrink_case(case)
