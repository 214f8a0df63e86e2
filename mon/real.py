"""
Executes the component scripts of a case with the real salabim and records what can be observed at its public interface.
The log has exactly the same form as that of mon/model.py.
"""
from __future__ import annotations

import contextlib

from mon.model import SUSPENDING, INF, skip_rule
from mon.core import sim


class Budget(Exception):
    pass


def make_cond(cond, s=None, c=None, errors=None):
    kind = cond[0]
    if kind == "v":
        return cond[1]
    op, k = cond[1], cond[2]
    if kind == "$":
        if op == "in":
            return " or ".join("$ == %r" % x for x in k)
        return "$ %s %r" % (op, k)
    f = {
        "==": lambda x, component, state: x == k,
        "!=": lambda x, component, state: x != k,
        ">": lambda x, component, state: x > k,
        "<=": lambda x, component, state: x <= k,
        "in": lambda x, component, state: x in k,
    }[op]

    def checked(x, component, state):
        if component is not c or state is not s or x != s():
            errors.append(("condition of", c.name(), "on", s.name(), s(), "is called for", component.name(), state.name(), x))
        return f(x, component, state)
    return checked


def make_filter(flt):
    if flt is None:
        return lambda c: True
    kind, k = flt
    if kind == "mod":
        return lambda c: c.attr % k[0] == k[1]
    if kind == "ge":
        return lambda c: c.attr >= k
    return lambda c: False


def make_key(key):
    if key == "attr":
        return lambda c: c.attr
    return lambda c: -c.attr


def nm(x):
    return None if x is None else x.name()


class _Base(sim.Component):
    def setup(self, rw, script):
        self.rw = rw
        self.script = script
        self.pc = 0
        self.incarnation = 0 if self.isdata() else 1
        self.pending_op = None
        self.disturbed = False


class CompYieldless(_Base):
    def process(self):
        rw = self.rw
        rw.note("start", self, self.incarnation)
        while self.pc < len(self.script):
            op = self.script[self.pc]
            self.pc += 1
            if op[0] == "end":
                return
            rw.execute(self, op)


class CompYield(_Base):
    def process(self):
        rw = self.rw
        rw.note("start", self, self.incarnation)
        while self.pc < len(self.script):
            op = self.script[self.pc]
            self.pc += 1
            if op[0] == "end":
                return
            if rw.execute(self, op):
                value = yield
                rw.after(self, op, value)


class RealWorld:
    def __init__(self, case, yieldless=True, env_kwargs=None, max_ops=20000, full=True):
        self.case = case
        self.yieldless = yieldless
        self.max_ops = max_ops
        self.full = full
        self.log = []
        self.nop = 0
        self.comps = []
        self.items = []
        self.errors = []  # online monitor findings (not covered by the log)
        self.env = sim.Environment(yieldless=yieldless, **(env_kwargs or {}))
        env = self.env
        self.cls = CompYieldless if yieldless else CompYield
        self.resources = [
            sim.Resource("r%d" % i, capacity=s.get("cap", 1), anonymous=s.get("anon", False), preemptive=s.get("pre", False),
                         honor_only_first=s.get("first", False), honor_only_highest_priority=s.get("highest", False),
                         initial_claimed_quantity=s.get("init", 0), env=env)
            for i, s in enumerate(case.get("resources", []))]
        self.states = [sim.State("s%d" % i, value=v, env=env) for i, v in enumerate(case.get("states", []))]
        self.stores = [sim.Store("st%d" % i, capacity=s.get("cap", INF), env=env) for i, s in enumerate(case.get("stores", []))]
        self.queues = [sim.Queue("q%d" % i, capacity=s.get("cap", INF), env=env) for i, s in enumerate(case.get("queues", []))]
        for spec in case["comps"]:
            if not spec.get("late"):
                self.create(spec)

    def create(self, spec):
        kw = {}
        if spec.get("data"):
            kw["process"] = ""
        else:
            if "delay" in spec:
                if spec.get("use_at"):
                    kw["at"] = self.env.now() + spec["delay"]
                    if "extra" in spec:
                        kw["at"] -= spec["extra"]
                        kw["delay"] = spec["extra"]
                else:
                    kw["delay"] = spec["delay"]
            if "p" in spec:
                kw["priority"] = spec["p"]
            if "u" in spec:
                kw["urgent"] = spec["u"]
        if spec.get("mode"):
            kw["mode"] = spec["mode"]
        if "cap" in spec:
            kw["cap_now"] = True
        c = self.cls(name="c%d" % len(self.comps), skip_standby=spec.get("skip_standby", False), env=self.env, rw=self, script=spec["script"], **kw)
        self.comps.append(c)
        return c

    # ---------------------------------------------------------------- operations
    def target(self, who, idx):
        return who if idx == -1 else (self.env.main() if idx == -2 else self.comps[idx])

    def skip(self, who, op):
        name, ti = op[0], op[1]
        if name in ("hold", "passivate", "interrupt", "resume", "cancel", "standby", "activate", "remaining", "request", "get", "put", "wait",
                    "from_store", "to_store", "release", "set_mode", "skipsb"):
            if ti >= 0 and ti >= len(self.comps):
                return True
            c = self.target(who, ti)
            if name == "request" and any(self.resources[ri].ispreemptive() and c.claimed_quantity(self.resources[ri]) > 0 for ri, _, _ in op[2]["rs"]):
                return True
            return skip_rule(name, ti, c.status(), op[2], c is who)
        return False

    def execute(self, c, op):
        self.nop += 1
        if self.nop > self.max_ops:
            raise Budget()
        main = c is self.env.main()
        if self.skip(c, op):
            self.note("skip", c, 0 if main else c.pc)
            return False
        self.note("op", c, 0 if main else c.pc)
        susp = False
        if op[0] in SUSPENDING:
            t = self.target(c, op[1])
            susp = t is c and not main
            if t is not c and hasattr(t, "disturbed"):
                t.disturbed = True
        elif op[0] in ("interrupt", "resume", "remaining"):
            self.target(c, op[1]).disturbed = True
        if susp:
            c.disturbed = False
            c.pending_op = op
        try:
            res = getattr(self, "op_" + op[0])(c, op[1], op[2])
        except Budget:
            raise
        except Exception as e:
            self.note("exc", c, type(e).__name__)
            self.snap()
            return False
        if susp:
            if self.yieldless:
                self.after(c, op, res)
            return True
        self.note("ret", c, None if op[0] in SUSPENDING else res)
        self.snap()
        return False

    def after(self, c, op, value):
        res = None
        if op[0] == "from_store":
            res = nm(c.from_store_item())
            v = nm(value)
            if v != res and not (v is None and c.disturbed):
                self.errors.append(("from_store returned", v, "but from_store_item() is", res, "in", c.name(), "at", self.env.now()))
        self.note("cont", c, res)
        self.snap()

    def val(self, kw, v):
        """a time or duration can also be given as a function or a distribution"""
        form = kw.get("form", 0)
        return v if form == 0 else (lambda: v) if form == 1 else sim.Constant(v, env=self.env)

    def fail_kw(self, kw):
        d = {}
        if kw.get("fd") is not None:
            if kw.get("use_at"):
                d["fail_at"] = self.val(kw, self.env.now() + kw["fd"])
            else:
                d["fail_delay"] = self.val(kw, kw["fd"])
        return d

    def sched_kw(self, kw):
        d = {}
        if "p" in kw:
            d["priority"] = kw["p"]
        if "u" in kw:
            d["urgent"] = kw["u"]
        return d

    def mode_kw(self, kw):
        return {} if kw.get("mode") is None else {"mode": kw["mode"]}

    def capped(self, who, ti, kw, a):
        """times in the past are allowed by cap_now, or the cap_now context manager"""
        if kw.get("cap") == 2 and self.target(who, ti) is not who:
            return sim.cap_now()
        if kw.get("cap") is not None:
            a["cap_now"] = bool(kw["cap"])
        return contextlib.nullcontext()

    def op_hold(self, who, ti, kw):
        a = dict(self.sched_kw(kw), **self.mode_kw(kw))
        if kw.get("d") is not None:
            if kw.get("use_at"):
                a["till"] = self.val(kw, self.env.now() + kw["d"])
            else:
                a["duration"] = self.val(kw, kw["d"])
        if kw.get("intr"):
            a["interrupted"] = kw["intr"]
        with self.capped(who, ti, kw, a):
            return self.target(who, ti).hold(**a)

    def op_activate(self, who, ti, kw):
        c = self.target(who, ti)
        a = dict(self.sched_kw(kw), **self.mode_kw(kw))
        if kw.get("d") is not None:
            if kw.get("use_at"):
                a["at"] = self.env.now() + kw["d"]
                if "extra" in kw:
                    a["at"] -= kw["extra"]
                    a["delay"] = self.val(kw, kw["extra"])
                a["at"] = self.val(kw, a["at"])
            else:
                a["delay"] = self.val(kw, kw["d"])
        if kw.get("newp"):
            a["process"] = "process"
        if kw.get("keep"):
            if kw["keep"] != "wait":
                a["keep_request"] = True
            if kw["keep"] != "request":
                a["keep_wait"] = True
        if kw.get("newp") or c.isdata():
            c.incarnation += 1
        with self.capped(who, ti, kw, a):
            return c.activate(**a)

    def op_passivate(self, who, ti, kw):
        return self.target(who, ti).passivate(**self.mode_kw(kw))

    def op_interrupt(self, who, ti, kw):
        return self.target(who, ti).interrupt(**self.mode_kw(kw))

    def op_resume(self, who, ti, kw):
        a = dict(self.sched_kw(kw), **self.mode_kw(kw))
        if kw.get("all"):
            a["all"] = True
        return self.target(who, ti).resume(**a)

    def op_cancel(self, who, ti, kw):
        return self.target(who, ti).cancel(**self.mode_kw(kw))

    def op_standby(self, who, ti, kw):
        return self.target(who, ti).standby(**self.mode_kw(kw))

    def op_remaining(self, who, ti, kw):
        self.target(who, ti).remaining_duration(kw["v"], **self.sched_kw(kw))

    def op_set_mode(self, who, ti, kw):
        self.target(who, ti).set_mode(kw["mode"])

    def op_skipsb(self, who, ti, kw):
        c = self.target(who, ti)
        c.skip_standby(kw["v"])
        return c.skip_standby()

    def rspec(self, kw):
        out = []
        default = kw.get("rp", 0)
        for ri, q, prio in kw["rs"]:
            r = self.resources[ri]
            if prio == default and q == 1 and not kw.get("long"):
                out.append(r)
            elif prio == default and not kw.get("long"):
                out.append((r, q))
            else:
                out.append((r, q, prio))
        return out

    def op_request(self, who, ti, kw, meth="request"):
        a = dict(self.sched_kw(kw), **self.mode_kw(kw))
        a.update(self.fail_kw(kw))
        if kw.get("oneof"):
            a["oneof"] = True
        if "rp" in kw:
            a["request_priority"] = kw["rp"]
        t = self.target(who, ti)
        for spec in kw["rs"]:
            if self.resources[spec[0]].ispreemptive():  # a bumped component is activated
                for claimer in self.resources[spec[0]].claimers():
                    if claimer is not t:
                        claimer.disturbed = True
        with self.capped(who, ti, kw, a):
            return getattr(t, meth)(*self.rspec(kw), **a)

    def op_get(self, who, ti, kw):
        return self.op_request(who, ti, kw, "get")

    def op_put(self, who, ti, kw):
        return self.op_request(who, ti, kw, "put")

    def op_release(self, who, ti, kw):
        c = self.target(who, ti)
        if kw.get("rs") is None:
            return c.release()
        return c.release(*[self.resources[ri] if q is None else (self.resources[ri], q) for ri, q in kw["rs"]])

    def op_rrelease(self, who, ri, kw):
        if kw.get("q") is None:
            return self.resources[ri].release()
        return self.resources[ri].release(kw["q"])

    def op_rcap(self, who, ri, kw):
        if kw.get("via_value"):
            self.resources[ri].capacity.value = kw["cap"]
        else:
            self.resources[ri].set_capacity(kw["cap"])

    def op_wait(self, who, ti, kw):
        a = dict(self.sched_kw(kw), **self.mode_kw(kw))
        a.update(self.fail_kw(kw))
        if kw.get("all"):
            a["all"] = True
        args = []
        c = self.target(who, ti)
        default = kw.get("rp", 0)
        if "rp" in kw:
            a["request_priority"] = default
        if kw.get("for"):
            a.pop("all", None)
            conds = [(self.states[si], make_cond(cond, self.states[si], c, self.errors)) for si, cond, prio in kw["ss"]]

            def cond():
                oks = [eval(f.replace("$", "s()")) if isinstance(f, str) and "$" in f else (f(s(), c, s) if callable(f) else s() == f) for s, f in conds]
                return all(oks) if kw.get("all") else any(oks)
            with self.capped(who, ti, kw, a):
                return c.wait_for(cond, [s for s, f in conds], **a)
        for si, cond, prio in kw["ss"]:
            s = self.states[si]
            f = make_cond(cond, s, c, self.errors)
            if prio == default:
                args.append(s if cond == ["v", True] else (s, f))
            else:
                args.append((s, f, prio))
        with self.capped(who, ti, kw, a):
            return c.wait(*args, **a)

    def op_set(self, who, si, kw):
        if kw.get("via_value"):
            self.states[si].value.value = kw["v"]
        elif kw["v"] is True:
            self.states[si].set()
        else:
            self.states[si].set(kw["v"])

    def op_reset(self, who, si, kw):
        if kw["v"] is False:
            self.states[si].reset()
        else:
            self.states[si].reset(kw["v"])

    def op_trigger(self, who, si, kw):
        a = {}
        if kw.get("after") is not None:
            a["value_after"] = kw["after"]
        if kw.get("max") is not None:
            a["max"] = kw["max"]
        if kw["v"] is not True:
            a["value"] = kw["v"]
        self.states[si].trigger(**a)

    def store_kw(self, kw):
        a = self.mode_kw(kw)
        a.update(self.fail_kw(kw))
        if "p" in kw:
            a["fail_priority"] = kw["p"]
        if "u" in kw:
            a["urgent"] = kw["u"]
        if "rp" in kw:
            a["request_priority"] = kw["rp"]
        return a

    def op_from_store(self, who, ti, kw):
        a = self.store_kw(kw)
        if kw.get("flt") is not None:
            a["filter"] = make_filter(kw["flt"])
        if kw.get("key"):
            a["key"] = make_key(kw["key"])
        st = [self.stores[si] for si in kw["st"]]
        with self.capped(who, ti, kw, a):
            return self.target(who, ti).from_store(st[0] if len(st) == 1 else st, **a)

    def new_item(self, attr):
        it = sim.Component("it%d" % len(self.items), process="", env=self.env)
        it.attr = attr
        self.items.append(it)
        return it

    def op_to_store(self, who, ti, kw):
        it = self.new_item(kw["attr"])
        a = self.store_kw(kw)
        if "prio" in kw:
            a["priority"] = kw["prio"]
        st = [self.stores[si] for si in kw["st"]]
        with self.capped(who, ti, kw, a):
            return self.target(who, ti).to_store(st[0] if len(st) == 1 else st, it, **a)

    def op_item_enter(self, who, si, kw):
        it = self.new_item(kw["attr"])
        if kw.get("prio") is None:
            it.enter(self.stores[si])
        else:
            it.enter_sorted(self.stores[si], kw["prio"])

    def op_item_leave(self, who, si, kw):
        s = self.stores[si]
        if len(s) == 0:
            return None
        it = s[kw["i"] % len(s)]
        it.leave(s)
        return it.name()

    def op_scap(self, who, si, kw):
        if kw.get("via_value"):
            self.stores[si].capacity.value = kw["cap"]
        else:
            self.stores[si].set_capacity(kw["cap"])

    def op_set_attr(self, who, si, kw):
        s = self.stores[si]
        if len(s):
            s[kw["i"] % len(s)].attr = kw["attr"]
        s.rescan()

    def op_rescan(self, who, si, kw):
        self.stores[si].rescan()

    def op_refilter(self, who, ti, kw):
        if ti >= len(self.comps):
            return
        c = self.comps[ti]
        if not any(c in s.from_store_requesters() for s in self.stores):
            return
        c.filter(make_filter(kw["flt"]))

    def op_enter(self, who, qi, kw):
        c = self.target(who, kw["c"])
        if kw.get("p") is None:
            c.enter(self.queues[qi])
        else:
            c.enter_sorted(self.queues[qi], kw["p"])

    def op_leave(self, who, qi, kw):
        self.target(who, kw["c"]).leave(self.queues[qi])

    def op_qprio(self, who, qi, kw):
        self.target(who, kw["c"]).priority(self.queues[qi], kw["p"])

    def op_qpop(self, who, qi, kw):
        return nm(self.queues[qi].pop())

    def op_create(self, who, ti, kw):
        return self.create(kw["spec"]).name()

    def op_stop(self, who, ti, kw):
        m = self.env.main()
        if m.status() == "current":
            return
        m.activate(**self.sched_kw(kw))

    def op_nop(self, who, ti, kw):
        return None

    def op_reset_now(self, who, ti, kw):
        self.env.reset_now(kw["t"])

    # ---------------------------------------------------------------- run
    def run(self, kw):
        a = self.sched_kw(kw)
        if kw.get("d") is not None:
            if kw.get("use_at"):
                a["till"] = self.val(kw, self.env.now() + kw["d"])
            else:
                a["duration"] = self.val(kw, kw["d"])
        self.env.run(**a)
        self.note("runend", self.env.main(), None)
        self.snap()

    def simulate(self):
        self.snap()
        for op in self.case["main"]:
            if op[0] == "run":
                self.run(op[2])
            else:
                self.execute(self.env.main(), op)
        return self.log

    # ---------------------------------------------------------------- observation
    def note(self, what, c, arg):
        self.log.append((what, self.env.now(), c.name(), arg, c.failed()))

    def snap_comp(self, c):
        st = c.status()
        flags = (c.isdata(), c.iscurrent(), c.isscheduled(), c.ispassive(), c.isrequesting(), c.iswaiting(), c.isstandby(), c.isinterrupted())
        if flags != tuple(st == x for x in ("data", "current", "scheduled", "passive", "requesting", "waiting", "standby", "interrupted")):
            self.errors.append(("status flags", flags, "for status", st, c.name(), self.env.now()))
        intr = st == "interrupted"
        return (c.name(), st, c.scheduled_time(), c.scheduled_priority(), c.remaining_duration(),
                c.interrupt_level(), c.interrupted_status() if intr else None, c.mode(), c.mode_time(), c.failed())

    def snap(self):
        self.log.append(("snap", self.env.peek(), self.env.current_component().name()) + tuple(self.snap_comp(c) for c in self.comps))
        if self.resources:
            self.log.append(("res",) + tuple(
                (r.name(), r.claimed_quantity(), r.available_quantity(), r.capacity(), r.occupancy(),
                 tuple((c.name(), c.priority(r.requesters()), c.requested_quantity(r)) for c in r.requesters()),
                 tuple((c.name(), c.priority(r.claimers()), c.claimed_quantity(r)) for c in r.claimers()))
                for r in self.resources) + tuple(tuple(r.name() for r in c.claimed_resources()) for c in self.comps))
        if self.states:
            self.log.append(("sta",) + tuple((s.name(), s(), tuple((c.name(), c.priority(s.waiters())) for c in s.waiters())) for s in self.states))
        if self.stores:
            self.log.append(("sto",) + tuple(
                (s.name(), s.capacity(), s.available_quantity(), tuple((i.name(), i.priority(s)) for i in s),
                 tuple((c.name(), c.priority(s.from_store_requesters())) for c in s.from_store_requesters()),
                 tuple((c.name(), c.priority(s.to_store_requesters())) for c in s.to_store_requesters()))
                for s in self.stores)
                + tuple((nm(c.from_store_item()), nm(c.from_store_store()), nm(c.to_store_store())) for c in self.comps))
        if self.queues:
            self.log.append(("que",) + tuple((q.name(), q.capacity(), tuple((c.name(), c.priority(q), c.enter_time(q)) for c in q)) for q in self.queues))
