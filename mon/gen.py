"""generators of kernel cases (component scripts), driven by a profile of operation weights"""
from __future__ import annotations

import copy

TIMES = [0, 0, 0.25, 0.5, 1, 1, 1, 1.5, 2, 2, 3, 4]
PRIOS = [0, 0, 0, 0, 1, 1, -1, 2, -2, 0.5, float("inf"), -float("inf")]


COMPOPS = {"hold", "passivate", "interrupt", "resume", "cancel", "standby", "activate", "remaining", "request", "get", "put", "wait",
           "from_store", "to_store", "release", "set_mode", "skipsb"}


def pick(rng, weights):
    names = list(weights)
    return rng.choices(names, [weights[n] for n in names])[0]


MODES = ["m0", "m1", "m2", 0, "m4", 7]  # a mode is preferably a str


class Gen:
    def __init__(self, rng, profile):
        self.rng = rng
        self.crowd = rng.random() < 0.015
        if self.crowd:  # many components
            profile = dict(profile, comps=(25, 45), len=(1, 4))
            if rng.random() < 0.7:  # all of them with the same objects
                profile.update({k: (1, 1) for k in ("resources", "states", "stores", "queues") if profile.get(k, (0, 0))[1]})
        self.p = profile
        self.ncomps = rng.randint(*profile.get("comps", (2, 6)))
        self.nmodes = 0
        self.case = {"comps": [], "main": []}
        self.maxcomps = self.ncomps
        self.resources = []
        for _ in range(rng.randint(*profile.get("resources", (0, 0)))):
            self.resources.append(self.res_spec())
        self.states = [rng.choice(profile.get("state_values", [False, 0, "red"])) for _ in range(rng.randint(*profile.get("states", (0, 0))))]
        self.stores = []
        for _ in range(rng.randint(*profile.get("stores", (0, 0)))):
            self.stores.append({"cap": rng.choice([1, 1, 2, 3, 1.5, 2.5])} if rng.random() < 0.7 else {})
        self.queues = []
        for _ in range(rng.randint(*profile.get("queues", (0, 0)))):
            self.queues.append({"cap": rng.choice([1, 2, 3, 2.5])} if rng.random() < 0.3 else {})

    def res_spec(self):
        rng = self.rng
        kind = pick(rng, self.p.get("res_kinds", {"plain": 6, "first": 1, "highest": 1}))
        cap = rng.choice(self.p.get("caps", [1, 1, 2, 3, 4]))
        s = {"cap": cap}
        if kind == "first":
            s["first"] = True
        elif kind == "highest":
            s["highest"] = True
        elif kind == "pre":
            s["pre"] = True
        elif kind.startswith("anon"):
            s["anon"] = True
            if not self.p.get("dec"):
                s["cap"] = cap = rng.choice([2, 4, 6, 10])
            s["init"] = rng.choice([0, cap, cap // 2 if cap > 1 else cap])
            if kind == "anonfirst":
                s["first"] = True
            if kind == "anonhighest":
                s["highest"] = True
        return s

    # ------------------------------------------------------------------ arguments
    def t(self):
        return self.rng.choice(TIMES)

    def prio(self):
        return self.rng.choice(PRIOS[:-2] if self.p.get("noinf") else PRIOS)

    def sched(self, kw, urgent=0.2, prio=0.5):
        if self.rng.random() < prio:
            kw["p"] = self.prio()
        if self.rng.random() < urgent:
            kw["u"] = self.rng.random() < 0.8
        return kw

    def mode(self, kw):
        if self.rng.random() < self.p.get("mode", 0.1):
            self.nmodes += 1
            kw["mode"] = MODES[self.nmodes % 6]
        return kw

    def fail(self, kw, prob=None):
        if self.rng.random() < (self.p.get("fail", 0.25) if prob is None else prob):
            kw["fd"] = self.rng.choice(TIMES) if self.rng.random() < 0.95 else float("inf")
            if self.rng.random() < 0.4:
                kw["use_at"] = True
            if self.rng.random() < 0.04:
                kw["fd"], kw["cap"] = -self.rng.choice([0.25, 1]), self.rng.choice([1, 2])
        return kw

    def other(self):
        return self.rng.randrange(max(1, self.maxcomps))

    # ------------------------------------------------------------------ operations
    def op(self, weights, me):
        name = pick(self.rng, weights)
        o = getattr(self, "g_" + name)()
        if ("d" in o[2] or "fd" in o[2]) and self.rng.random() < 0.1:
            o[2]["form"] = self.rng.choice([1, 2])
        if o[1] == "self":
            o[1] = -1 if me is not None else self.other()
        if o[1] == me and o[0] in COMPOPS:
            o[1] = -1
        return o

    def g_hold(self):
        kw = {"d": self.t() if self.rng.random() < 0.97 else float("inf")}
        if self.rng.random() < 0.05:
            kw = {}
        elif self.rng.random() < 0.3:
            kw["use_at"] = True
        return ["hold", "self", self.mode(self.sched(kw))]

    def g_holdpast(self):
        kw = {"d": -self.rng.choice([0.25, 1, 2])}
        if self.rng.random() < 0.3:
            kw["use_at"] = True
        if self.rng.random() < 0.4:
            kw["cap"] = self.rng.choice([1, 2])
        return ["hold", "self" if self.rng.random() < 0.7 or not kw.get("cap") else self.other(), kw]

    def g_holdint(self):
        return ["hold", "self", self.mode({"d": self.t() if self.rng.random() < 0.95 else float("inf"), "intr": self.rng.choice([True, 1, 2, 3])})]

    def g_ohold(self):
        kw = {"d": self.t() if self.rng.random() < 0.95 else float("inf")}
        if self.rng.random() < 0.1:
            kw["intr"] = self.rng.choice([True, 2])
        return ["hold", self.other(), self.mode(self.sched(kw))]

    def g_passivate(self):
        return ["passivate", "self", self.mode({})]

    def g_opassivate(self):
        return ["passivate", self.other(), self.mode({})]

    def g_standby(self):
        return ["standby", "self", self.mode({})]

    def g_ostandby(self):
        return ["standby", self.other(), self.mode({})]

    def g_cancel(self):
        return ["cancel", "self", self.mode({})]

    def g_ocancel(self):
        return ["cancel", self.other(), self.mode({})]

    def act_kw(self):
        kw = {}
        if self.rng.random() < 0.6:
            kw["d"] = self.t()
            if self.rng.random() < 0.3:
                kw["use_at"] = True
                if self.rng.random() < 0.3:
                    kw["extra"] = self.t()
            if self.rng.random() < 0.05:
                kw["d"], kw["cap"] = -self.rng.choice([0.25, 1]), self.rng.choice([1, 2])
        if self.rng.random() < 0.1:
            kw["newp"] = True
        if self.rng.random() < self.p.get("keep", 0.0):
            kw["keep"] = self.rng.choice([True, "request", "wait"])
        return self.mode(self.sched(kw))

    def g_activate(self):
        return ["activate", "self", self.act_kw()]

    def g_oactivate(self):
        return ["activate", self.other(), self.act_kw()]

    def g_interrupt(self):
        return ["interrupt", self.other(), self.mode({})]

    def g_resume(self):
        kw = {}
        if self.rng.random() < 0.3:
            kw["all"] = True
        return ["resume", self.other(), self.mode(self.sched(kw))]

    def g_remaining(self):
        return ["remaining", self.other(), self.sched({"v": self.t()})]

    def g_setmode(self):
        self.nmodes += 1
        return ["set_mode", self.other() if self.rng.random() < 0.3 else "self", {"mode": MODES[self.nmodes % 6]}]

    def g_skipsb(self):
        return ["skipsb", self.other() if self.rng.random() < 0.3 else "self", {"v": self.rng.random() < 0.6}]

    def g_end(self):
        return ["end", -3, {}]

    def g_nop(self):
        return ["nop", -3, {}]

    def g_stop(self):
        return ["stop", -3, self.sched({})]

    def g_create(self):
        spec = self.comp_spec(self.rng.randint(1, 4), None)
        self.maxcomps += 1
        return ["create", -3, {"spec": spec}]

    # resources
    def rs(self, lo=1, hi=3):
        n = min(len(self.resources), self.rng.choice([1, 1, 1, 2, 2, 3][lo - 1:]) if hi > 1 else 1)
        idx = self.rng.sample(range(len(self.resources)), n)
        if any(self.resources[i].get("pre") for i in idx):
            idx = [i for i in idx if self.resources[i].get("pre")][:1]
        out = []
        for i in idx:
            cap = self.resources[i]["cap"]
            q = self.rng.choice([1, 1, 1, 2, 3, cap]) if self.rng.random() < 0.8 else cap
            if self.rng.random() < 0.15:
                q = self.rng.choice([0.5, 1.5])
            if self.p.get("dec"):
                q = self.rng.choice([0.1, 0.1, 0.0001, 0.2, 0.3, 0.4, 0.6, 0.7, cap])
            if self.p.get("unitq"):
                q = 1
            out.append([i, min(q, cap) if self.rng.random() < 0.95 else q, self.rng.choice(PRIOS) if self.rng.random() < 0.6 else 0])
        return out

    def req_kw(self, rs):
        if rs and self.rng.random() < 0.06 and not self.p.get("unitq") and not any(self.resources[i].get("pre") for i, _, _ in rs):
            rs = rs + [[self.rng.choice(rs)[0], self.rng.choice([0.5, 1]), self.rng.choice(PRIOS)]]  # the same resource again: quantities are summed
        kw = {"rs": rs}
        # oneof in combination with honor_only only with equal quantities, as the order of nested honors is not specified otherwise
        strict = any((self.resources[i].get("first") or self.resources[i].get("highest")) and not self.resources[i].get("anon") for i, _, _ in rs)
        if len(rs) > 1 and self.rng.random() < 0.35 and (self.p.get("unitq") or not strict):
            kw["oneof"] = True
        if self.rng.random() < 0.2:
            kw["long"] = True
        if self.rng.random() < 0.15:
            kw["rp"] = self.rng.choice([p for _, _, p in rs] + [1]) if rs else 1
        return self.mode(self.sched(self.fail(kw), urgent=0.15, prio=0.3))

    def g_request(self):
        return ["request", "self", self.req_kw(self.rs())]

    def g_request0(self):
        return ["request", "self", {"rs": []}]

    def g_orequest(self):
        return ["request", self.other(), self.req_kw(self.rs())]

    def anon_rs(self):
        idx = [i for i, r in enumerate(self.resources) if r.get("anon")]
        self.rng.shuffle(idx)
        idx = idx[:1] if self.rng.random() < 0.8 else idx[:2]
        return [[i, self.rng.choice([0.1, 0.2, 0.3, 0.7] if self.p.get("dec") else [1, 1, 2, 3, 0.5, self.resources[i]["cap"]]), self.rng.choice(PRIOS) if self.rng.random() < 0.5 else 0] for i in idx]

    def g_get(self):
        return ["get", "self", self.req_kw(self.anon_rs())]

    def g_put(self):
        return ["put", "self", self.req_kw(self.anon_rs())]

    def g_release(self):
        kw = {}
        x = self.rng.random()
        if x > 0.3:
            i = self.rng.randrange(len(self.resources))
            kw["rs"] = [[i, None if self.rng.random() < 0.5 else self.rng.choice([0.1, 0.2, 0.3, 0.0999, 0.2999] if self.p.get("dec") else [1, 0.5, 2, 5])]]
        return ["release", "self" if self.rng.random() < 0.85 else self.other(), kw]

    def g_rrelease(self):
        i = self.rng.randrange(len(self.resources))
        kw = {}
        if self.resources[i].get("anon"):
            if self.rng.random() < 0.85:
                kw["q"] = self.rng.choice([0.1, 0.3] if self.p.get("dec") else [1, 1, 2, 0.5])
        elif self.rng.random() < 0.1:
            kw["q"] = 1
        return ["rrelease", i, kw]

    def g_rcap(self):
        i = self.rng.randrange(len(self.resources))
        return ["rcap", i, {"cap": self.rng.choice([0, 1, 2, 3, 4, 5, 8] + [30] * 3 * self.crowd), "via_value": self.rng.random() < 0.3}]

    # states
    def sval(self, i):
        v = self.states[i]
        if isinstance(v, bool):
            return self.rng.choice([True, False])
        if isinstance(v, str):
            return self.rng.choice(["red", "green", "blue"])
        if v is None:
            return self.rng.choice([None, 2.5, "red", 0, "", True])
        return self.rng.choice([0, 1, 2, 3])

    def cond(self, i):
        v = self.states[i]
        k = self.rng.random()
        if isinstance(v, (bool,)):
            ops = ["==", "!="]
        elif v is None or isinstance(v, str):
            ops = ["==", "!=", "in"]
        else:
            ops = ["==", "!=", ">", "<=", "in"]
        if k < 0.5:
            return ["v", self.sval(i)]
        op = self.rng.choice(ops)
        val = [self.sval(i), self.sval(i)] if op == "in" else self.sval(i)
        return ["$" if k < 0.75 else "f", op, val]

    def wait_kw(self):
        n = self.rng.choice([1, 1, 1, 2, 2, 3])
        ss = []
        for _ in range(n):
            i = self.rng.randrange(len(self.states))
            ss.append([i, self.cond(i), self.rng.choice(PRIOS) if self.rng.random() < 0.5 else 0])
        kw = {"ss": ss}
        if self.rng.random() < 0.35:
            kw["all"] = True
        if self.rng.random() < 0.2:
            kw["rp"] = self.rng.choice(PRIOS)
            for x in ss:
                if self.rng.random() < 0.7:
                    x[2] = kw["rp"]
        if self.rng.random() < 0.15:
            kw["for"] = True
            rp = kw.get("rp", 0)
            for x in ss:
                x[2] = rp
        return self.mode(self.sched(self.fail(kw), urgent=0.15, prio=0.3))

    def g_wait(self):
        return ["wait", "self", self.wait_kw()]

    def g_owait(self):
        return ["wait", self.other(), self.wait_kw()]

    def g_set(self):
        i = self.rng.randrange(len(self.states))
        return [self.rng.choice(["set", "set", "reset"]), i, {"v": self.sval(i), "via_value": self.rng.random() < 0.2}]

    def g_trigger(self):
        i = self.rng.randrange(len(self.states))
        kw = {"v": self.sval(i)}
        if self.rng.random() < 0.4:
            kw["after"] = self.sval(i)
        if self.rng.random() < 0.5:
            kw["max"] = self.rng.choice([0, 1, 1, 2, 3])
        return ["trigger", i, kw]

    # stores
    def flt(self):
        x = self.rng.random()
        if x < 0.5:
            return None
        if x < 0.75:
            m = self.rng.choice([2, 3])
            return ["mod", [m, self.rng.randrange(m)]]
        if x < 0.95:
            return ["ge", self.rng.randrange(6)]
        return ["none", 0]

    def sts(self):
        n = min(len(self.stores), self.rng.choice([1, 1, 1, 2, 3]))
        return self.rng.sample(range(len(self.stores)), n)

    def store_kw(self, kw):
        if self.rng.random() < 0.4:
            kw["rp"] = self.prio()
        return self.mode(self.sched(self.fail(kw), urgent=0.2, prio=0.2))

    def g_from_store(self):
        kw = {"st": self.sts()}
        f = self.flt()
        if f is not None:
            kw["flt"] = f
        if self.rng.random() < 0.25:
            kw["key"] = self.rng.choice(["attr", "neg"])
        return ["from_store", "self", self.store_kw(kw)]

    def g_to_store(self):
        kw = {"st": self.sts(), "attr": self.rng.randrange(8)}
        if self.rng.random() < 0.4:
            kw["prio"] = self.prio()
        return ["to_store", "self", self.store_kw(kw)]

    def g_ofrom_store(self):
        o = self.g_from_store()
        o[1] = self.other()
        return o

    def g_oto_store(self):
        o = self.g_to_store()
        o[1] = self.other()
        return o

    def st(self):
        return self.rng.randrange(len(self.stores))

    def g_item_enter(self):
        return ["item_enter", self.st(), {"attr": self.rng.randrange(8), "prio": self.prio() if self.rng.random() < 0.5 else None}]

    def g_item_leave(self):
        return ["item_leave", self.st(), {"i": self.rng.randrange(4)}]

    def g_scap(self):
        return ["scap", self.st(), {"cap": self.rng.choice([0, 1, 2, 3, 4, 1.5, 0.5] + [30, 12.5] * 2 * self.crowd), "via_value": self.rng.random() < 0.3}]

    def g_set_attr(self):
        return ["set_attr", self.st(), {"i": self.rng.randrange(4), "attr": self.rng.randrange(8)}]

    def g_rescan(self):
        return ["rescan", self.st(), {}]

    def g_refilter(self):
        f = self.flt()
        return ["refilter", self.other(), {"flt": f}]

    # queues
    def g_enter(self):
        return ["enter", self.rng.randrange(len(self.queues)), {"c": self.qc(), "p": self.prio() if self.rng.random() < 0.6 else None}]

    def qc(self):
        return -1 if self.rng.random() < 0.5 and self._me is not None else self.rng.randrange(self.ncomps)

    def g_leave(self):
        return ["leave", self.rng.randrange(len(self.queues)), {"c": self.qc()}]

    def g_qprio(self):
        return ["qprio", self.rng.randrange(len(self.queues)), {"c": self.qc(), "p": self.prio()}]

    def g_qpop(self):
        return ["qpop", self.rng.randrange(len(self.queues)), {}]

    def g_reset_now(self):
        return ["reset_now", -3, {"t": self.rng.choice([0, 0, 1, 10, 100.5, -5])}]

    # ------------------------------------------------------------------ case
    def comp_spec(self, n, me):
        rng = self.rng
        self._me = -1 if me is None else me
        spec = {"script": [self.op(self.p["ops"], -1 if me is None else me) for _ in range(n)]}
        for o in spec["script"]:
            if o[1] == "self":
                o[1] = -1
        if rng.random() < self.p.get("data", 0.08):
            spec["data"] = True
        else:
            if rng.random() < 0.5:
                spec["delay"] = self.t()
                if rng.random() < 0.3:
                    spec["use_at"] = True
                    if rng.random() < 0.3:
                        spec["extra"] = self.t()
                if rng.random() < 0.05:
                    spec["delay"], spec["cap"] = -self.rng.choice([0.25, 1]), True
            if rng.random() < 0.4:
                spec["p"] = self.prio()
            if rng.random() < 0.2:
                spec["u"] = True
        if rng.random() < self.p.get("skip_standby", 0.0):
            spec["skip_standby"] = True
        if rng.random() < 0.1:
            spec["mode"] = "init"
        return spec

    def build(self):
        rng, p = self.rng, self.p
        for i in range(self.ncomps):
            self.case["comps"].append(self.comp_spec(rng.randint(*p.get("len", (3, 12))), i))
        self._me = None
        if self.crowd and rng.random() < 0.7:  # most of them start with the same
            ops = [op for c in self.case["comps"] for op in c["script"] if op[0] in ("wait", "request", "from_store", "to_store", "get", "put") and op[1] == -1]
            if ops:
                op = rng.choice(ops)
                for c in self.case["comps"]:
                    if rng.random() < 0.8:
                        c["script"].insert(0, copy.deepcopy(op))
        mainops = p.get("mainops", {})
        for _ in range(rng.randint(*p.get("runs", (1, 4)))):
            if mainops:
                for _ in range(rng.choice([0, 0, 1, 2, 3])):
                    self.case["main"].append(self.op(mainops, None))
            kw = {"d": rng.choice(TIMES + [5, 8])}
            if rng.random() < 0.3:
                kw["use_at"] = True
            if rng.random() < p.get("runprio", 0.25):
                kw["p"] = self.prio()
                if rng.random() < 0.3:
                    kw["u"] = True
            self.case["main"].append(["run", -3, kw])
        if mainops:
            for _ in range(rng.choice([0, 1, 2, 3])):
                self.case["main"].append(self.op(mainops, None))
        if p.get("drain", True):
            self.case["main"].append(["run", -3, {}])
        for k in ("resources", "states", "stores", "queues"):
            v = getattr(self, k)
            if v:
                self.case[k] = v
        return self.case


def build(rng, profile):
    return Gen(rng, profile).build()


def shrink_case(case):
    """candidate simplifications of a kernel case"""
    n = len(case["comps"])
    # blank complete scripts
    for i in range(n):
        if case["comps"][i]["script"]:
            c = copy.deepcopy(case)
            c["comps"][i]["script"] = []
            yield c
    # cut halves, then single operations
    for i in range(n):
        L = len(case["comps"][i]["script"])
        for size in (L // 2, L // 4, 1):
            if size < 1:
                continue
            for k in range(0, L, size):
                c = copy.deepcopy(case)
                del c["comps"][i]["script"][k:k + size]
                yield c
    for k in range(len(case["main"])):
        c = copy.deepcopy(case)
        del c["main"][k]
        yield c
