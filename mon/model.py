"""
Independent reference model of the documented salabim process interaction.

Deliberately naive: the event list is a plain list that is searched for its minimum, queues are plain lists,
nothing is cached.  It shares no code with salabim.  World.do(who, op) executes one operation, World.run executes a run.
The component scripts (lists of operations) are interpreted here; mon/real.py interprets the same scripts with the
real library, and the two observation logs have to be equal.
"""
from __future__ import annotations

INF = float("inf")

DATA, CURRENT, SCHED, PASSIVE, REQ, WAIT, STANDBY, INTR = (
    "data", "current", "scheduled", "passive", "requesting", "waiting", "standby", "interrupted")

#: operations that suspend the component when it calls them on itself
SUSPENDING = {"hold", "passivate", "cancel", "standby", "activate", "request", "get", "put", "wait", "from_store", "to_store"}


class Rejected(Exception):
    """operation is expected to be rejected with this exception type"""

    def __init__(self, kind):
        self.kind = kind


class Hist:
    """step function over time"""

    def __init__(self, t, v):
        self.pts = [(t, v)]

    def tally(self, t, v):
        self.pts.append((t, v))


class MQueue:
    def __init__(self, w, name, capacity=INF):
        self.w = w
        self.name = name
        self.items = []  # [member, priority, enter_time]
        self.capacity = capacity
        self.arrivals = 0
        self.departures = 0
        self.length = Hist(w.now, 0)
        self.cap = Hist(w.now, capacity)
        self.avail = Hist(w.now, capacity)
        self.los = []

    def members(self):
        return [i[0] for i in self.items]

    def __contains__(self, c):
        return any(i[0] is c for i in self.items)

    def __len__(self):
        return len(self.items)

    def entry(self, c):
        for i in self.items:
            if i[0] is c:
                return i
        raise Rejected("ValueError")

    def prio(self, c):
        return self.entry(c)[1]

    def insert(self, pos, c, prio):
        if c in self:
            raise Rejected("ValueError")
        if len(self.items) + 1 > self.capacity:
            raise Rejected("QueueFullError")
        self.items.insert(pos, [c, prio, self.w.now])
        self.arrivals += 1
        self.length.tally(self.w.now, len(self.items))
        self.avail.tally(self.w.now, self.capacity - len(self.items))

    def enter(self, c, prio=None):
        if c in self:
            raise Rejected("ValueError")
        if prio is None:
            self.insert(len(self.items), c, self.items[-1][1] if self.items else 0)
        else:
            pos = len(self.items)
            while pos > 0 and self.items[pos - 1][1] > prio:
                pos -= 1
            self.insert(pos, c, prio)

    def leave(self, c):
        e = self.entry(c)
        self.items.remove(e)
        self.departures += 1
        self.los.append(self.w.now - e[2])
        self.length.tally(self.w.now, len(self.items))
        self.avail.tally(self.w.now, self.capacity - len(self.items))

    def set_capacity(self, cap):
        self.capacity = cap
        self.cap.tally(self.w.now, cap)
        self.avail.tally(self.w.now, cap - len(self.items))

    def set_prio(self, c, prio):
        e = self.entry(c)
        if prio != e[1]:
            self.items.remove(e)
            e[1] = prio
            pos = 0
            while pos < len(self.items) and self.items[pos][1] <= prio:
                pos += 1
            self.items.insert(pos, e)


class MStore(MQueue):
    def __init__(self, w, name, capacity=INF):
        super().__init__(w, name, capacity)
        self.fromq = MQueue(w, name + ".from")
        self.toq = MQueue(w, name + ".to")

    def insert(self, pos, item, prio):
        super().insert(pos, item, prio)
        # the first requester in the queue whose filter accepts this item gets it
        for c in self.fromq.members():
            if self.w.item_ok(c.store_filter, item):
                for s in c.from_stores:
                    s.fromq.leave(c)
                c.from_stores = []
                self.leave(item)
                self.w.got(c, self, item)
                break

    def leave(self, item):
        super().leave(item)
        if len(self.items) + 1 <= self.capacity and len(self.toq):
            self.serve_to(self.toq.members()[0])

    def serve_to(self, c):
        for s in c.to_stores:
            s.toq.leave(c)
        c.to_stores = []
        self.enter(c.to_item, c.to_prio)
        c.to_store_store = self
        c.to_item = None
        self.w.honor(c)

    def rescan(self):
        for c in self.fromq.members():
            if c not in self.fromq:
                continue
            for item in self.members():
                if self.w.item_ok(c.store_filter, item):
                    for s in c.from_stores:
                        s.fromq.leave(c)
                    c.from_stores = []
                    self.leave(item)
                    self.w.got(c, self, item)
                    break

    def set_capacity(self, cap):
        old = self.capacity
        super().set_capacity(cap)
        if cap >= old:
            for c in self.toq.members():
                if c not in self.toq:
                    continue
                if len(self.items) + 1 > self.capacity:
                    break
                self.serve_to(c)


class MRes:
    def __init__(self, w, spec, idx):
        self.w = w
        self.name = "r%d" % idx
        self.capacity = spec.get("cap", 1)
        self.anon = spec.get("anon", False)
        self.preemptive = spec.get("pre", False)
        self.first = spec.get("first", False)
        self.highest = spec.get("highest", False)
        self.claimed = spec.get("init", 0)
        self.requesters = MQueue(w, "requesters of " + self.name)
        self.claimers = MQueue(w, "claimers of " + self.name)
        self.trying = False
        self.h_cap = Hist(w.now, self.capacity)
        self.h_claimed = Hist(w.now, self.claimed)
        self.h_avail = Hist(w.now, self.capacity - self.claimed)
        self.h_occ = Hist(w.now, self.occ())

    def occ(self):
        return 0 if self.capacity <= 0 else self.claimed / self.capacity

    def tally(self):
        t = self.w.now
        self.h_claimed.tally(t, self.claimed)
        self.h_avail.tally(t, self.capacity - self.claimed)
        self.h_occ.tally(t, self.occ())

    def blocked(self, c):
        """forbidden by the discipline of this resource"""
        if self.first and self.requesters.members()[0] is not c:
            return True
        if self.highest and self.requesters.prio(c) != self.requesters.items[0][1]:
            return True
        return False

    def fits(self, q):
        if q > 0:
            return q <= self.capacity - self.claimed + 1e-8  # quantities are decimal numbers
        return -q <= self.claimed + 1e-8

    def scan(self):
        if self.anon:
            if self.trying:
                return
            self.trying = True
            again = True
            while again:
                again = False
                for c in self.requesters.members():
                    if self.blocked(c):
                        break
                    if self.w.tryrequest(c):
                        again = True
                        break
                    if c not in self.requesters:
                        again = True
                        break
            self.trying = False
        else:
            done = []
            again = True
            while again:
                again = False
                if self.requesters.items and min(x.requests[self] for x in self.requesters.members()) > self.capacity - self.claimed + 1e-8:
                    break  # nothing can be honored by this resource
                for c in self.requesters.members():
                    if self.blocked(c):
                        break
                    if c in done:
                        continue
                    if self.w.tryrequest(c):
                        again = True
                        break
                    done.append(c)


class MState:
    def __init__(self, w, value, idx):
        self.w = w
        self.name = "s%d" % idx
        self.value = value
        self.waiters = MQueue(w, "waiters of " + self.name)
        self.h = Hist(w.now, value)

    def set(self, value):
        if self.value != value:
            self.value = value
            self.h.tally(self.w.now, value)
            self.scan()

    def trigger(self, value, after, mx):
        if after is None:
            after = self.value
        self.value = value
        self.h.tally(self.w.now, value)
        self.scan(mx)
        self.value = after
        self.h.tally(self.w.now, after)
        self.scan()

    def scan(self, mx=INF):
        for c in self.waiters.members():
            if mx <= 0:
                break
            if self.w.trywait(c):
                mx -= 1


class MComp:
    def __init__(self, w, name, script):
        self.w = w
        self.name = name
        self.script = script
        self.pc = 0
        self.incarnation = 0
        self.alive = False  # there is a suspended or running process
        self.started = False
        self.status_h = Hist(w.now, DATA)
        self._status = DATA
        self.mode = ""
        self.mode_h = Hist(w.now, "")
        self.mode_time = w.now
        self.sched_time = INF
        self.remaining = None
        self.int_level = 0
        self.int_status = None
        self.failed = False
        self.requests = {}
        self.oneof = False
        self.claims = {}
        self.waits = []
        self.wait_all = False
        self.from_stores = []
        self.to_stores = []
        self.store_filter = None
        self.from_item = None
        self.from_store_store = None
        self.to_store_store = None
        self.to_item = None
        self.to_prio = 0
        self.skip_standby = False
        self.creation_time = w.now
        self.pending_op = None

    @property
    def status(self):
        return self._status

    @status.setter
    def status(self, v):
        self._status = v
        self.status_h.tally(self.w.now, v)


class World:
    def __init__(self, case):
        self.case = case
        self.now = 0.0
        self.offset = 0.0
        self.seq = 0
        self.events = []
        self.standby = []
        self.pending = []
        self.log = []
        self.nop = 0
        self.comps = []
        self.items = []
        self.end_on_empty = False
        self.main = MComp(self, "main", [])
        self.main.status = CURRENT
        self.current = self.main
        self.resources = [MRes(self, s, i) for i, s in enumerate(case.get("resources", []))]
        self.states = [MState(self, v, i) for i, v in enumerate(case.get("states", []))]
        self.stores = [MStore(self, "st%d" % i, s.get("cap", INF)) for i, s in enumerate(case.get("stores", []))]
        self.queues = [MQueue(self, "q%d" % i, s.get("cap", INF)) for i, s in enumerate(case.get("queues", []))]
        for spec in case["comps"]:
            if not spec.get("late"):
                self.create(spec)

    # ---------------------------------------------------------------- basics
    def create(self, spec):
        c = MComp(self, "c%d" % len(self.comps), spec["script"])
        c.skip_standby = spec.get("skip_standby", False)
        self.comps.append(c)
        if spec.get("mode"):
            c.mode = spec["mode"]
            c.mode_h = Hist(self.now, c.mode)
        if not spec.get("data"):
            self.new_process(c)
            c.status = SCHED
            self.schedule(c, self.now + max(0, spec.get("delay", 0)), spec.get("p", 0), spec.get("u", False))
        return c

    def new_process(self, c):
        c.incarnation += 1
        c.alive = True
        c.started = False
        c.pending_op = None

    def schedule(self, c, t, prio, urgent):
        c.sched_time = t
        if t != INF:
            self.seq += 1
            self.events.append((t, prio, -self.seq if urgent else self.seq, c))

    def unschedule(self, c):
        self.events = [e for e in self.events if e[3] is not c]
        if c.status == STANDBY:
            self.standby = [x for x in self.standby if x is not c]
            self.pending = [x for x in self.pending if x is not c]

    def honor(self, c):
        self.unschedule(c)
        c.status = SCHED
        self.schedule(c, self.now, 0, False)

    def got(self, c, store, item):
        c.from_item = item
        c.from_store_store = store
        self.honor(c)

    def abandon(self, c):
        if c.requests:
            rs = list(c.requests)
            for r in rs:
                r.requesters.leave(c)
            c.requests = {}
            c.failed = True
            for r in rs:
                if r.first or r.highest:
                    r.scan()
        if c.waits:
            for s, _ in c.waits:
                if c in s.waiters:
                    s.waiters.leave(c)
            c.waits = []
            c.failed = True
        if c.from_stores:
            for s in c.from_stores:
                s.fromq.leave(c)
            c.from_stores = []
            c.failed = True
        if c.to_stores:
            for s in c.to_stores:
                s.toq.leave(c)
            c.to_stores = []
            c.failed = True

    # ---------------------------------------------------------------- resources
    def tryrequest(self, c):
        if c.status == INTR or not c.requests:
            return False
        if c.oneof:
            sel = [r for r, q in c.requests.items() if not r.blocked(c) and r.fits(q)][:1]
        else:
            sel = list(c.requests) if all(not r.blocked(c) and r.fits(q) for r, q in c.requests.items()) else []
        if not sel:
            return False
        retry = []
        for r, q in list(c.requests.items()):
            if r.anon or r.first or r.highest:
                retry.append(r)
            if r in sel:
                r.claimed += q
                if not r.anon:
                    c.claims[r] = c.claims.get(r, 0) + q
                    if c not in r.claimers:
                        r.claimers.enter(c, r.requesters.prio(c))
                r.tally()
            r.requesters.leave(c)
        c.requests = {}
        self.honor(c)
        for r in retry:
            r.scan()
        return True

    def release(self, c, r, q=None, bump=False):
        if r not in c.claims:
            raise Rejected("ValueError")
        if q is None or q > c.claims[r]:
            q = c.claims[r]
        r.claimed -= q
        c.claims[r] -= q
        if c.claims[r] < 1e-8:
            r.claimers.leave(c)
            del c.claims[r]
        r.tally()
        if not bump:
            r.scan()

    # ---------------------------------------------------------------- states
    @staticmethod
    def cond_ok(cond, v):
        kind = cond[0]
        if kind == "v":
            return v == cond[1]
        if kind in ("$", "f"):
            op, k = cond[1], cond[2]
            if op == "==":
                return v == k
            if op == "!=":
                return v != k
            if op == ">":
                return v > k
            if op == "<=":
                return v <= k
            if op == "in":
                return v in k
        raise AssertionError(cond)

    def trywait(self, c):
        if c.status == INTR or not c.waits:
            return False
        oks = [self.cond_ok(cond, s.value) for s, cond in c.waits]
        if not (all(oks) if c.wait_all else any(oks)):
            return False
        for s, _ in c.waits:
            if c in s.waiters:
                s.waiters.leave(c)
        c.waits = []
        self.honor(c)
        return True

    # ---------------------------------------------------------------- stores
    @staticmethod
    def item_ok(flt, item):
        if flt is None:
            return True
        kind, k = flt
        if kind == "mod":
            return item.attr % k[0] == k[1]
        if kind == "ge":
            return item.attr >= k
        if kind == "none":
            return False
        raise AssertionError(flt)

    @staticmethod
    def item_key(key, item):
        return item.attr if key == "attr" else -item.attr

    # ---------------------------------------------------------------- operations
    def target(self, who, idx):
        return who if idx == -1 else (self.main if idx == -2 else self.comps[idx])

    def fail_time(self, kw):
        if kw.get("fd") is not None:
            return self.now + (max(0, kw["fd"]) if kw.get("cap") else kw["fd"])
        return INF

    def pre(self, c, data_ok=False):
        """common start of most process interaction calls"""
        if c.status != CURRENT:
            if c.status == DATA and not data_ok:
                raise Rejected("ValueError")
            self.unschedule(c)
            self.abandon(c)

    def set_mode(self, c, kw):
        if kw.get("mode") is not None:
            c.mode = kw["mode"]
            c.mode_time = self.now
            c.mode_h.tally(self.now, c.mode)

    def skip(self, who, op):
        """operations that are not executed in this state (same rule in the real driver); uses observable state only"""
        name, ti = op[0], op[1]
        if name in ("hold", "passivate", "interrupt", "resume", "cancel", "standby", "activate", "remaining", "request", "get", "put", "wait",
                    "from_store", "to_store", "release", "set_mode", "skipsb"):
            if ti >= 0 and ti >= len(self.comps):
                return True
            c = self.target(who, ti)
            if name == "request" and any(self.resources[ri].preemptive and self.resources[ri] in c.claims for ri, _, _ in op[2]["rs"]):
                return True  # no requests on a preemptive resource that is already claimed
            return skip_rule(name, ti, c.status, op[2], c is who)
        return False

    def do(self, who, op):
        """executes op for who (a component, or main); returns an observable result"""
        return getattr(self, "op_" + op[0])(who, op[1], op[2])

    def op_hold(self, who, ti, kw):
        c = self.target(who, ti)
        d = kw.get("d")
        past = d is not None and d < 0
        if past and not kw.get("cap"):
            raise Rejected("ValueError")
        if c.status not in (PASSIVE,):
            self.pre(c)
        self.set_mode(c, kw)
        t = self.now if (d is None or past) else self.now + d
        if kw.get("intr"):
            c.remaining = t - self.now
            c.int_status = SCHED
            c.int_level = int(kw["intr"])
            c.sched_time = INF
            c.status = INTR
            return None
        c.status = SCHED
        self.schedule(c, t, kw.get("p", 0), kw.get("u", False))

    def op_activate(self, who, ti, kw):
        c = self.target(who, ti)
        newp = kw.get("newp") or c.status == DATA
        if newp:
            self.new_process(c)
        if c.status != CURRENT:
            self.unschedule(c)
            keep = kw.get("keep")
            keep = not newp and (c.status == REQ and keep in (True, "request") or c.status == WAIT and keep in (True, "wait"))
            if not keep:
                self.abandon(c)
        else:
            keep = False
        self.set_mode(c, kw)
        if not keep:
            c.status = SCHED
        self.schedule(c, self.now + max(0, kw.get("d", 0)), kw.get("p", 0), kw.get("u", False))

    def op_passivate(self, who, ti, kw):
        c = self.target(who, ti)
        if c.status == CURRENT:
            c.remaining = 0
        else:
            st = c.status
            self.pre(c)
            if st != INTR:
                c.remaining = c.sched_time - self.now
        c.sched_time = INF
        self.set_mode(c, kw)
        c.status = PASSIVE

    def op_interrupt(self, who, ti, kw):
        c = self.target(who, ti)
        if c.status not in (SCHED, INTR):
            raise Rejected("ValueError")
        self.set_mode(c, kw)
        if c.status == INTR:
            c.int_level += 1
        else:
            self.unschedule(c)
            c.remaining = c.sched_time - self.now
            c.sched_time = INF
            c.int_status = c.status
            c.int_level = 1
            c.status = INTR

    def op_resume(self, who, ti, kw):
        c = self.target(who, ti)
        if c.status != INTR:
            raise Rejected("ValueError")
        self.set_mode(c, kw)
        c.int_level -= 1
        if kw.get("all") or c.int_level == 0:
            c.status = c.int_status
            self.schedule(c, self.now + c.remaining, kw.get("p", 0), kw.get("u", False))

    def op_cancel(self, who, ti, kw):
        c = self.target(who, ti)
        if c.status == DATA:
            return
        self.pre(c)
        for r in list(c.claims):
            self.release(c, r)
        c.alive = False
        c.sched_time = INF
        self.set_mode(c, kw)
        c.status = DATA

    def op_standby(self, who, ti, kw):
        c = self.target(who, ti)
        self.pre(c)
        c.sched_time = self.now
        self.set_mode(c, kw)
        self.standby.append(c)
        c.status = STANDBY

    def op_remaining(self, who, ti, kw):
        c = self.target(who, ti)
        v = kw["v"]
        if c.status in (PASSIVE, INTR):
            c.remaining = v
        elif c.status in (CURRENT, STANDBY):
            raise Rejected("ValueError")
        else:
            self.unschedule(c)
            self.schedule(c, self.now + v, kw.get("p", 0), kw.get("u", False))

    def op_set_mode(self, who, ti, kw):
        self.set_mode(self.target(who, ti), kw)

    def op_skipsb(self, who, ti, kw):
        self.target(who, ti).skip_standby = kw["v"]
        return kw["v"]

    def op_request(self, who, ti, kw, sign=1):
        c = self.target(who, ti)
        self.pre(c)
        c.oneof = kw.get("oneof", False)
        t = self.fail_time(kw)
        self.set_mode(c, kw)
        c.failed = False
        if not kw["rs"]:
            c.status = SCHED
            self.schedule(c, self.now, 0, False)
            return
        for ri, q, prio in kw["rs"]:
            r = self.resources[ri]
            if r in c.requests:
                c.requests[r] += sign * q
                continue
            c.requests[r] = sign * q
            r.requesters.enter(c, prio)
            if r.preemptive:
                self.preempt(c, r, q, prio)
        if not self.tryrequest(c):
            c.status = REQ
            self.schedule(c, t, kw.get("p", 0), kw.get("u", False))

    def preempt(self, c, r, q, prio):
        victims = []
        av = r.capacity - r.claimed
        for x in reversed(r.claimers.members()):
            if av >= q or not r.claimers.prio(x) > prio:
                break
            av += x.claims[r]
            victims.append(x)
        if av >= q:
            for x in victims:
                self.release(x, r, bump=True)
                # x.activate()
                if x.status != CURRENT:
                    self.unschedule(x)
                    self.abandon(x)
                x.status = SCHED
                self.schedule(x, self.now, 0, False)

    def op_get(self, who, ti, kw):
        return self.op_request(who, ti, kw)

    def op_put(self, who, ti, kw):
        return self.op_request(who, ti, kw, sign=-1)

    def op_release(self, who, ti, kw):
        c = self.target(who, ti)
        if kw.get("rs") is None:
            for r in list(c.claims):
                self.release(c, r)
        else:
            for ri, q in kw["rs"]:
                r = self.resources[ri]
                if r.anon:
                    raise Rejected("ValueError")
                self.release(c, r, q)

    def op_rrelease(self, who, ri, kw):
        r = self.resources[ri]
        if r.anon:
            r.claimed -= r.claimed if kw.get("q") is None else kw["q"]
            if r.claimed < 1e-8:
                r.claimed = 0
            r.tally()
            r.scan()
        else:
            if kw.get("q") is not None:
                raise Rejected("ValueError")
            for c in r.claimers.members():
                self.release(c, r)

    def op_rcap(self, who, ri, kw):
        r = self.resources[ri]
        r.capacity = kw["cap"]
        r.h_cap.tally(self.now, r.capacity)
        r.tally()
        r.scan()

    def op_wait(self, who, ti, kw):
        c = self.target(who, ti)
        self.pre(c)
        c.wait_all = kw.get("all", False)
        c.failed = False
        t = self.fail_time(kw)
        self.set_mode(c, kw)
        for si, cond, prio in kw["ss"]:
            s = self.states[si]
            if c not in s.waiters:
                s.waiters.enter(c, prio)
            c.waits.append((s, cond))
        if not self.trywait(c):
            c.status = WAIT
            self.schedule(c, t, kw.get("p", 0), kw.get("u", False))

    def op_set(self, who, si, kw):
        self.states[si].set(kw["v"])

    def op_reset(self, who, si, kw):
        self.states[si].set(kw["v"])

    def op_trigger(self, who, si, kw):
        self.states[si].trigger(kw["v"], kw.get("after"), INF if kw.get("max") is None else kw["max"])

    def op_from_store(self, who, ti, kw):
        c = self.target(who, ti)
        self.pre(c)
        t = self.fail_time(kw)
        self.set_mode(c, kw)
        c.failed = False
        flt = kw.get("flt")
        cands = []
        for si in kw["st"]:
            s = self.stores[si]
            for it in s.members():
                if self.item_ok(flt, it):
                    cands.append((s, it))
        if cands:
            s, it = cands[0]
            if kw.get("key"):
                s, it = min(cands, key=lambda x: self.item_key(kw["key"], x[1]))  # first one if several
            s.leave(it)
            self.got(c, s, it)
            return
        c.from_stores = [self.stores[si] for si in kw["st"]]
        for s in c.from_stores:
            s.fromq.enter(c, kw.get("rp", 0))
        c.status = REQ
        c.from_item = None
        c.store_filter = flt
        self.schedule(c, t, kw.get("p", 0), kw.get("u", True))

    def new_item(self, attr):
        it = MComp(self, "it%d" % len(self.items), [])
        it.attr = attr
        self.items.append(it)
        return it

    def op_to_store(self, who, ti, kw):
        c = self.target(who, ti)
        it = self.new_item(kw["attr"])
        self.pre(c)
        t = self.fail_time(kw)
        self.set_mode(c, kw)
        c.failed = False
        for si in kw["st"]:
            s = self.stores[si]
            if len(s) + 1 <= s.capacity:
                s.enter(it, kw.get("prio", 0))
                c.to_store_store = s
                self.honor(c)
                return
        c.to_stores = [self.stores[si] for si in kw["st"]]
        for s in c.to_stores:
            s.toq.enter(c, kw.get("rp", 0))
        c.status = REQ
        c.to_item = it
        c.to_prio = kw.get("prio", 0)
        self.schedule(c, t, kw.get("p", 0), kw.get("u", True))

    def op_item_enter(self, who, si, kw):
        it = self.new_item(kw["attr"])
        s = self.stores[si]
        if kw.get("prio") is None:
            s.enter(it)
        else:
            s.enter(it, kw["prio"])

    def op_item_leave(self, who, si, kw):
        s = self.stores[si]
        if len(s) == 0:
            return None
        it = s.members()[kw["i"] % len(s)]
        s.leave(it)
        return it.name

    def op_scap(self, who, si, kw):
        self.stores[si].set_capacity(kw["cap"])

    def op_set_attr(self, who, si, kw):
        """changes an attribute of an item in a store (then a rescan is required by the documentation)"""
        s = self.stores[si]
        if len(s):
            s.members()[kw["i"] % len(s)].attr = kw["attr"]
        s.rescan()

    def op_rescan(self, who, si, kw):
        self.stores[si].rescan()

    def op_refilter(self, who, ti, kw):
        if ti >= len(self.comps):
            return
        c = self.comps[ti]
        if not c.from_stores:
            return
        c.store_filter = kw["flt"]
        for s in list(c.from_stores):
            s.rescan()

    def op_enter(self, who, qi, kw):
        c = self.target(who, kw["c"])
        self.queues[qi].enter(c, kw.get("p"))

    def op_leave(self, who, qi, kw):
        self.queues[qi].leave(self.target(who, kw["c"]))

    def op_qprio(self, who, qi, kw):
        self.queues[qi].set_prio(self.target(who, kw["c"]), kw["p"])

    def op_qpop(self, who, qi, kw):
        q = self.queues[qi]
        if not len(q):
            return None
        c = q.members()[0]
        q.leave(c)
        return c.name

    def op_create(self, who, ti, kw):
        c = self.create(kw["spec"])
        return c.name

    def op_stop(self, who, ti, kw):
        """main.activate()"""
        m = self.main
        if m.status == CURRENT:
            return
        self.unschedule(m)
        m.status = SCHED
        self.schedule(m, self.now, kw.get("p", 0), kw.get("u", False))

    def op_end(self, who, ti, kw):
        raise AssertionError

    def op_nop(self, who, ti, kw):
        return None

    def op_reset_now(self, who, ti, kw):
        self.offset = self.now - kw["t"]

    # ---------------------------------------------------------------- execution
    def resume_comp(self, c):
        """c is current: execute its script until it suspends or ends"""
        if not c.started:
            c.started = True
            self.note("start", c, c.incarnation)
        else:
            self.after(c, c.pending_op)
        inc = c.incarnation
        while c.pc < len(c.script):
            op = c.script[c.pc]
            c.pc += 1
            if op[0] == "end":
                break
            if self.execute(c, op):
                return
        if c.incarnation == inc:
            self.terminate(c)

    def execute(self, c, op):
        """executes an op by c, returns True if c is suspended"""
        self.nop += 1
        if self.skip(c, op):
            self.note("skip", c, c.pc)
            return False
        self.note("op", c, c.pc)
        try:
            res = self.do(c, op)
        except Rejected as e:
            self.note("exc", c, e.kind)
            self.snap()
            return False
        if op[0] in SUSPENDING and self.target(c, op[1]) is c and c is not self.main:
            c.pending_op = op
            return True
        self.note("ret", c, res)
        self.snap()
        return False

    def after(self, c, op):
        """c continues after the suspending operation op"""
        res = None
        if op[0] == "from_store":
            res = c.from_item.name if c.from_item is not None else None
        self.note("cont", c, res)
        self.snap()

    def terminate(self, c):
        for r in list(c.claims):
            self.release(c, r)
        c.from_item = None
        c.to_item = None
        c.status = DATA
        c.sched_time = INF
        c.alive = False

    def step(self):
        if not self.current.skip_standby and self.pending:
            c = self.pending.pop(0)
            if c.status == STANDBY:
                c.status = CURRENT
                c.sched_time = INF
                self.current = c
                self.resume_comp(c)
                return True
        self.pending.extend(self.standby)
        self.standby = []
        if self.events:
            e = min(self.events, key=lambda e: e[:3])
            self.events.remove(e)
            t, c = e[0], e[3]
        else:
            t, c = (self.now if self.end_on_empty else INF), self.main
        self.now = t
        self.current = c
        c.status = CURRENT
        c.sched_time = INF
        if c is self.main:
            return False
        self.abandon(c)
        self.resume_comp(c)
        return True

    def run(self, kw):
        m = self.main
        self.end_on_empty = False
        if kw.get("d") is not None:
            t = self.now + kw["d"]
        else:
            t = INF
            self.end_on_empty = True
        m.status = SCHED
        self.schedule(m, t, kw.get("p", INF), kw.get("u", False))
        n = 0
        while self.step():
            n += 1
            if n > 20000:
                raise RuntimeError("model budget")
        self.note("runend", m, None)
        self.snap()

    def simulate(self):
        self.snap()
        for op in self.case["main"]:
            if op[0] == "run":
                self.run(op[2])
            else:
                self.execute(self.main, op)
        return self.log

    # ---------------------------------------------------------------- observation
    def note(self, what, c, arg):
        self.log.append((what, self.now - self.offset, c.name, arg, c.failed))

    def peek(self):
        if self.pending:
            return self.now - self.offset
        if self.events:
            return min(e[0] for e in self.events) - self.offset
        return (self.now - self.offset) if self.end_on_empty else INF

    def snap_comp(self, c):
        st = c.status
        if st in (PASSIVE, INTR):
            rem = c.remaining
        elif st in (SCHED, WAIT, REQ):
            rem = c.sched_time - self.now
        else:
            rem = 0
        sp = [e[1] for e in self.events if e[3] is c]
        return (c.name, st, c.sched_time - self.offset, sp[0] if sp else None, rem,
                c.int_level if st == INTR else 0, c.int_status if st == INTR else None,
                c.mode, c.mode_time - self.offset, c.failed)

    def snap(self):
        self.log.append(("snap", self.peek(), self.current.name) + tuple(self.snap_comp(c) for c in self.comps))
        if self.resources:
            self.log.append(("res",) + tuple(
                (r.name, r.claimed, r.capacity - r.claimed, r.capacity, r.occ(),
                 tuple((c.name, r.requesters.prio(c), c.requests[r]) for c in r.requesters.members()),
                 tuple((c.name, r.claimers.prio(c), c.claims[r]) for c in r.claimers.members()))
                for r in self.resources) + tuple(tuple(r.name for r in c.claims) for c in self.comps))
        if self.states:
            self.log.append(("sta",) + tuple((s.name, s.value, tuple((c.name, s.waiters.prio(c)) for c in s.waiters.members())) for s in self.states))
        if self.stores:
            self.log.append(("sto",) + tuple(
                (s.name, s.capacity, s.capacity - len(s), tuple((i.name, s.prio(i)) for i in s.members()),
                 tuple((c.name, s.fromq.prio(c)) for c in s.fromq.members()),
                 tuple((c.name, s.toq.prio(c)) for c in s.toq.members()))
                for s in self.stores)
                + tuple((c.from_item.name if c.from_item is not None else None,
                         c.from_store_store.name if c.from_store_store is not None else None,
                         c.to_store_store.name if c.to_store_store is not None else None) for c in self.comps))
        if self.queues:
            self.log.append(("que",) + tuple((q.name, q.capacity, tuple((c.name, q.prio(c), q.entry(c)[2] - self.offset) for c in q.members())) for q in self.queues))


def skip_rule(name, ti, status, kw, is_self):
    """rules for what is not exercised (shared between model and real driver; based on observable status only)"""
    if name == "passivate":
        return status == PASSIVE
    if name == "remaining":
        return status == DATA
    if name in ("request", "get", "put", "wait", "from_store", "to_store"):
        if is_self:
            return False
        return status in (INTR, DATA)
    if name == "hold":
        if kw.get("d") is not None and kw["d"] < 0:  # only self-holds in the past, as others are not atomic
            return not is_self
        return False
    return False
