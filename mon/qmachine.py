"""random histories on real queues, in step with plain Python lists"""
from __future__ import annotations

import salabim as sim
from mon.core import Violation
from mon.refmon import RefLevel, RefTally, NAN

INF = float("inf")


class RQ:
    """reference queue: a list of [component index, priority, enter time]"""

    def __init__(self, t, capacity=INF, monitor=True):
        self.items = []
        self.capacity = capacity
        self.length = RefLevel(t, 0, on=monitor)
        self.los = RefTally(on=monitor)
        self.cap = RefLevel(t, capacity, on=monitor)
        self.avail = RefLevel(t, capacity, on=monitor)
        self.arr = self.dep = 0
        self.arr0 = self.dep0 = t

    def ids(self):
        return [i[0] for i in self.items]

    def pos(self, c):
        for k, i in enumerate(self.items):
            if i[0] == c:
                return k
        return None

    def changed(self, t):
        self.length.tally(t, len(self.items))
        self.avail.tally(t, self.capacity - len(self.items))

    def put(self, k, c, prio, t):
        self.items.insert(k, [c, prio, t])
        self.arr += 1
        self.changed(t)

    def take(self, k, t):
        c, prio, t0 = self.items.pop(k)
        self.dep += 1
        self.los.tally(t, t - t0)
        self.changed(t)
        return c


class Err(Exception):
    pass


class Machine:
    def __init__(self, case, obs):
        self.case = case
        self.obs = obs
        self.env = sim.Environment(trace=False, random_seed=None, yieldless=False)
        env = self.env
        self.cs = [sim.Component("c%d." % i, process="", env=env) for i in range(case["nc"])]
        self.ids = {c: i for i, c in enumerate(self.cs)}
        self.q = []
        self.r = []
        for spec in case["queues"]:
            kw = {}
            if spec.get("cap") is not None:
                kw["capacity"] = spec["cap"]
            if spec.get("fill"):
                kw["fill"] = [self.cs[i] for i in spec["fill"]]
            cls = sim.Store if spec.get("store") else sim.Queue
            self.q.append(cls("q", monitor=spec.get("monitor", True), env=env, **kw))
            r = RQ(0, INF if spec.get("cap") is None else spec["cap"], spec.get("monitor", True))
            for i in spec.get("fill", []):
                r.put(len(r.items), i, 0, 0)
            self.r.append(r)
        self.t = 0
        self.offset = 0

    # -- operations: real and reference side by side
    def step(self, op):
        f = getattr(self, "op_" + op[0])
        real = ref = None
        want = f(op, True)  # "skip", ("ok", value) or ("err", kind)
        if want == "skip":
            self.obs("skipped")
            return
        try:
            got = ("ok", f(op, False))
        except (ValueError, IndexError, KeyError, TypeError, sim.QueueFullError) as e:
            got = ("err", "full" if isinstance(e, sim.QueueFullError) else "err", type(e).__name__)
        if got[0] != want[0] or (got[0] == "err" and want[1] != "any" and got[1] != want[1]):
            raise Violation("operation %r gave %r, expected %r" % (op, got, want))
        if got[0] == "ok" and len(want) > 1 and got[1] != want[1]:
            raise Violation("operation %r returned %r, expected %r" % (op, got[1], want[1]))
        self.obs("op_" + op[0])
        self.obs("accepted" if got[0] == "ok" else "rejected")

    def nm(self, c):
        return None if c is None else self.ids[c]

    def room(self, r):
        return len(r.items) + 1 <= r.capacity

    def op_enter(self, op, model):
        _, how, qi, ci, prio = op
        if not model:
            q, c = self.q[qi], self.cs[ci]
            if how == 0:
                c.enter(q, prio)
            elif how == 1:
                q.add(c, prio)
            elif how == 2:
                c.enter(q, priority=prio)
            elif how == 3:
                q.append(c, prio) if prio is not None else q.append(c)
            elif how == 4:
                q.add_sorted(c, prio)
            else:
                c.enter_sorted(q, prio)
            return
        r = self.r[qi]
        if how >= 4 and prio is None:
            return "skip"
        if r.pos(ci) is not None:
            return ("err", "err")
        if not self.room(r):
            return ("err", "full")
        if prio is None:
            r.put(len(r.items), ci, r.items[-1][1] if r.items else 0, self.t)
        else:
            k = len(r.items)
            while k and r.items[k - 1][1] > prio:
                k -= 1
            r.put(k, ci, prio, self.t)
        return ("ok",)

    def op_head(self, op, model):
        _, how, qi, ci = op
        if not model:
            q, c = self.q[qi], self.cs[ci]
            c.enter_at_head(q) if how else q.add_at_head(c)
            return
        r = self.r[qi]
        if r.pos(ci) is not None:
            return ("err", "err")
        if not self.room(r):
            return ("err", "full")
        r.put(0, ci, r.items[0][1] if r.items else 0, self.t)
        return ("ok",)

    def op_rel(self, op, model):
        _, how, qi, ci, pi = op
        if not model:
            q, c, p = self.q[qi], self.cs[ci], self.cs[pi]
            if how == 0:
                c.enter_in_front_of(q, p)
            elif how == 1:
                q.add_in_front_of(c, p)
            elif how == 2:
                c.enter_behind(q, p)
            else:
                q.add_behind(c, p)
            return
        r = self.r[qi]
        k = r.pos(pi)
        if r.pos(ci) is not None or k is None:
            return ("err", "err")
        if not self.room(r):
            return ("err", "full")
        r.put(k + (how >= 2), ci, r.items[k][1], self.t)
        return ("ok",)

    def op_insert(self, op, model):
        _, qi, ci, k = op
        if not model:
            self.q[qi].insert(k, self.cs[ci])
            return
        r = self.r[qi]
        if k < 0 or k > len(r.items) or r.pos(ci) is not None:
            return ("err", "err")
        if not self.room(r):
            return ("err", "full")
        r.put(k, ci, r.items[k][1] if k < len(r.items) else r.items[-1][1] if r.items else 0, self.t)
        return ("ok",)

    def op_leave(self, op, model):
        _, how, qi, ci = op
        if not model:
            q, c = self.q[qi], self.cs[ci]
            q.remove(c) if how else c.leave(q)
            return
        r = self.r[qi]
        k = r.pos(ci)
        if k is None:
            return ("err", "err")
        r.take(k, self.t)
        return ("ok",)

    def op_leaveall(self, op, model):
        if not model:
            self.cs[op[1]].leave()
            return
        for r in self.r:
            k = r.pos(op[1])
            if k is not None:
                r.take(k, self.t)
        return ("ok",)

    def op_pop(self, op, model):
        _, qi, k = op
        if not model:
            return self.nm(self.q[qi].pop() if k is None else self.q[qi].pop(k))
        r = self.r[qi]
        n = len(r.items)
        if k is None:
            return ("ok", r.take(0, self.t) if n else None)
        if not -n <= k < n:
            return ("err", "err")
        return ("ok", r.take(k % n, self.t))

    def op_del(self, op, model):
        _, qi, key = op
        key = slice(*key) if isinstance(key, list) else key
        if not model:
            del self.q[qi][key]
            return
        r = self.r[qi]
        n = len(r.items)
        if isinstance(key, int):
            if not -n <= key < n:
                return ("err", "err")
            r.take(key % n, self.t)
            return ("ok",)
        for c in r.ids()[key]:
            r.take(r.pos(c), self.t)
        return ("ok",)

    def op_prio(self, op, model):
        _, qi, ci, prio = op
        if not model:
            return self.cs[ci].priority(self.q[qi], prio)
        r = self.r[qi]
        k = r.pos(ci)
        if k is None:
            return ("err", "err")
        if r.items[k][1] != prio:
            e = r.items.pop(k)
            e[1] = prio
            k = 0
            while k < len(r.items) and r.items[k][1] <= prio:
                k += 1
            r.items.insert(k, e)
        return ("ok", prio)

    def op_clear(self, op, model):
        _, how, qi = op
        if not model:
            self.q[qi].clear() if how else self.q[qi].remove()
            return
        r = self.r[qi]
        while r.items:
            r.take(0, self.t)
        return ("ok",)

    def op_extend(self, op, model):
        _, qi, src, clear = op
        if not model:
            if isinstance(src, list):
                self.q[qi].extend([self.cs[i] for i in src])
            else:
                self.q[qi].extend(self.q[src], clear_source=clear)
            return
        r = self.r[qi]
        if src == qi:
            return "skip"
        ids = src if isinstance(src, list) else self.r[src].ids()
        new = []
        for i in ids:
            if r.pos(i) is None and i not in new:
                new.append(i)
        if len(r.items) + len(new) > r.capacity:
            return "skip"  # not atomic by design
        for i in new:
            r.put(len(r.items), i, r.items[-1][1] if r.items else 0, self.t)
        if clear and not isinstance(src, list):
            s = self.r[src]
            while s.items:
                s.take(0, self.t)
        return ("ok",)

    def op_derive(self, op, model):
        """copy, move and set operations make a new queue, that replaces one of the queues of the machine"""
        _, kind, qi, qj, slot, mon, opform, capflag = op
        if not model:
            a, b = self.q[qi], self.q[qj]
            kw = {"name": "named %d" % slot} if mon and slot % 2 or capflag and kind not in ("copy", "move") else {}
            of = 0 if mon or kw else opform
            if kind == "copy":
                n = a.copy("copied", monitor=mon, copy_capacity=capflag) if not opform and not kw else a.copy(monitor=mon, copy_capacity=capflag, **kw)
                kw = kw or ({} if opform else {"name": "copied"})
            elif kind == "move":
                n = a.move(monitor=mon, copy_capacity=capflag, **kw)
            elif kind == "union":
                n = [lambda: a.union(b, monitor=mon, **kw), lambda: a + b, lambda: a | b, lambda: sum((a, b))][of]()
            elif kind == "intersection":
                n = [lambda: a.intersection(b, monitor=mon, **kw), lambda: a & b][min(of, 1)]()
            elif kind == "difference":
                n = [lambda: a.difference(b, monitor=mon, **kw), lambda: a - b][min(of, 1)]()
            else:
                n = [lambda: a.symmetric_difference(b, monitor=mon, **kw), lambda: a ^ b][min(of, 1)]()
            if kw and n.name() != kw["name"]:
                raise Violation("%s with name=%r gives a queue with the name %r" % (kind, kw["name"], n.name()))
            if n is a or n is b:
                raise Violation("%s gave one of its arguments" % kind)
            self.old = (slot, self.q[slot])
            self.q[slot] = n
            return
        a, b = self.r[qi], self.r[qj]
        new = RQ(self.t, a.capacity if capflag and kind in ("copy", "move") else INF, mon)
        ia, ib = a.ids(), b.ids()
        if kind in ("copy", "move"):
            members = [(c, p) for c, p, _ in a.items]
        elif kind == "union":
            members = [(c, 0) for c in ia + [c for c in ib if c not in ia]]
        elif kind == "intersection":
            members = [(c, 0) for c in ia if c in ib]
        elif kind == "difference":
            members = [(c, p) for c, p, _ in a.items if c not in ib]
        else:
            members = [(c, 0) for c in ia if c not in ib] + [(c, 0) for c in ib if c not in ia]
        for c, p in members:
            new.put(len(new.items), c, p, self.t)
        if kind == "move":
            while a.items:
                a.take(0, self.t)
        self.oldr = self.r[slot]
        self.r[slot] = new
        return ("ok",)

    def retire(self):
        """the replaced queue is emptied, so that only the queues of the machine have members"""
        slot, q = self.old
        ids = [self.nm(c) for c in q]
        if ids != self.oldr.ids():
            raise Violation("replaced queue changed: %r, should be %r" % (ids, self.oldr.ids()))
        q.clear()
        self.old = self.oldr = None

    def op_cap(self, op, model):
        _, how, qi, cap = op
        cap = INF if cap is None else cap
        if not model:
            if how:
                self.q[qi].set_capacity(cap)
            else:
                self.q[qi].capacity.value = cap
            return
        r = self.r[qi]
        r.capacity = cap
        r.cap.tally(self.t, cap)
        r.avail.tally(self.t, cap - len(r.items))
        return ("ok",)

    def op_run(self, op, model):
        if not model:
            self.env.run(op[1])
            return
        self.t += op[1]
        return ("ok",)

    def op_resetnow(self, op, model):
        if not model:
            self.env.reset_now(op[1])
            return
        self.offset = self.t - op[1]
        return ("ok",)

    def op_monitor(self, op, model):
        _, qi, on = op
        if not model:
            self.q[qi].monitor(on)
            return
        r = self.r[qi]
        r.length.monitor(self.t, on)
        r.los.on = on
        return ("ok",)

    def op_resetmon(self, op, model):
        _, qi, on = op
        if not model:
            self.q[qi].reset_monitors() if on is None else self.q[qi].reset_monitors(monitor=on)
            return
        r = self.r[qi]
        r.length.reset(self.t, on)
        r.los.reset(on)
        return ("ok",)

    def op_rate(self, op, model):
        _, which, qi, reset = op
        if not model:
            x = (self.q[qi].arrival_rate if which else self.q[qi].departure_rate)(reset=reset)
            return "nan" if x != x else round(x, 9)
        r = self.r[qi]
        if which:
            if reset:
                r.arr, r.arr0 = 0, self.t
            n, t0 = r.arr, r.arr0
        else:
            if reset:
                r.dep, r.dep0 = 0, self.t
            n, t0 = r.dep, r.dep0
        return ("ok", "nan" if self.t == t0 else round(n / (self.t - t0), 9))

    def op_iter(self, op, model):
        """iterate over a queue (or reversed) while changing it"""
        _, qi, rev, muts = op
        if model:
            return ("ok",)
        q = self.q[qi]
        r = self.r[qi]
        at_start = r.ids()
        always = set(at_start)
        ever = set(at_start)
        seen = []
        delivered = []  # the memberships that were delivered (a component that leaves and enters again is a new member)
        exact = not self.is_store(qi)
        mutated = 0

        def pending():
            rest = [e for e in r.items if not any(e is d for d in delivered)]
            return rest[::-1] if rev else rest

        it = reversed(q) if rev else iter(q)
        for k, c in enumerate(it):
            i = self.nm(c)
            if r.pos(i) is None:
                raise Violation("iteration over queue gave c%d that is not in it" % i)
            if i in seen and i in always:
                raise Violation("iteration over queue gave c%d twice" % i)
            if exact:
                rest = pending()
                if not rest or rest[0][0] != i:
                    raise Violation("iteration over queue gave c%d, where it should give one of %r first" % (i, [e[0] for e in rest]))
            delivered.append(r.items[r.pos(i)])
            seen.append(i)
            if len(seen) > 200:
                raise Violation("iteration does not end")
            for kk, m in muts:
                if kk == k:
                    mutated += 1
                    self.step(m)
                    now = set(r.ids())
                    always &= now
                    ever |= now
        if exact and pending():
            raise Violation("iteration ended without giving %r" % [e[0] for e in pending()])
        if not always <= set(seen) or not set(seen) <= ever:
            raise Violation("iteration over queue gave %r, always present %r, ever present %r" % (seen, sorted(always), sorted(ever)))
        if not mutated and seen != (at_start[::-1] if rev else at_start):
            raise Violation("iteration gave %r, should be %r" % (seen, at_start))
        self.obs("iterations_with_change" if mutated else "iterations")
        if mutated > 1:
            self.obs("iterations_with_several_changes")
        return

    def is_store(self, qi):
        return isinstance(self.q[qi], sim.Store)

    # -- monitors
    def views(self, deep):
        for qi, (q, r) in enumerate(zip(self.q, self.r)):
            ids = r.ids()
            n = len(ids)
            name = "queue %d" % qi

            def need(what, got, want):
                if got != want:
                    raise Violation("%s: %s is %r, should be %r (members %r)" % (name, what, got, want, r.items))

            nm = self.nm
            need("list", [nm(c) for c in q], ids)
            need("len", len(q), n)
            need("length()", q.length(), n)
            need("head", nm(q.head()), ids[0] if n else None)
            need("tail", nm(q.tail()), ids[-1] if n else None)
            need("available_quantity", q.available_quantity(), r.capacity - n)
            need("capacity", q.capacity(), r.capacity)
            need("arrivals", q.number_of_arrivals, r.arr)
            need("departures", q.number_of_departures, r.dep)
            prios = [c.priority(q) for c in q]
            need("priorities", prios, [i[1] for i in r.items])
            need("enter times", [c.enter_time(q) for c in q], [i[2] - self.offset for i in r.items])
            need("index", [q.index(c) for c in q], list(range(n)))
            self.obs("views")
            if any(a > b for a, b in zip(prios, prios[1:])):
                raise Violation("%s not sorted on priority: %r" % (name, prios))
            if not deep:
                continue
            need("reversed", [nm(c) for c in reversed(q)], ids[::-1])
            need("as_list", [nm(c) for c in q.as_list()], ids)
            need("as_set", {nm(c) for c in q.as_set()}, set(ids))
            need("successors", [nm(q.successor(c)) for c in q], ids[1:] + [None] if n else [])
            need("predecessors", [nm(c.predecessor(q)) for c in q], [None] + ids[:-1] if n else [])
            for k in range(-n, n):
                need("[%d]" % k, nm(q[k]), ids[k])
            for sl in (slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1), slice(3, 0, -2), slice(-2, None), slice(1, 3), slice(-3, -1), slice(n // 3, None, 3), slice(None, None, -4), slice(n + 2, -n - 3, -3), slice(-n - 5, n + 5, 5), slice(2, 2)):
                need(str(sl), [nm(c) for c in q[sl]], ids[sl])
            for c in self.cs:
                i = nm(c)
                need("c%d in" % i, c in q, i in ids)
                need("count c%d" % i, (q.count(c), c.count(q)), (ids.count(i),) * 2)
                need("index of c%d" % i, c.index(q), ids.index(i) if i in ids else -1)
                if i in ids:
                    need("component_with_name", q.component_with_name(c.name()) is c, True)
                else:
                    need("component_with_name (not in the queue)", nm(q.component_with_name(c.name())), None)
                need("component_with_name (other name)", [nm(q.component_with_name(x)) for x in (c.name()[:-1], c.name() + "0", c.name().upper(), "")], [None] * 4)
            for k, key in ((n, "high"), (-n - 1, "low")):
                try:
                    q[k]
                except IndexError:
                    pass
                else:
                    raise Violation("%s: index %d accepted for length %d" % (name, k, n))
            for qj, o in enumerate(self.q):
                a, b = set(ids), set(self.r[qj].ids())
                need("comparisons with queue %d" % qj, (q == o, q != o, q < o, q <= o, q > o, q >= o), (a == b, a != b, a < b, a <= b, a > b, a >= b))
        for i, c in enumerate(self.cs):
            want = {k for k, r in enumerate(self.r) if r.pos(i) is not None}
            got = c.queues()
            if len(got) != len(want) or any(self.q[k] not in got for k in want) or c.count() != len(want):
                raise Violation("c%d is in queues %r (count %d), should be %r" % (i, got, c.count(), want))
        if self.env.now() != self.t - self.offset:
            raise Violation("now is %r, should be %r" % (self.env.now(), self.t - self.offset))

    def register(self):
        reg = []
        for q in self.q:
            q.register(reg)
        if len(reg) != len(self.q) or any(a is not b for a, b in zip(reg, self.q)):
            raise Violation("registry is not the list of registered queues")
        self.q[-1].deregister(reg)
        if len(reg) != len(self.q) - 1 or any(a is not b for a, b in zip(reg, self.q)):
            raise Violation("deregister removed another queue")


PRIOS = [0, 0, 1, 1, 2, -1, 0.5, 3, 5, 0, 1, float("inf"), -float("inf")]


def gen(rng, index, tier, stats=False):
    nc = rng.randint(3, 9) if rng.random() < 0.98 else rng.randint(20, 60)
    nq = rng.randint(1, 4)
    queues = []
    for _ in range(nq):
        s = {}
        if rng.random() < 0.4:
            s["cap"] = rng.choice([0, 1, 2, 3, 5, 2.5])
        if rng.random() < 0.25 or nc >= 20:
            k = rng.randint(1 if nc < 20 else nc // 2, nc)
            fill = rng.sample(range(nc), k)
            s["fill"] = fill[:int(s.get("cap", nc))]
        if rng.random() < 0.2:
            s["store"] = True
        if stats and rng.random() < 0.2:
            s["monitor"] = False
        queues.append(s)
    n = rng.randint(10, 60 if tier == "quick" else 150)
    fixed = [None]
    q = lambda: fixed[0] if fixed[0] is not None and rng.random() < 0.75 else rng.randrange(nq)
    c = lambda: rng.randrange(nc)
    idx = lambda: rng.randint(-4, 6) if nc < 20 or rng.random() < 0.3 else rng.randint(-nc, nc)

    def simple():
        k = rng.random()
        if k < 0.30:
            return ["enter", rng.randrange(6), q(), c(), rng.choice(PRIOS) if rng.random() < 0.7 else None]
        if k < 0.36:
            return ["head", rng.randrange(2), q(), c()]
        if k < 0.44:
            return ["rel", rng.randrange(4), q(), c(), c()]
        if k < 0.50:
            return ["insert", q(), c(), rng.randint(-1, 6)]
        if k < 0.66:
            return ["leave", rng.randrange(2), q(), c()]
        if k < 0.74:
            return ["pop", q(), rng.choice([None, None, idx()])]
        if k < 0.86:
            return ["prio", q(), c(), rng.choice(PRIOS)]
        if k < 0.90:
            return ["cap", rng.randrange(2), q(), rng.choice([None, 0, 1, 2, 3, 4, 6])]
        if k < 0.93:
            return ["leaveall", c()]
        if k < 0.96:
            return ["del", q(), rng.choice([idx(), [rng.choice([None, idx()]), rng.choice([None, idx()]), rng.choice([None, 1, 2, -1, 3, -4])]])]
        return ["extend", q(), rng.choice([q(), [c() for _ in range(rng.randint(0, 4))]]), rng.random() < 0.4]

    ops = []
    for _ in range(n):
        k = rng.random()
        if k < (0.35 if stats else 0.12):
            ops.append(["run", rng.choice([0, 0.25, 0.5, 1, 1, 2, 3.25])])
        elif k < (0.42 if stats else 0.14):
            ops.append(rng.choice([["monitor", q(), rng.random() < 0.5], ["resetmon", q(), rng.choice([None, None, True, False])],
                                   ["rate", rng.randrange(2), q(), rng.random() < 0.4], ["rate", rng.randrange(2), q(), False]]))
        elif k < (0.44 if stats else 0.17):
            ops.append(["clear", rng.randrange(2), q()])
        elif k < (0.47 if stats else 0.21):
            ops.append(["derive", rng.choice(["copy", "move", "union", "intersection", "difference", "symmetric_difference"]), q(), q(), q(), rng.random() < (0.8 if stats else 0.3),
                        rng.randrange(4), rng.random() < 0.4])
        elif k < (0.49 if stats else 0.30):
            fixed[0] = q()
            at = rng.randrange(4)
            muts = [[at if rng.random() < 0.5 else rng.randrange(6), simple()] for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 5]))]
            ops.append(["iter", fixed[0], rng.random() < 0.3, muts])
            fixed[0] = None
        elif k < (0.50 if stats else 0.31):
            ops.append(["resetnow", rng.choice([0, 5, -3])])
        else:
            ops.append(simple())
    return {"nc": nc, "queues": queues, "ops": ops}


def execute(case, obs, after, deep):
    m = Machine(case, obs)
    after(m, -1)
    m.views(True)
    for k, op in enumerate(case["ops"]):
        m.step(op)
        if op[0] == "derive":
            m.retire()
        m.views(deep and (k % 3 == 0 or k == len(case["ops"]) - 1))
        after(m, k)
    return m


def shrink(case):
    ops = case["ops"]
    n = len(ops)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            if len(ops[:i] + ops[i + size:]) < n:
                yield dict(case, ops=ops[:i] + ops[i + size:])
        size //= 2
    for i, op in enumerate(ops):
        if op[0] == "iter" and op[3]:
            for j in range(len(op[3])):
                o = list(op)
                o[3] = op[3][:j] + op[3][j + 1:]
                yield dict(case, ops=ops[:i] + [o] + ops[i + 1:])
    for i, s in enumerate(case["queues"]):
        if s:
            yield dict(case, queues=case["queues"][:i] + [{}] + case["queues"][i + 1:])
