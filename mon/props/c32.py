"""C32: exceptions raised by model code"""
import copy

from mon import gen as G
from mon.core import Violation, digest
from mon.kernel import diff, count
from mon.model import World
from mon.real import RealWorld

ID = "C32"
RULE = ("random models in which components raise exceptions of many types at random points (at the start, after a hold, standby, request, wait or store operation); run() has to raise that very exception at that moment; the run is "
        "then continued, once or with other end times, and everything observed about all other components, resources, queues, states and stores is compared with the reference model in which the component goes passive instead")
CASES = {"quick": 4000, "thorough": 40000}
REQUIRED = ["raised", "raised_standby", "raised_hold", "raised_request", "raised_wait", "raised_start", "continued", "other_end", "mode_yield", "mode_yieldless", "log_cont"]
ASSUMPTIONS = ["a component that raised is not touched by others afterwards"]


class Custom(Exception):
    pass


TYPES = [ValueError, TypeError, KeyError, ZeroDivisionError, AttributeError, AssertionError, IndexError, RuntimeError, OSError, Custom, LookupError, NotImplementedError, NameError]

PROFILES = [
    dict(comps=(2, 6), len=(3, 10), runprio=0, noinf=True, ops=dict(hold=5, standby=3, create=0.3, passivate=0.3)),
    dict(comps=(2, 7), len=(3, 10), runprio=0, noinf=True, resources=(1, 2), res_kinds=dict(plain=4, anon=1, first=1), fail=0.3, ops=dict(hold=5, standby=1, request=5, release=2, get=0.5, put=0.5), mainops=dict(rcap=1)),
    dict(comps=(2, 7), len=(3, 10), runprio=0, noinf=True, states=(1, 2), queues=(1, 2), stores=(1, 1), state_values=[False, True, 0, 1], fail=0.3,
         ops=dict(hold=5, standby=1, wait=3, set=3, trigger=1, enter=2, leave=1, from_store=1, to_store=1), mainops=dict(set=1)),
]


def targets_others(op):
    if op[0] in ("enter", "leave", "qprio"):
        return op[2].get("c", -1) not in (-1,)
    return op[0] in ("hold", "passivate", "interrupt", "resume", "cancel", "standby", "activate", "remaining", "request", "get", "put", "wait", "from_store", "to_store", "release", "set_mode", "prio", "refilter") and op[1] != -1


def gen(rng, index, tier):
    c = G.build(rng, PROFILES[index % len(PROFILES)])
    for spec in c["comps"]:
        spec["script"] = [op for op in spec["script"] if not targets_others(op) and op[0] != "reset_now"]
        if rng.random() < 0.5:
            s = spec["script"]
            k = rng.choice([0, len(s)] + list(range(len(s) + 1)) * 2)
            s[k:] = [["boom", -1, {"e": rng.randrange(len(TYPES)), "text": rng.choice(["", "x", "just a message", "just-so"])}]] + s[k:]
    c["main"] = [op for op in c["main"] if not targets_others(op)]
    c["yieldless"] = rng.random() < 0.5
    c["early"] = rng.random() < 0.4 and not any(op[0] in ("standby", "create") for spec in c["comps"] for op in spec["script"])  # a run that ends is an event for standby components
    return c


class Boom(RealWorld):
    def __init__(self, case, obs):
        self.obs = obs
        self.raised = None
        self.dead = set()
        super().__init__(case, yieldless=case["yieldless"])

    def execute(self, c, op):
        if op[0] != "boom":
            return super().execute(c, op)
        self.note("op", c, c.pc)
        prev = c.script[c.pc - 2][0] if c.pc > 1 else "start"
        self.obs("raised_" + prev)
        self.raised = TYPES[op[2]["e"]](op[2]["text"])
        self.when = self.env.now()
        self.who = c
        self.dead.add(c.name())
        raise self.raised

    def run(self, kw):
        env = self.env
        end = None if kw.get("d") is None else env.now() + kw["d"]
        part = wrong = False
        for _ in range(1000):
            self.raised = None
            try:
                if end is None:
                    env.run()
                elif self.case["early"] and not part and self.dead and (mid := (env.now() + end) / 2) < end:
                    # an intermediate end: goes unnoticed, as main only observes
                    part = True
                    env.run(till=mid)
                    self.obs("other_end")
                    wrong = env.now() != mid and (mid, env.now())
                else:
                    env.run(till=end)
            except Exception as e:
                if e is not self.raised:
                    raise Violation("a process raised %r, but run() raises %r" % (self.raised, e)) from e
                if env.now() != self.when or env.current_component() is not self.who:
                    raise Violation("%r was raised at %r, but run() raises it at %r" % (e, self.when, env.now()))
                self.obs("raised")
                part = False
                continue
            if self.raised is not None:
                raise Violation("run() did not raise %r" % self.raised)
            if wrong:
                raise Violation("run(till=%r) ended at %r" % wrong)
            if env.now() == end or end is None:
                break
            if not part:
                raise Violation("run(till=%r) ended at %r" % (end, env.now()))
        else:
            raise Violation("run does not end")
        if self.dead:
            self.obs("continued")
        self.note("runend", env.main(), None)
        self.snap()


def masked(log, dead, peek):
    for e in log:
        if e[0] == "snap":
            yield ("snap", e[1] if peek else 0, e[2]) + tuple(x if x[0] not in dead else x[0] for x in e[3:])
        else:
            yield e


def check(case, obs):
    r = Boom(case, obs)
    r.simulate()
    if r.errors:
        raise Violation("monitor: " + repr(r.errors[0]))
    ref = copy.deepcopy(case)
    for spec in ref["comps"]:
        spec["script"] = [["passivate", -1, {}] if op[0] == "boom" else op for op in spec["script"]]
    m = World(ref)
    m.simulate()
    d = diff(list(masked(r.log, r.dead, not case["early"])), list(masked(m.log, r.dead, not case["early"])))
    if d:
        raise Violation(d)
    count(r.log, obs)
    obs("mode_yieldless" if case["yieldless"] else "mode_yield")
    obs.sig = digest([e for e in r.log if e[0] in ("op", "cont", "exc")])
    obs.nontrivial = bool(r.dead)


def shrink(case):
    return G.shrink_case(case)
