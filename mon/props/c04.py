import contextlib
import io
import os
import re

from mon import gen as G
from mon.kernel import diff, count
from mon.core import REPO, Violation, digest, sim
from mon.real import RealWorld

ID = "C04"
RULE = ("random models with all process interaction calls (holds, requests, waits, stores, standby, interrupts, cancel, failures, preemption, anonymous resources, component generators) "
        "executed with a generator process and with a plain process; complete observation logs and final printed statistics compared; the output (mostly traces) of the sample models of the repository that exist for both modes, for several seeds")
CASES = {"quick": 8000, "thorough": 50000}
REQUIRED = ["log_cont", "log_op", "statistics_compared", "generators", "sample_models"]
ASSUMPTIONS = ["in yield mode the value sent back by from_store is compared only if the component was not disturbed meanwhile"]

BASE = dict(hold=8, holdint=0.3, holdpast=0.2, passivate=1, standby=0.6, cancel=0.3, activate=0.6, oactivate=2, ohold=0.7, opassivate=0.5, ocancel=0.4, interrupt=1, resume=1,
            remaining=0.5, end=0.4, create=0.4, ostandby=0.2)
OPT = {
    "resources": [dict(request=5, release=3, rcap=0.4, orequest=0.3, rrelease=0.2, request0=0.2)],
    "states": [dict(wait=4, set=3, trigger=1, owait=0.3)],
    "stores": [dict(from_store=4, to_store=4, item_leave=0.5, scap=0.3, refilter=0.3, ofrom_store=0.2, oto_store=0.2)],
    "queues": [dict(enter=1.5, leave=1, qpop=0.5)],
}


# sample models of the repository of which there is a version for both modes
SAMPLES = ["Bank, 1 clerk", "Bank, 3 clerks (data components)", "Bank, 3 clerks (resources)", "Bank, 3 clerks (state)", "Bank, 3 clerks (state, prio dynamic)", "Bank, 3 clerks (state, prio)", "Bank, 3 clerks (store)",
           "Bank, 3 clerks, reneging (resources)", "Bank, 3 clerks, reneging (store)", "Blank, 3 clerks, reneging (state)", "Car", "Demo slicing monitors",
           "Dining philosophers", "Gas station", "Lock with resources", "Lock", "MMc with state data component", "demo store"]


def gen(rng, index, tier):
    if index % 160 == 80:
        return {"sample": SAMPLES[index // 160 % len(SAMPLES)], "seed": rng.randrange(10 ** 6)}
    prof = dict(comps=(2, 6), len=(3, 14), fail=0.3, mode=0.1, skip_standby=0.05, ops=dict(BASE),
                mainops=dict(oactivate=2, resume=1, ocancel=0.3, create=0.5), res_kinds=dict(plain=4, first=1, highest=1))
    kinds = rng.sample(sorted(OPT), rng.choice([0, 1, 1, 2, 3]))
    for k in kinds:
        prof[k] = (1, 3)
        prof["ops"].update(OPT[k][0])
    if "resources" in kinds:
        x = rng.random()
        if x < 0.15:
            prof["res_kinds"] = dict(pre=1)
            prof["ops"].pop("orequest")
        elif x < 0.4:
            prof["res_kinds"] = dict(anon=1)
            prof["ops"].update(get=4, put=4)
    case = G.build(rng, prof)
    if rng.random() < 0.3:
        g = {"iat": rng.choice([0.5, 1, 1.5]), "number": rng.randint(1, 5)}
        k = rng.random()
        if k < 0.3:
            g = {"iat": None, "number": rng.randint(1, 4), "duration": 3}
        elif k < 0.5:
            g = {"iat": rng.choice([0.5, 1]), "till": rng.choice([1, 2, 3.25]), "force_at": rng.random() < 0.5}
        elif k < 0.6:
            g = {"iat": 2, "disturbance": [0, 0.5], "number": 3}
        case["gen"] = g
    return case


class GComp(sim.Component):
    def setup(self, rw):
        self.rw = rw
        rw.log.append(("generated", self.env.now(), self.sequence_number(), self.status()))


class GCompYieldless(GComp):
    def process(self):
        self.hold(0.5)
        self.rw.log.append(("generated ran", self.env.now(), self.sequence_number()))


class GCompYield(GComp):
    def process(self):
        yield self.hold(0.5)
        self.rw.log.append(("generated ran", self.env.now(), self.sequence_number()))


def run(case, yieldless, obs):
    w = RealWorld(case, yieldless=yieldless, env_kwargs={"random_seed": 5})
    if "gen" in case:
        g = dict(case["gen"])
        if g.get("disturbance"):
            g["disturbance"] = sim.Uniform(*g["disturbance"])
        sim.ComponentGenerator(GCompYieldless if yieldless else GCompYield, env=w.env, rw=w, **g)
        obs("generators")
    w.simulate()
    stats = []
    for r in w.resources:
        stats.append(r.print_statistics(as_str=True))
    for s in w.states:
        stats.append(s.print_statistics(as_str=True))
    for q in w.stores + w.queues:
        stats.append(q.print_statistics(as_str=True))
    for c in w.comps:
        stats.append(c.status.print_histogram(as_str=True, values=True))
    return w, stats


def sample_output(name, seed):
    path = os.path.join(REPO, "sample models", name + ".py")
    if not os.path.exists(path):
        return None
    with open(path, encoding="utf-8") as f:
        src = f.read()
    src = src.replace("sim.Environment(", "sim.Environment(random_seed=%d, " % seed)
    out = io.StringIO()
    sim.yieldless(True)
    try:
        with contextlib.redirect_stdout(out):
            exec(compile(src, "model", "exec"), {"__name__": "model"})
    finally:
        sim.yieldless(True)
    return re.sub(r"@ *\d+\+?|^ *\d+\+? |0x[0-9a-f]+", "", out.getvalue(), flags=re.M)  # apart from line numbers and addresses


def check_sample(case, obs):
    outs = [sample_output(case["sample"] + ext, case["seed"]) for ext in ("", "_yield")]
    obs.sig = [case["sample"], case["seed"]]
    if None in outs:
        return
    a, b = (o.split("\n") for o in outs)
    if a != b:
        k = next((k for k, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        raise Violation("sample model %s: yieldless shows %r, yield %r" % (case["sample"], a[k:k + 2], b[k:k + 2]))
    obs("sample_models")
    obs("sample_lines", len(a))


def check(case, obs):
    if "sample" in case:
        return check_sample(case, obs)
    a, sa = run(case, False, obs)
    b, sb = run(case, True, obs)
    d = diff(a.log, b.log, "yield", "yieldless")
    if d:
        raise Violation(d)
    if a.errors or b.errors:
        raise Violation("monitor: %r" % (a.errors or b.errors)[0:1])
    for x, y in zip(sa, sb):
        if x != y:
            raise Violation("statistics differ:\nyield\n%s\nyieldless\n%s" % (x, y))
        obs("statistics_compared")
    count(a.log, obs)
    obs.sig = digest(a.log)
    obs.nontrivial = len(a.log) > 20


def shrink(case):
    if "sample" in case:
        return []
    return G.shrink_case(case)
