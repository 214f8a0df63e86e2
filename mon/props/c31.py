"""C31: overviews, reports, registries and the monitor switches of composite objects"""
import contextlib
import io
import math
import os
import random
import re
import shutil
import tempfile

from mon import gen as G
from mon.core import Violation, sim, is_level
from mon.kernel import KernelProp, count
from mon.model import World
from mon.real import RealWorld

ID = "C31"
RULE = ("random models in which, after random operations, print_info of components, queues, stores, resources, states and the environment is parsed and compared with what the accessors and the reference model say at that "
        "moment, print_statistics/print_histograms are compared with the reports of the individual monitors, via return value, stdout and file, overviews of distributions and generators with their parameters, objects are registered and deregistered, and monitors of "
        "composite objects are switched and reset as a group")
CASES = {"quick": 3000, "thorough": 30000}
REQUIRED = ["info_component", "info_queue", "info_resource", "info_state", "info_env", "info_lines", "statistics", "histograms", "outputs", "registries", "switched", "resets", "waits_shown", "requests_shown", "claims_shown", "setups", "dist_info", "generator_info"]
ASSUMPTIONS = ["times in overviews are checked to the three decimals shown", "the texts of headings may change, as long as the words for the kind of section stay"]

PROFILES = [
    dict(comps=(2, 6), len=(4, 12), resources=(1, 3), res_kinds=dict(plain=4, pre=1, anon=2, first=1), mode=0.3, fail=0.3, dec=False,
         ops=dict(hold=5, request=5, release=3, rcap=1, rrelease=0.4, ocancel=0.5, oactivate=0.5, end=0.5, get=0.5, put=0.5), mainops=dict(rcap=1)),
    dict(comps=(2, 6), len=(4, 12), states=(1, 3), state_values=[False, True, 0, 1, "red"], stores=(1, 2), queues=(1, 2), fail=0.3, mode=0.2,
         ops=dict(hold=5, wait=4, set=3, trigger=1, from_store=2, to_store=2, item_leave=0.3, scap=0.5, enter=3, leave=1, qpop=0.5, qprio=0.5, end=0.3, ocancel=0.2, setmode=0.4), mainops=dict(set=1, scap=1)),
    dict(comps=(2, 5), len=(4, 12), resources=(1, 2), states=(1, 2), queues=(1, 2), fail=0.3,
         ops=dict(hold=5, standby=1, request=2, release=1, wait=2, set=2, enter=2, leave=1, reset_now=0.5, interrupt=1, resume=1, create=0.3), mainops=dict(set=1)),
]


def gen(rng, index, tier):
    if index % 50 == 8:
        return {"setup": [[rng.randrange(7), [rng.choice([0, 1, "x", None, 2.5]) for _ in range(rng.randrange(3))]] for _ in range(6)]}
    if index % 25 == 12:
        return gen_dist(rng)
    if index % 10 == 9:
        return {"registry": [[rng.choice("rdg"), rng.randrange(5), rng.randrange(3), rng.randrange(2)] for _ in range(rng.randint(3, 15))], "seed": rng.randrange(10 ** 6)}
    c = G.build(rng, PROFILES[index % len(PROFILES)])
    c["yieldless"] = rng.random() < 0.5
    c["vseed"] = rng.randrange(10 ** 6)
    c["p"] = rng.choice([0.2, 0.5, 1])
    return c


def bad(what, *a):
    raise Violation("report: " + what + ": " + ", ".join(repr(x) for x in a))


def num(s):
    return float(s.strip())


def time_ok(shown, t):
    v = num(shown)
    return v == t if math.isinf(t) else abs(v - t) <= 0.00051


def parse(txt):
    """(head, {key: value}, [(heading, [(name, rest)])])"""
    lines = txt.split("\n")
    while lines and not lines[-1].strip():
        lines.pop()
    keys, secs = {}, []
    for l in lines[1:]:
        if l.startswith("    "):
            if not secs:
                bad("line without heading", l, txt)
            m = re.match(r"    (.*?)\s+((?:enter_time|quantity|value).*)$", l)
            if not m:
                bad("line not understood", l, txt)
            secs[-1][1].append((m.group(1), m.group(2)))
        else:
            m = re.match(r"\s*([a-z_]+)=(.*)$", l)
            if m:
                if m.group(1) in keys:
                    bad("shown twice", m.group(1), txt)
                keys[m.group(1)] = m.group(2)
            else:
                secs.append((l.strip(), []))
    return lines[0], keys, secs


def section(secs, *words):
    out = [s for s in secs if all(w in s[0] for w in words)]
    if len(out) > 1:
        bad("section twice", words)
    return out[0][1] if out else None


def quantity(rest, what="quantity"):
    m = re.search(what + r"\s*=?\s*(\S+)", rest)
    if not m:
        bad("not shown", what, rest)
    return m.group(1)


def vtext(cond):
    return str(cond[1])


def short(x):
    """names are shown in a column of 20 characters"""
    return x.name()[:20].rstrip()


class Rep(RealWorld):
    def __init__(self, case, obs):
        self.obs = obs
        self.vrng = random.Random(case["vseed"])
        self.ready = False
        self.waited = {}
        super().__init__(case, yieldless=case["yieldless"])
        self.ready = True

    def op_wait(self, who, ti, kw):
        c = self.target(who, ti)
        self.waited[c] = kw
        return super().op_wait(who, ti, kw)

    def snap(self):
        super().snap()
        if not self.ready or self.vrng.random() > self.case["p"]:
            return
        n = len(self.log)
        for c in self.comps + self.items[-2:]:
            if self.vrng.random() < 0.6:
                self.comp(c)
        for q in self.all_queues():
            if self.vrng.random() < 0.4:
                self.queue(q)
        for r in self.resources:
            self.resource(r)
        for s in self.states:
            self.state(s)
        self.envinfo()
        if self.vrng.random() < 0.25:
            self.reports()
        if len(self.log) != n:
            bad("printing made something run")

    def all_queues(self):
        out = list(self.queues) + list(self.stores)
        for r in self.resources:
            out += [r.requesters(), r.claimers()]
        for s in self.states:
            out.append(s.waiters())
        for s in self.stores:
            out += [s.from_store_requesters(), s.to_store_requesters()]
        return out

    def text(self, f, *a, **kw):
        s = f(*a, as_str=True, **kw)
        if not isinstance(s, str):
            bad("as_str gives no string", f)
        if self.vrng.random() < 0.05:
            b1, b2 = io.StringIO(), io.StringIO()
            with contextlib.redirect_stdout(b1):
                x = f(*a, **kw)
            with contextlib.redirect_stdout(b2):
                b3 = io.StringIO()
                y = f(*a, file=b3, **kw)
            if x is not None or y is not None or b2.getvalue() or b1.getvalue().rstrip("\n") != s.rstrip("\n") or b3.getvalue().rstrip("\n") != s.rstrip("\n"):
                bad("printed to stdout or file is not what is returned", s, b1.getvalue(), b3.getvalue())
            self.obs("outputs")
        return s

    def members(self, sec, want, txt):
        if [n for n, _ in sec or []] != [short(c) for c in want]:
            bad("shows other members", [c.name() for c in want], txt)
        self.obs("info_lines", len(want))

    def queue(self, q):
        txt = self.text(q.print_info)
        head, keys, secs = parse(txt)
        if keys.get("name") != q.name():
            bad("name", q.name(), txt)
        sec = section(secs, "component(s)")
        cs = list(q)
        self.members(sec, cs, txt)
        for c, (_, rest) in zip(cs, sec or []):
            if not time_ok(quantity(rest, "enter_time"), c.enter_time(q)) or num(quantity(rest, "priority")) != c.priority(q):
                bad("shows wrong enter time or priority", c.name(), c.enter_time(q), c.priority(q), txt)
        self.obs("info_queue")

    def comp(self, c):
        txt = self.text(c.print_info)
        head, keys, secs = parse(txt)
        want = {"name": c.name(), "class": type(c).__name__, "status": c.status(), "mode": c.mode(), "suppress_trace": str(c.suppress_trace())}
        for k, v in want.items():
            if keys.get(k) != str(v):
                bad("shows wrong " + k, v, txt)
        for k, v in (("mode_time", c.mode_time()), ("creation_time", c.creation_time()), ("scheduled_time", c.scheduled_time())):
            if not time_ok(keys[k], v):
                bad("shows wrong " + k, v, txt)
        qs = c.queues()
        sec = section(secs, "member of queue")
        if sorted(n for n, _ in sec or []) != sorted(short(q) for q in qs):
            bad("shows other queues", [q.name() for q in qs], txt)
        for n, rest in sec or []:
            if len([q for q in qs if short(q) == n]) > 1:
                continue
            q = [q for q in qs if short(q) == n][0]
            if not time_ok(quantity(rest, "enter_time"), c.enter_time(q)) or num(quantity(rest, "priority")) != c.priority(q):
                bad("shows wrong enter time or priority", n, c.enter_time(q), c.priority(q), txt)
        for word, rs, qty in (("requesting", c.requested_resources(), c.requested_quantity), ("claiming", c.claimed_resources(), c.claimed_quantity)):
            sec = section(secs, word, "resource") or []
            if sorted((n, num(quantity(rest))) for n, rest in sec) != sorted((r.name(), qty(r)) for r in rs):
                bad("shows wrong " + word, [(r.name(), qty(r)) for r in rs], txt)
            if sec:
                self.obs("requests_shown" if word == "requesting" else "claims_shown")
        ws = [s.name() for s in self.states if c in s.waiters()]
        sec = section(secs, "waiting for")
        if (sec is not None) != bool(ws) or {n for n, _ in sec or []} != set(ws):
            bad("shows wrong waits", ws, txt)
        if sec is not None and c in self.waited:
            kw = self.waited[c]
            heading = [h for h, s in secs if "waiting for" in h][0]
            word = " condition " if kw.get("for") else " all " if kw.get("all") else " any "
            if word not in heading + " ":
                bad("shows wrong kind of wait", kw, txt)
            if not kw.get("for"):
                if [n for n, _ in sec] != [self.states[si].name() for si, _, _ in kw["ss"]]:
                    bad("shows other states", kw, txt)
                for (si, cond, _), (n, rest) in zip(kw["ss"], sec):
                    if cond[0] == "v" and cond[1] != 1 and quantity(rest, "value") != vtext(cond):
                        bad("shows wrong value", kw, txt)
            self.obs("waits_shown")
        self.obs("info_component")

    def resource(self, r):
        txt = self.text(r.print_info)
        head, keys, secs = parse(txt)
        if keys["name"] != r.name() or num(keys["capacity"]) != r.capacity() or num(keys["claimed_quantity"]) != r.claimed_quantity():
            bad("name, capacity or claimed quantity", r.name(), r.capacity(), r.claimed_quantity(), txt)
        cs = list(r.requesters())
        sec = section(secs, "requesting component(s)")
        self.members(sec, cs, txt)
        if [num(quantity(rest)) for _, rest in sec or []] != [c.requested_quantity(r) for c in cs]:
            bad("requested quantities", txt)
        cs = list(r.claimers())
        sec = section(secs, "claimed by:")
        self.members(sec, cs, txt)
        if [num(quantity(rest)) for _, rest in sec or []] != [c.claimed_quantity(r) for c in cs]:
            bad("claimed quantities", txt)
        self.obs("info_resource")

    def state(self, s):
        txt = self.text(s.print_info)
        head, keys, secs = parse(txt)
        if keys["name"] != s.name() or keys["value"] != str(s.get()):
            bad("name or value", s.name(), s.get(), txt)
        cs = list(s.waiters())
        sec = section(secs, "waiting component(s)")
        self.members(sec, cs, txt)
        for c, (n, rest) in zip(cs, sec or []):
            kw = self.waited.get(c)
            if kw and not kw.get("for"):
                vals = [vtext(cond) if cond[0] == "v" and cond[1] != 1 else None for si, cond, _ in kw["ss"] if self.states[si] is s]
                if None not in vals and [v.strip() for v in rest.split(":", 1)[1].split(",")] != vals:
                    bad("shows wrong values", vals, txt)
        self.obs("info_state")

    def envinfo(self):
        env = self.env
        txt = self.text(env.print_info)
        head, keys, secs = parse(txt)
        if keys["name"] != env.name() or not time_ok(keys["now"], env.now()) or keys["current_component"] != env.current_component().name() or keys["trace"] != str(env.trace()):
            bad("environment", env.now(), env.current_component().name(), txt)
        self.obs("info_env")

    # ------------------------------------------------------------------ reports
    def group(self, x):
        q = lambda q: [q.length, q.length_of_stay]
        if isinstance(x, sim.Queue):
            return q(x)
        if isinstance(x, sim.Resource):
            return q(x.requesters()) + q(x.claimers()) + [x.capacity, x.available_quantity, x.claimed_quantity, x.occupancy]
        if isinstance(x, sim.State):
            return q(x.waiters()) + [x.value]
        return [x.status, x.mode]

    def reports(self):
        now = self.env.now()
        for x in self.queues + self.stores + self.resources + self.states:
            ms = self.group(x)
            if [id(m) for m in x.all_monitors()] != [id(m) for m in ms]:
                bad("all_monitors", x.name(), [m.name() for m in x.all_monitors()])
            txt = self.text(x.print_statistics)
            lines = [l.rstrip() for l in txt.split("\n")]
            if x.name() not in lines[0] or abs(num(lines[0].split()[-1]) - now) > 0.00051:
                bad("heading", lines[0], x.name(), now)
            pos = 0
            for m in ms:
                want = [l.strip() for l in m.print_statistics(as_str=True, show_header=False, show_legend=False, do_indent=False).split("\n") if l.strip()]
                want[0] = re.sub(r"\s+", " ", want[0])
                have = [re.sub(r"\s+", " ", l.strip()) for l in lines]
                for w in want:
                    w = re.sub(r"\s+", " ", w)
                    while pos < len(have) and w not in have[pos]:
                        pos += 1
                    if pos == len(have):
                        bad("line of %s not (or not in order) in the statistics of %s" % (m.name(), x.name()), w, txt)
                    pos += 1
            self.obs("statistics")
            ex = self.vrng.sample(ms, self.vrng.choice([0, 0, 1, 2]))
            kw = {} if self.vrng.random() < 0.7 else {"graph_scale": self.vrng.choice([10, 40, 100])}
            qx = []
            if isinstance(x, (sim.Resource, sim.State)) and self.vrng.random() < 0.3:  # a queue as a whole
                qx = [self.vrng.choice([x.waiters()] if isinstance(x, sim.State) else [x.requesters(), x.claimers()])]
            txt = self.text(x.print_histograms, exclude=self.vrng.choice([list, tuple])(ex + qx), **kw)
            gone = ex + [m for q in qx for m in (q.length, q.length_of_stay)]
            want = [m.print_histogram(as_str=True, **kw) for m in ms if not any(m is e for e in gone)]
            if re.sub(r"\s+", " ", txt).strip() != re.sub(r"\s+", " ", " ".join(want)).strip():
                bad("histograms of %s (without %r) are not those of its monitors" % (x.name(), [m.name() for m in ex]), txt)
            self.obs("histograms")
        for x in self.queues + self.resources + self.states + self.comps:
            k = self.vrng.random()
            ms = self.group(x)
            if k < 0.15 and not isinstance(x, sim.Component):
                on = self.vrng.random() < 0.5
                x.monitor(on)
                if [m.monitor() for m in ms] != [on] * len(ms):
                    bad("monitor(%s) of %s leaves" % (on, x.name()), [(m.name(), m.monitor()) for m in ms])
                self.obs("switched")
            elif k < 0.35:
                on = self.vrng.choice([None, None, True, False])
                if self.vrng.random() < 0.4:
                    m = self.vrng.choice(ms)  # the monitors may have been switched individually
                    m.monitor(not m.monitor())
                was = [m.monitor() for m in ms]
                a = (on,) if on is not None and self.vrng.random() < 0.5 else ()
                kw = {} if a or on is None else {"monitor": on}
                so = self.vrng.random() < 0.15
                if so:
                    x.reset_monitors(*a, stats_only=True, **kw)
                    if [m.stats_only() for m in ms] != [True] * len(ms) or any(m.monitor() and not is_level(m) and m.number_of_entries() for m in ms):
                        bad("reset_monitors(stats_only=True) of %s leaves" % x.name(), [(m.name(), m.stats_only()) for m in ms])
                    x.reset_monitors(*a, stats_only=False, **kw)
                    if any(m.stats_only() for m in ms):
                        bad("reset_monitors(stats_only=False) of %s leaves" % x.name(), [(m.name(), m.stats_only()) for m in ms])
                else:
                    x.reset_monitors(*a, **kw)
                for m, w in zip(ms, was):
                    if m.monitor() != (w if on is None else on):
                        bad("reset_monitors(%r) of %s leaves %s" % (on, x.name(), m.name()), m.monitor())
                    if m.monitor() and (is_level(m) and (len(m.xt()[0]) != 2 or m.duration() != 0) or not is_level(m) and m.number_of_entries() != 0):
                        bad("reset_monitors of %s does not reset %s" % (x.name(), m.name()), m.xt())
                self.obs("resets")


def gen_dist(rng):
    a, b, c = sorted(rng.choice([1, 2, 3, 4, 5.5, 7.25, 10]) * k for k in (1, 2, 3))
    return {"dist": rng.choice(sorted(DISTS)), "p": [a, b, c], "unit": rng.choice([None, "hours", "minutes", "days"]), "gen": rng.choice(["iat", "iatd", "spread", "moments", "none"]), "run": rng.choice([0, 1, 3.5, 20]),
            "mode": rng.choice(["", "m"]), "st": rng.random() < 0.5, "yieldless": rng.random() < 0.5, "n": rng.randint(2, 6)}


# class -> (arguments, {label: (value, with unit)})
DISTS = {
    "Exponential": lambda a, b, c: ((a,), {"mean": (a, " "), "rate (lambda)": (1 / a, " /")}),
    "Exponential_rate": lambda a, b, c: ({"rate": a}, {"mean": (1 / a, " "), "rate (lambda)": (a, " /")}),
    "Normal": lambda a, b, c: ((b, a), {"mean": (b, " "), "standard_deviation": (a, " "), "coefficient_of_variation": (a / b, "")}),
    "Normal_cv": lambda a, b, c: ({"mean": b, "coefficient_of_variation": 0.5}, {"mean": (b, " "), "standard_deviation": (b / 2, " "), "coefficient_of_variation": (0.5, "")}),
    "IntUniform": lambda a, b, c: ((int(a), int(c)), {"lowerbound": (int(a), " "), "upperbound": (int(c), " ")}),
    "Uniform": lambda a, b, c: ((a, c), {"lowerbound": (a, " "), "upperbound": (c, " ")}),
    "Triangular": lambda a, b, c: ((a, c, b), {"low": (a, " "), "high": (c, " "), "mode": (b, " ")}),
    "Constant": lambda a, b, c: ((a,), {"value": (a, " ")}),
    "Poisson": lambda a, b, c: ((a,), {"mean (lambda)": (a, "")}),
    "Weibull": lambda a, b, c: ((a, b), {"scale (alpha or k)": (a, " "), "shape (beta or lambda)": (b, "")}),
    "Gamma": lambda a, b, c: ((a, b), {"shape (k)": (a, ""), "scale (teta)": (b, " "), "rate (beta)": (1 / b, None)}),
    "Beta": lambda a, b, c: ((a, b), {"alpha": (a, ""), "beta": (b, "")}),
    "Erlang": lambda a, b, c: ((int(a), b), {"shape (k)": (int(a), ""), "rate (lambda)": (b, None), "scale (mu)": (1 / b, None)}),
}
NOUNIT = ("Poisson", "Beta")


def check_dist(case, obs):
    """overviews of distributions and generators show the actual parameters"""
    env = sim.Environment(yieldless=case["yieldless"], time_unit="minutes")
    a, b, c = case["p"]
    args, want = DISTS[case["dist"]](a, b, c)
    kw = {}
    name = case["dist"].split("_")[0]
    if case["unit"] and name not in NOUNIT:
        kw["time_unit"] = case["unit"]
    cls = getattr(sim, name)
    d = cls(**args, **kw) if isinstance(args, dict) else cls(*args, **kw)
    out = io.StringIO()
    txt = d.print_info(as_str=True)
    with contextlib.redirect_stdout(out):
        d.print_info()
    if out.getvalue().rstrip("\n") != txt.rstrip("\n"):
        bad("printed is not what is returned", txt, out.getvalue())
    lines = txt.split("\n")
    if name not in lines[0]:
        bad("overview of %s starts with" % name, lines[0])
    for label, (v, unit) in want.items():
        found = [l for l in lines[1:] if l.strip().startswith(label)]
        if len(found) != 1:
            bad("%s of %s is shown %d times" % (label, name, len(found)), txt)
        shown = found[0].strip()[len(label):].lstrip("=").split(" ", 1)
        if abs(float(shown[0]) - v) > 1e-9 * max(1, abs(v)):
            bad("%s of %s" % (label, name), v, txt)
        if unit and kw and (" " + shown[1] if len(shown) > 1 else "").rstrip() != unit + case["unit"]:
            bad("unit of %s of %s" % (label, name), case["unit"], txt)
    obs("dist_info")

    # generator
    class Made(sim.Component):
        def setup(self):
            if case["st"]:
                g.set_mode("k%d" % self.sequence_number())

        def process(self):
            yield self.hold(1)

    if case["yieldless"]:
        def process(self):
            self.hold(1)
        Made.process = process
    kind = case["gen"]
    gkw = {"iat": dict(iat=1.5, number=case["n"]), "iatd": dict(iat=sim.Constant(2), till=9), "spread": dict(till=10, number=case["n"]), "moments": dict(moments=[1, 4, 6]), "none": dict(iat=1, number=0)}[kind]
    g = sim.ComponentGenerator(Made, generator_name="gg", suppress_trace=case["st"], **gkw)
    for t in (0, case["run"]):
        env.run(t)
        head, keys, secs = parse(g.print_info(as_str=True))
        for k, v in {"name": g.name(), "iat": repr(gkw.get("iat")), "suppress_trace": str(case["st"]), "status": g.status(), "mode": g.mode(), "suppress_pause_at_step": str(g.suppress_pause_at_step())}.items():
            if keys.get(k) != str(v):
                bad("generator shows wrong " + k, v, keys)
        if "class of components=Made" not in g.print_info(as_str=True):
            bad("generator shows another class", g.print_info(as_str=True))
        for k, v in (("mode_time", g.mode_time()), ("creation_time", g.creation_time()), ("scheduled_time", g.scheduled_time())):
            if not time_ok(keys[k], v):
                bad("generator shows wrong " + k, v, keys)
        obs("generator_info")
    obs.sig = repr(case)


def check_registry(case, obs):
    env = sim.Environment(yieldless=True)
    made = {}

    def get(kind, i):
        if (kind, i) not in made:
            cls = [sim.Component, sim.Queue, sim.Resource, sim.State, sim.Monitor][kind]
            made[kind, i] = cls("x%d" % i, env=env)
        return made[kind, i]
    regs = [[], []]
    want = [[], []]
    for op, kind, i, k in case["registry"]:
        x = get(kind, i)
        other = any(x is y for y in want[k])
        f = x.register if op == "r" else x.deregister
        should = other if op == "r" else not other
        if op == "g":
            continue
        try:
            r = f(regs[k])
            raised = False
        except (ValueError, TypeError):
            raised = True
        if raised != should:
            raise Violation("registry: %s of %s %s" % (op, x.name(), "raises" if raised else "does not raise"))
        if not raised:
            if r is not x:
                raise Violation("registry: register does not return the object")
            want[k] = want[k] + [x] if op == "r" else [y for y in want[k] if y is not x]
        for a, b in zip(regs, want):
            if [id(y) for y in a] != [id(y) for y in b]:
                raise Violation("registry: contains %r instead of %r" % (a, b))
        obs("registries")
    for kind in range(5):
        try:
            get(kind, 0).register("no list")
        except (TypeError, ValueError):
            pass
        else:
            raise Violation("registry: a string is accepted as registry")
    obs.sig = repr(case["registry"])


def check_setup(case, obs):
    """setup() gets exactly the extra keyword arguments, once, when the object is complete"""
    env = sim.Environment(yieldless=True)
    calls = []

    def make(base):
        class Sub(base):
            def setup(self, **kwargs):
                calls.append((self, (), kwargs, self.name(), getattr(self, "env", env)))
        return Sub
    bases = [sim.Component, sim.Queue, sim.Store, sim.Resource, sim.State, sim.Monitor, sim.Environment]
    for k, extra in case["setup"]:
        del calls[:]
        kw = {"v%d" % i: x for i, x in enumerate(extra)}
        cls = make(bases[k])
        if k == 6:
            x = cls(yieldless=True, **kw)
            env2 = x
        else:
            x = cls("thing.", env=env, **kw)
            env2 = env
        if len(calls) != 1 or calls[0][0] is not x or calls[0][1] or calls[0][2] != kw or calls[0][3] != x.name() or calls[0][4] is not env2:
            raise Violation("setup of %s got %r instead of %r" % (bases[k].__name__, calls, kw))
        obs("setups")
    class Gen(sim.Component):
        def setup(self, **kwargs):
            calls.append((self, kwargs))
    del calls[:]
    sim.ComponentGenerator(Gen, iat=1, number=3, env=env, a=1, b="x")
    env.run(10)
    if [k for _, k in calls] != [{"a": 1, "b": "x"}] * 3:
        raise Violation("setup of generated components got %r" % (calls,))
    obs.sig = repr(case["setup"])


def check(case, obs):
    if "setup" in case:
        return check_setup(case, obs)
    if "registry" in case:
        return check_registry(case, obs)
    if "dist" in case:
        return check_dist(case, obs)
    r = Rep(case, obs)
    r.simulate()
    if r.errors:
        raise Violation("monitor: " + repr(r.errors[0]))
    m = World(case)
    m.simulate()
    from mon.kernel import diff
    d = diff(r.log, m.log)
    if d:
        raise Violation(d)
    count(r.log, obs)
    obs.sig = repr([e for e in r.log if e[0] in ("op", "cont", "exc")])
    obs.nontrivial = len(r.log) > 20


def shrink(case):
    if "dist" in case:
        return []
    if "setup" in case:
        return [dict(case, setup=case["setup"][:k] + case["setup"][k + 1:]) for k in range(len(case["setup"]))]
    if "registry" in case:
        return [dict(case, registry=case["registry"][:k] + case["registry"][k + 1:]) for k in range(len(case["registry"]))]
    return G.shrink_case(case)
