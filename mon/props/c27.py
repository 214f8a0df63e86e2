"""the trace as a witness: everything that can be observed is reconstructed from the trace lines only"""
import contextlib
import re

from mon import gen as G
from mon.core import Violation, sim
from mon.kernel import diff, count
from mon.model import SUSPENDING, World
from mon.real import RealWorld

ID = "C27"
RULE = ("random models traced to a file or to stdout; every trace line is put on one timeline with the independently recorded resumptions and snapshots: 'current' lines must be the resumptions (time, component, "
        "order, once), and statuses, scheduled times, queue contents, claims, requesters, state values and created components reconstructed from the lines alone must equal every snapshot; two more executions with "
        "trace switched on and off (trace() and suppress_trace()) at random operations and with suppressed components must give exactly the corresponding subset of the lines; the traced run itself is compared "
        "with the reference model")
CASES = {"quick": 1600, "thorough": 50000}
REQUIRED = ["lines", "resumptions", "statuses", "queue_contents", "store_contents", "claims", "state_values", "toggled_lines", "suppressed_lines", "scheduled_times", "user_lines", "standby_hidden", "creations"]
ASSUMPTIONS = ["line numbers are not checked", "direct release of anonymous resources and capacity changes are not traced by design"]

PROFILES = [
    dict(comps=(2, 5), len=(4, 14), mode=0.3, ops=dict(hold=6, passivate=0.7, standby=1, oactivate=1.5, ohold=0.5, opassivate=0.5, ocancel=0.4, interrupt=1, resume=1.2, setmode=0.3, end=0.4,
                                                       remaining=0.5, create=0.5, cancel=0.3, activate=0.5, nop=1, stop=0.1, holdint=0.2),
         mainops=dict(oactivate=1, interrupt=1, resume=1, create=0.5, nop=0.5)),
    dict(comps=(2, 6), len=(4, 12), resources=(1, 3), res_kinds=dict(plain=4, pre=1, anon=2, first=1), fail=0.3,
         ops=dict(hold=5, request=5, release=3, rcap=1, rrelease=0.4, ocancel=0.5, oactivate=0.5, end=0.5, nop=0.5), mainops=dict(rcap=1)),
    dict(comps=(2, 6), len=(4, 12), states=(1, 2), stores=(1, 2), queues=(1, 2), fail=0.3,
         ops=dict(hold=5, wait=2, set=3, trigger=1, from_store=2, to_store=2, item_leave=0.3, scap=0.5, enter=2, leave=2, qpop=0.5, qprio=0.3, end=0.3, ocancel=0.2, nop=0.5), mainops=dict(set=1, scap=1)),
    dict(comps=(2, 5), len=(4, 12), resources=(1, 2), states=(1, 1), queues=(1, 1), fail=0.3,
         ops=dict(hold=5, standby=2, request=2, release=1, wait=1, set=2, enter=2, leave=2, reset_now=0.4, nop=0.5, create=0.3, stop=0.2), mainops=dict(set=1, nop=1)),
]


def gen(rng, index, tier):
    p = PROFILES[index % len(PROFILES)]
    if tier == "thorough" and rng.random() < 0.5:
        p = dict(p, comps=(p["comps"][0], p["comps"][1] + 3), len=(4, 24))
    c = G.build(rng, p)
    c["yieldless"] = rng.random() < 0.5
    c["stdout"] = rng.random() < 0.3
    c["linenumbers"] = rng.random() < 0.2
    c["hide_standby"] = rng.random() < 0.5
    c["mask"] = rng.getrandbits(40)
    c["quiet"] = rng.getrandbits(12)
    return c


def shrink(case):
    for c in G.shrink_case(case):
        yield c
    for k in ("stdout", "linenumbers"):
        if case[k]:
            yield dict(case, **{k: False})


class Sink:
    def __init__(self):
        self.lines = []  # (position in log, operation number, hidden by suppress_trace, current component, text)
        self.world = None

    def write(self, s):
        if s == "\n" or not s:
            return
        w = self.world
        cur = getattr(getattr(w, "env", None), "_current_component", None)
        for line in s.split("\n"):
            if line:
                self.lines.append((len(w.log), w.period, w.wrapped, cur.name() if cur is not None and hasattr(cur, "_name") else None, line))

    def flush(self):
        pass


class TraceWorld(RealWorld):
    """mask: bit n%40 tells whether trace is on during operation n; quiet: bit i%12 tells whether component i is suppressed"""

    def __init__(self, case, sink, toggle=False, quiet=False):
        self.period = 0
        self.wrapped = False
        self.sink = sink
        self.toggle = toggle
        self.quiet = quiet
        sink.world = self
        self.target_ = True if case["stdout"] else sink
        self.setup_done = False
        super().__init__(case, case["yieldless"], {"trace": self.target_})

    @property
    def env(self):
        return self._env

    @env.setter
    def env(self, e):  # directly after creation of the environment
        self._env = e
        if not self.case["linenumbers"]:
            e.suppress_trace_linenumbers(True)
        if self.toggle or self.quiet or not self.case["hide_standby"]:
            e.suppress_trace_standby(False)

    def on(self):
        return bool(self.case["mask"] >> (self.period % 40) & 1)

    def create(self, spec):
        n = len(self.comps)
        c = super().create(spec)
        if self.quiet and self.case["quiet"] >> (n % 12) & 1:
            c.suppress_trace(True)
        return c

    def execute(self, c, op):
        self.period += 1
        if self.toggle:
            self.env.trace(self.target_ if self.on() else False)
        external = op[0] not in SUSPENDING or op[1] >= len(self.comps) or self.target(c, op[1]) is not c
        if external and self.case["mask"] >> ((self.period + 7) % 40) & 3 == 0:
            self.wrapped = True
            if self.toggle:
                before = self.env.trace()
                with self.env.suppress_trace():
                    r = super().execute(c, op)
                if self.env.trace() is not before:
                    raise Violation("trace is %r after suppress_trace, was %r" % (self.env.trace(), before))
            else:
                r = super().execute(c, op)
            self.wrapped = False
            return r
        return super().execute(c, op)

    def op_nop(self, who, ti, kw):
        self.env.print_trace("", "", "user line", "number %d" % self.period)


def traced(case, **kw):
    sink = Sink()
    with contextlib.redirect_stdout(sink) if case["stdout"] else contextlib.nullcontext():
        w = TraceWorld(case, sink, **kw)
        w.simulate()
    return w, sink.lines


NUM = r"(-?[0-9.]+(?:e-?\d+)?|-?inf)"
RX = [(k, re.compile(v)) for k, v in [
    ("create", r"^(\S+) create( data component)?\s*(.*)$"),
    ("honor", r"^(\S+) (request honor|wait honor|from_store \(|to_store \().*?scheduled for " + NUM),
    ("ask", r"^(\S+) (request|wait|wait_for|request from_store|request to_store)(?: \+\S+)?\s+scheduled for " + NUM),
    ("sched", r"^(\S+) (activate|hold|run|set remaining_duration|remaining_duration)(?: \+\S+)?\s+(?:scheduled for " + NUM + r"|ends on no events left)"),
    ("holdint", r"^(\S+) hold-interrupt"),
    ("passivate", r"^(\S+) passivate(?:\s|$)"),
    ("interrupt", r"^(\S+) interrupt(?:\.(\d+))?(?:\s|$)"),
    ("resume", r"^(\S+) resume \((\w+)(?:\.(\d+))?\)"),
    ("cancelled", r"^cancel (?!\()(\S+)"),
    ("standby", r"^standby(?:\s|$)"),
    ("ended", r"^(?!run)(\S+) ended(?:\s|$)"),
    ("enter", r"^(\S+)\s+enter (\S+)$"),
    ("leave", r"^(\S+)\s+leave (\S+)$"),
    ("request", r"^(\S+)\s+(request|put \(request\)|get \(request\)) " + NUM + r" (?:from|to) (\S+) priority=" + NUM),
    ("claim", r"^(\S+)\s+claim " + NUM + r" from (\S+)"),
    ("release", r"^(\S+)\s+release " + NUM + r" from (\S+)"),
    ("bumped", r"^(\S+)\s+bumped from (\S+) by (\S+) \(release " + NUM + r"\)"),
    ("failed", r"^(\S+)\s+(request|wait|from_store|to_store) failed$"),
    ("state", r"^(\S+) (set|reset)\s+value = (.*)$"),
    ("trigger", r"^(\S+) trigger\s+value = (.*) --> (.*) allow (.*) components$"),
    ("reset", r"^now reset to " + NUM + r"\s+\(all times are reduced by " + NUM + r"\)"),
    ("user", r"^user line\s+number (\d+)$"),
    ("current", r"^current( \(standby\))?$"),
]]


def parse(line):
    t, comp, rest = line[7:17].strip(), line[18:38].strip(), line[39:].strip()
    for k, rx in RX:
        m = rx.match(rest)
        if m:
            return k, t, comp, m.groups()
    return None, t, comp, (rest,)


def num(s):
    return float(s)


def check(case, obs):
    m = World(case)
    m.simulate()
    w, lines = traced(case)
    d = diff(w.log, m.log)
    if d:
        raise Violation("traced run: " + d)
    count(w.log, obs)
    reconstruct(case, obs, w, lines)
    text = lambda x: x[4]

    # the same run with everything shown, once with trace switched on and off, and once with suppressed components
    shown = lines if not case["hide_standby"] else traced(dict(case, hide_standby=False))[1]
    for kind, kw in (("toggled", {"toggle": True}), ("suppressed", {"quiet": True})):
        w2, got = traced(case, **kw)
        d = diff(w2.log, w.log, kind, "traced")
        if d:
            raise Violation("run with %s trace: %s" % (kind, d))
        if kind == "toggled":
            want = [x for x in shown if x[1] == 0 or (case["mask"] >> (x[1] % 40) & 1 and not x[2])]
        else:
            q = {c.name() for i, c in enumerate(w2.comps) if case["quiet"] >> (i % 12) & 1}
            want = [x for x in shown if x[3] not in q]
        if case["linenumbers"]:
            cut = lambda x: x[4][7:]
            want = [x for x in want if "line numbers" not in x[4]]
            got = [x for x in got if "line numbers" not in x[4]]
        else:
            cut = text
        a, b = [cut(x) for x in got], [cut(x) for x in want]
        if a != b:
            i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            raise Violation("%s trace, line %d: shown %r, expected %r (before: %r)" % (kind, i, a[i:i + 1], b[i:i + 1], a[max(0, i - 2):i]))
        obs(kind + "_lines", len(b))
    obs("runs", 3)


def reconstruct(case, obs, w, lines):
    status, sched, level = {}, {}, {}
    content = {q.name(): [] for q in w.queues + w.stores}
    anon = {r.name() for r, sp in zip(w.resources, case.get("resources", [])) if sp.get("anon")}
    direct = "'rrelease'" in repr(case)  # direct releases are not traced
    r_init = {r.name(): sp.get("init", 0) for r, sp in zip(w.resources, case.get("resources", []))}
    claims = {}
    claimed = {}
    requests = {}
    states = {}
    created = []
    pending = None
    standby_seen = False
    hidden_ok = hidden_t = None
    pos = 0
    now = 0.0
    known_states = {s.name() for s in w.states}

    def bad(msg, i):
        ctx = "\n".join("     " + x[4].rstrip() for x in lines[max(0, pos - 6):pos])
        raise Violation("%s\n  last trace lines:\n%s" % (msg, ctx))

    for i, e in enumerate(w.log + [("end",)]):
        while pos < len(lines) and lines[pos][0] <= i:
            line = lines[pos][4]
            pos += 1
            if line.startswith(("line#", "------")):
                continue
            k, t, comp, a = parse(line)
            obs("lines")
            if t and k != "current":
                bad("line %r has a time but is not an event" % line, i)
            if k is None:
                obs("other_lines")
                continue
            obs("line_" + k)
            if hidden_ok is not None and k != "current" and lines[pos - 1][3] == hidden_ok:
                bad("event of standby component %s is not shown, though there are lines of it" % hidden_ok, i)
            if k == "current":
                if pending is not None:
                    bad("two events without resumption: %r" % (pending,), i)
                if created == ["main"]:  # at creation of the environment
                    continue
                if a[0] and case["hide_standby"] and hidden_ok == comp and pending is None:
                    # not shown until there was something to show
                    if t != hidden_t:
                        bad("the trace shows %s becoming current at %s, actually %s" % (comp, t, hidden_t), i)
                    hidden_ok = None
                    status[comp] = "current"
                    obs("resumptions")
                    continue
                pending = (t, comp, bool(a[0]))
                status[comp] = "current"
            elif k == "create":
                created.append(a[0])
                if a[0] in known_states:
                    states[a[0]] = a[2].replace("value = ", "", 1)
                elif a[0] not in content:
                    status[a[0]] = "data"
                obs("creations")
            elif k == "honor":
                status[a[0]] = "scheduled"
                sched[a[0]] = num(a[2])
                requests.pop(a[0], None)
            elif k == "ask":
                status[a[0]] = "waiting" if a[1].startswith("wait") else "requesting"
                sched[a[0]] = num(a[2])
            elif k == "sched":
                status[a[0]] = "scheduled"
                sched[a[0]] = num(a[2]) if a[2] is not None else float("inf")
            elif k == "holdint":
                status[a[0]] = "interrupted"
                level.pop(a[0], None)
            elif k == "passivate":
                status[a[0]] = "passive"
            elif k == "interrupt":
                status[a[0]] = "interrupted"
                level[a[0]] = int(a[1] or 1)
            elif k == "resume":
                status[a[0]] = "interrupted" if a[1] == "interrupted" else a[1]
                level[a[0]] = int(a[2] or 0)
            elif k in ("cancelled", "ended"):
                status[a[0]] = "data"
            elif k == "standby":
                standby_seen = True
                if status.get(lines[pos - 1][3]) == "current":
                    status[lines[pos - 1][3]] = "standby"
            elif k == "reset":
                d = num(a[1])
                for n in sched:
                    sched[n] -= d
                obs("resets")
            elif k == "enter" and a[1] in content:
                if a[0] in content[a[1]]:
                    bad("%s enters %s twice" % (a[0], a[1]), i)
                content[a[1]].append(a[0])
            elif k == "leave" and a[1] in content:
                if a[0] not in content[a[1]]:
                    bad("%s leaves %s where it is not in" % (a[0], a[1]), i)
                content[a[1]].remove(a[0])
            elif k == "request":
                rq = requests.setdefault(a[0], {})
                q = num(a[2])
                rq[a[3]] = rq.get(a[3], 0) + (-q if a[1].startswith("put") else q)
            elif k == "claim":
                if a[2] in anon:
                    claimed[a[2]] = claimed.get(a[2], 0) + num(a[1])
                else:
                    claims[a[0], a[2]] = claims.get((a[0], a[2]), 0) + num(a[1])
            elif k in ("release", "bumped"):
                key = (a[0], a[2] if k == "release" else a[1])
                q = num(a[1] if k == "release" else a[3])
                if key not in claims:
                    bad("%s releases %s that it did not claim" % key, i)
                claims[key] -= q
                if abs(claims[key]) < 1e-8:
                    del claims[key]
            elif k == "failed":
                requests.pop(a[0], None)
            elif k == "state":
                states[a[0]] = a[2]
            elif k == "trigger":
                states[a[0]] = a[2]
            elif k == "user":
                obs("user_lines")
        kind = e[0]
        if kind in ("start", "cont", "runend"):
            want = (w.env.time_to_str(e[1]).strip(), e[2])
            if pending is None:
                if kind == "cont" and case["hide_standby"] and status.get(e[2]) == "standby":
                    # may only be hidden if it does nothing but standby again
                    hidden_ok = e[2]
                    hidden_t = want[0]
                    obs("standby_hidden")
                else:
                    bad("%s was resumed at %r, but this is not in the trace" % (e[2], e[1]), i)
            elif pending[:2] != want:
                bad("the trace shows %r becoming current, actually %r" % (pending[:2], want), i)
            else:
                hidden_ok = None
                obs("resumptions")
            pending = None
        elif pending is not None:
            bad("the trace shows %r becoming current, but it was not resumed" % (pending[:2],), i)
        if kind in ("op", "exc", "ret", "runend", "start", "cont", "skip"):
            now = e[1]
        if kind == "snap":
            for c in e[3:]:
                name, st, t = c[0], c[1], c[2]
                if name not in created:
                    bad("%s is not created according to the trace" % name, i)
                if st == "standby":
                    if status.get(name) != "standby" and not standby_seen and not case["hide_standby"]:
                        bad("%s is standby, not in the trace" % name, i)
                    status[name] = "standby"
                elif status.get(name) != st and not (st == "current" and hidden_ok == name):
                    bad("%s is %s, according to the trace %s" % (name, st, status.get(name)), i)
                if st in ("scheduled", "requesting", "waiting"):
                    if sched.get(name) != round(t, 3) and abs(sched.get(name, -1) - t) > 0.00051:
                        bad("%s is scheduled for %r, according to the trace %r" % (name, t, sched.get(name)), i)
                    obs("scheduled_times")
                if st == "interrupted" and name in level and level[name] != c[5]:
                    bad("interrupt level of %s is %r, according to the trace %r" % (name, c[5], level[name]), i)
                obs("statuses")
            standby_seen = False
        elif kind == "res":
            for r in e[1:1 + len(w.resources)]:
                name = r[0]
                if name in anon:
                    if not direct and abs(claimed.get(name, 0) + r_init[name] - r[1]) > 1e-6:
                        bad("claimed quantity of %s is %r, according to the trace %r" % (name, r[1], claimed.get(name, 0) + r_init[name]), i)
                    continue
                got = {c: q for (c, rn), q in claims.items() if rn == name}
                want = {c: q for c, _, q in r[6]}
                if got != want and (set(got) != set(want) or any(abs(got[c] - want[c]) > 1e-6 for c in got)):
                    bad("claims of %s are %r, according to the trace %r" % (name, want, got), i)
                obs("claims")
            for r in e[1:1 + len(w.resources)]:
                got = {c: q[r[0]] for c, q in requests.items() if r[0] in q}
                want = {c: q for c, _, q in r[5]}
                if set(got) != set(want) or any(abs(got[c] - want[c]) > 1e-6 for c in got):
                    bad("requests of %s are %r, according to the trace %r" % (r[0], want, got), i)
                obs("requests")
        elif kind == "que":
            for q in e[1:]:
                if sorted(content[q[0]]) != sorted(c[0] for c in q[2]):
                    bad("%s contains %r, according to the trace %r" % (q[0], q[2], content[q[0]]), i)
                obs("queue_contents")
        elif kind == "sto":
            for q in e[1:1 + len(w.stores)]:
                if sorted(content[q[0]]) != sorted(c[0] for c in q[3]):
                    bad("%s contains %r, according to the trace %r" % (q[0], q[3], content[q[0]]), i)
                obs("store_contents")
        elif kind == "sta":
            for s in e[1:]:
                if states.get(s[0]) not in (repr(s[1]), str(s[1])):
                    bad("%s has value %r, according to the trace %r" % (s[0], s[1], states.get(s[0])), i)
                obs("state_values")
    if len(created) != len(set(created)):
        raise Violation("created twice: %r" % created)
