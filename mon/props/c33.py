"""C33: Event components and the arguments of processes"""
import io
import random

from mon.core import Violation, sim

ID = "C33"
RULE = ("random sets of Events (at, delay, at plus delay, priority, urgent, in the default or another environment, both modes) that are cancelled, rescheduled, given another action and that create further Events, against an own "
        "ordered list of what has to happen when; random keyword arguments for __init__, setup and several process methods, given at creation, via activate and via a ComponentGenerator")
CASES = {"quick": 4000, "thorough": 40000}
REQUIRED = ["actions", "nested", "cancelled", "rescheduled", "replaced", "again", "ties", "traced", "args_create", "args_activate", "args_generator", "args_sequence", "args_overlap", "mode_yield", "mode_yieldless", "default_env", "reset_now"]
DELAYS = [0, 0, 0.5, 1, 1, 2, 2.5, 4]
PRIOS = [None, None, 0, 1, -1, 0.5]


def new_event(rng, depth=0):
    return {"at": rng.choice([None, None, 0, 1, 2]), "delay": rng.choice([None] + DELAYS), "p": rng.choice(PRIOS), "u": rng.choice([None, False, True]) if rng.random() < 0.3 else None,
            "s": rng.choice([None, "goes off", "act"]), "kids": [new_event(rng, depth + 1) for _ in range(rng.choice([0, 0, 0, 1, 2]))] if depth < 2 else []}


def gen(rng, index, tier):
    if index % 4 == 3:
        def some():
            return {k: rng.choice([0, 1, "x", None, 2.5]) for k in "abcdefg" if rng.random() < 0.4}
        return {"args": [[rng.choice(["create", "create", "activate", "generator", "sequence", "overlap"]), rng.choice(["process", "other", "third"]), some(), rng.choice([0, 0, 1, 2])] for _ in range(rng.randint(2, 8))], "yieldless": rng.random() < 0.5}
    ops = []
    for _ in range(rng.randint(4, 25)):
        k = rng.random()
        if k < 0.5:
            ops.append(["new", new_event(rng)])
        elif k < 0.6:
            ops.append(["cancel", rng.randrange(20)])
        elif k < 0.7:
            ops.append(["re", rng.randrange(20), rng.choice(DELAYS), rng.choice(PRIOS), rng.random() < 0.2])
        elif k < 0.78:
            ops.append(["action", rng.randrange(20)])
        elif k < 0.83:
            ops.append(["again", rng.randrange(20), rng.choice(DELAYS)])
        elif k < 0.86:
            ops.append(["reset_now", rng.choice([0, -8, 64, 2.5])])
        else:
            ops.append(["run", rng.choice([0, 0.5, 1, 2, 2.5])])
    return {"ops": ops, "yieldless": rng.random() < 0.5, "trace": rng.random() < 0.3, "default": rng.random() < 0.5}


class Ref:
    """what should happen"""
    def __init__(self):
        self.now = 0
        self.seq = 0
        self.pending = {}  # id -> (t, prio, seq)
        self.ev = []
        self.log = []

    def schedule(self, i, t, prio, urgent):
        self.seq += 1
        self.pending[i] = (t, prio or 0, -self.seq if urgent else self.seq)

    def create(self, spec):
        i = len(self.ev)
        self.ev.append({"spec": spec, "taken": False, "version": 0, "cancelled": False})
        t = (self.now if spec["at"] is None else max(self.now, self.base + spec["at"])) + (spec["delay"] or 0)
        self.schedule(i, t, spec["p"], spec["u"])
        return i

    def run(self, till, obs):
        ts = [v[0] for v in self.pending.values()]
        obs("ties", len(ts) - len(set(ts)))
        while True:
            nxt = min(((v, i) for i, v in self.pending.items() if v[0] <= till), default=None)
            if nxt is None:
                break
            (self.now, _, _), i = nxt
            del self.pending[i]
            e = self.ev[i]
            self.log.append((i, self.now, e["version"]))
            obs("actions")
            for k in e["spec"]["kids"] if e["version"] == 0 else []:
                self.base = self.now
                self.create(k)
                obs("nested")
            e["taken"] = True
        self.now = till


def check_events(case, obs):
    env0 = sim.Environment(yieldless=True)
    env = sim.Environment(yieldless=case["yieldless"])
    obs("mode_yieldless" if case["yieldless"] else "mode_yield")
    kw0 = {"env": env}
    if case["default"]:
        kw0 = {}
        obs("default_env")
    else:
        sim.Environment(yieldless=not case["yieldless"])  # is now the default
    out = io.StringIO()
    if case["trace"]:
        env.trace(out)
    ref = Ref()
    events, log = [], []
    strings = []
    again = set()
    off = [0]  # total of the reset_nows

    def create(spec):
        i = len(events)
        kw = dict(kw0)
        if spec["at"] is not None:
            kw["at"] = env.now() + spec["at"]
        for k, n in (("delay", "delay"), ("p", "priority"), ("u", "urgent"), ("s", "action_string")):
            if spec[k] is not None:
                kw[n] = spec[k]
        e = sim.Event(make(i, 0, spec), name="ev%d" % i, **kw)
        events.append(e)
        strings.append(spec["s"] or "action")

    def make(i, version, spec):
        def act():
            log.append((i, env.now() + off[0], version))
            if env.current_component() is not events[i] or events[i].action_taken() and i not in again:
                raise Violation("event %d: current component or action_taken() is wrong in the action" % i)
            if version == 0:
                for k in spec["kids"]:
                    create(k)
        return act

    def verify():
        if log != ref.log:
            k = next((k for k, (a, b) in enumerate(zip(log, ref.log)) if a != b), min(len(log), len(ref.log)))
            raise Violation("actions (event, time, version) are %r..., should be %r..." % (log[k:k + 4], ref.log[k:k + 4]))
        if len(events) != len(ref.ev):
            raise Violation("%d events, should be %d" % (len(events), len(ref.ev)))
        for i, (e, r) in enumerate(zip(events, ref.ev)):
            if bool(e.action_taken()) != r["taken"]:
                raise Violation("action_taken() of event %d is %r" % (i, e.action_taken()))
            want = "scheduled" if i in ref.pending else "data"
            if e.status() != want or (i in ref.pending and e.scheduled_time() + off[0] != ref.pending[i][0]):
                raise Violation("event %d is %s for %r, should be %s %r" % (i, e.status(), e.scheduled_time(), want, ref.pending.get(i)))
            if e.action_string() != strings[i]:
                raise Violation("action_string() of event %d is %r" % (i, e.action_string()))

    for op in case["ops"]:
        if op[0] == "new":
            ref.base = ref.now
            ref.create(op[1])
            create(op[1])
        elif op[0] == "run":
            env.run(op[1])
            ref.run(ref.now + op[1], obs)
            if env.now() + off[0] != ref.now:
                raise Violation("now is %r" % env.now())
        elif op[0] == "reset_now":
            env.reset_now(op[1])
            off[0] = ref.now - op[1]
            obs("reset_now")
        elif not events:
            continue
        else:
            i = op[1] % len(events)
            if op[0] == "again":
                if i in ref.pending or not ref.ev[i]["taken"]:
                    continue
                again.add(i)
                events[i].activate(process="process" if case["yieldless"] else "process_yield", delay=op[2])
                ref.schedule(i, ref.now + op[2], 0, False)
                obs("again")
            elif i not in ref.pending:
                continue
            elif op[0] == "cancel":
                events[i].cancel()
                del ref.pending[i]
                obs("cancelled")
            elif op[0] == "re":
                when = {"delay": op[2]} if op[2] % 2 else {"at": env.now() + op[2]}
                events[i].activate(priority=op[3] or 0, urgent=op[4], **when)
                ref.schedule(i, ref.now + op[2], op[3], op[4])
                obs("rescheduled")
            else:
                v = ref.ev[i]["version"] = ref.ev[i]["version"] + 1
                f = make(i, v, ref.ev[i]["spec"])
                events[i].action(f)
                strings[i] = "version %d of %d" % (v, i)
                events[i].action_string(strings[i])
                if events[i].action() is not f:
                    raise Violation("action() is not the function that was given")
                obs("replaced")
        verify()
    if case["trace"]:
        txt = out.getvalue()
        for i in range(len(events)):
            if strings[i].startswith("version"):
                n = len([1 for l in txt.split("\n") if strings[i] in l.split("  ") or l.rstrip().endswith(" " + strings[i])])
                want = len([1 for j, _, v in log if j == i and v and "version %d of %d" % (v, i) == strings[i]])
                if n != want:
                    raise Violation("the trace shows %r %d times, should be %d\n%s" % (strings[i], n, want, txt))
                obs("traced")
    obs.sig = repr(log)
    obs.nontrivial = len(log) > 2


def check_args(case, obs):
    env = sim.Environment(yieldless=case["yieldless"])
    obs("mode_yieldless" if case["yieldless"] else "mode_yield")
    log = []

    class Base(sim.Component):
        def setup(self, a="sa", b="sb"):
            log.append((self.name(), "setup", a, b))

    y = "" if case["yieldless"] else "yield "
    variants = []
    for pp, oo in (("cd", "ec"), ("ec", "d"), ("d", "")):  # classes with the same name, but with other parameters
        source = "class Some(Base):\n"
        for what, letters in (("process", pp), ("other", oo), ("third", "")):
            source += "    def %s(self%s):\n        %sself.hold(1)\n        log.append((self.name(), %r%s))\n" % (
                what, "".join(", %s=%r" % (x, what[0] + x) for x in letters), y, what, "".join(", " + x for x in letters))
        space = {"Base": Base, "log": log}
        exec(source, space)
        variants.append((space["Some"], {"process": pp, "other": oo, "third": "", "setup": "ab"}))
    Some, params = variants[0]

    def call(name, what, kw):
        return (name, what) + tuple(kw.get(p, what[0] + p) for p in params[what])
    for n, (how, proc, kw, *v) in enumerate(case["args"]):
        name = "x%d" % n
        Some, params = variants[v[0] if v else 0]
        del log[:]
        if how == "activate":
            x = Some(name, process="", env=env)
            del log[:]
            ok = set(kw) <= set(params[proc])
            try:
                x.activate(process=proc, **kw)
                raised = False
            except TypeError:
                raised = True
            if raised == ok:
                raise Violation("activate(process=%r, %r) %s" % (proc, kw, "raises" if raised else "does not raise"))
            env.run(3)
            want = [call(name, proc, kw)] if ok else []
        elif how == "sequence":  # each activation starts the process anew with its own arguments only
            x = Some(name, process="", env=env)
            del log[:]
            want = []
            rnd = random.Random(repr(kw))
            last = None
            for _ in range(4):
                p2 = rnd.choice(["process", "other", "third", None])
                if p2 is None and last is not None:
                    a = {}
                    x.activate()  # continues at once
                    want.append(last)
                    env.run(1.5)
                    last = None
                    continue
                a = {k: rnd.choice([1, "z", None]) for k in params[p2 or "process"] if rnd.random() < 0.5}
                x.activate(**({} if p2 is None else {"process": p2}), **a)
                gap = rnd.choice([0.5, 1.5])
                env.run(gap)
                last = call(name, p2 or "process", a)
                if gap > 1:
                    want.append(last)
                    last = None
            if last:
                env.run(3)
                want.append(last)
        elif how == "overlap":  # a parameter that both setup (or __init__) and the process have cannot be assigned
            if "c" not in params[proc]:
                continue
            init = "e" in kw

            class Bad(Some):
                if init:
                    def __init__(self, c="ic", *args, **kwargs):
                        super().__init__(*args, **kwargs)
                else:
                    def setup(self, c="sc"):
                        log.append((self.name(), "setup", c))
            try:
                Bad(name=name, process=proc, env=env)
            except Exception:
                pass
            else:
                raise Violation("overlapping parameter c of %s and %s is accepted" % ("__init__" if init else "setup", proc))
            env.run(3)
            want = []
        elif how == "create":
            ok = set(kw) <= set(params[proc]) | set("ab")
            try:
                Some(name, process=proc, env=env, **kw)
                raised = False
            except TypeError:
                raised = True
            if raised == ok:
                raise Violation("creation with process=%r, %r %s" % (proc, kw, "raises" if raised else "does not raise"))
            if not ok:
                env.run(3)
                continue
            env.run(3)
            want = [call(name, "setup", kw), call(name, proc, kw)]
        else:
            kw = {k: x for k, x in kw.items() if k in "ab" + params["process"]}
            sim.ComponentGenerator(Some, generator_name="gen.", iat=1, number=2, env=env, name=name + ".", **kw)
            env.run(6)
            log.sort(key=lambda e: (e[0], e[1] != "setup"))
            want = [call("%s.%d" % (name, i), w, kw) for i in range(2) for w in ("setup", "process")]
        obs("args_" + how)
        if repr(log) != repr(want):
            raise Violation("arguments %r, %s, process %s: called %r, should be %r" % (kw, how, proc, log, want))
    obs.sig = repr(case["args"])


def check(case, obs):
    return check_args(case, obs) if "args" in case else check_events(case, obs)


def shrink(case):
    k = "args" if "args" in case else "ops"
    return [dict(case, **{k: case[k][:i] + case[k][i + 1:]}) for i in range(len(case[k]))]
