import salabim as sim
from mon.core import Violation
from mon.util import shrink_ops

ID = "C30"
RULE = ("random orders of creating components (several classes, also data components and by generators), queues, stores, resources, states and monitors with all kinds of names in several environments, with other activity in between "
        "(renaming, slicing, merging, copying queues, runs); name, base name and sequence number of every object are compared with counters kept per environment, kind and base name")
CASES = {"quick": 8000, "thorough": 60000}
REQUIRED = ["objects", "serialized", "plain", "generated", "derived", "renamed", "environments", "parts", "generators", "events"]
NAMES = [None, None, "", ".", ",", "a", "a.", "a,", "b.", "b", "long name.", "x.y", "x.y.", "a.0", "é,", "b.", "car.", "queue.", "a.,", "b..", "a,,"]
KINDS = ["Component", "Car", "Truck", "Queue", "Store", "Resource", "State", "Monitor", "MyQueue", "generator", "gname", "event", "other", "rename", "run", "derive", "envname"]
FAMILY = {"Component": "c", "Car": "c", "Truck": "c", "Queue": "q", "Store": "q", "MyQueue": "q", "Resource": "r", "State": "s", "Monitor": "m"}


def derived(o):
    """names of the parts of an object, that should follow the name of the object"""
    if isinstance(o, sim.Resource):
        return [o.requesters().name(), o.claimers().name()] + [m.name() for m in (o.capacity, o.claimed_quantity, o.available_quantity, o.occupancy)] + derived(o.requesters()) + derived(o.claimers())
    if isinstance(o, sim.State):
        return [o.waiters().name(), o.value.name()] + derived(o.waiters())
    if isinstance(o, sim.Queue):
        return [m.name() for m in (o.length, o.length_of_stay, o.capacity, o.available_quantity)]
    return []


class Car(sim.Component):
    pass


class Truck(sim.Component):
    def process(self):
        yield self.hold(0)


class MyQueue(sim.Queue):
    pass


def gen(rng, index, tier):
    n = rng.randint(5, 50 if tier == "quick" else 150)
    few = rng.sample(NAMES, 4) if rng.random() < 0.5 else NAMES
    if index % 67 == 5:  # many of the same
        op = [rng.choice(KINDS[:9]), 0, rng.choice([None, "a.", "a,", ",", "b.."]), rng.random() < 0.5, 4]
        return {"envs": 1, "ops": [op] * rng.choice([110, 260, 520])}
    return {"envs": rng.randint(1, 3), "ops": [[rng.choice(KINDS), rng.randrange(3), rng.choice(few), rng.random() < 0.5, rng.randint(1, 4)] for _ in range(n)]}


def check(case, obs):
    envs = []
    for k in range(case["envs"]):
        envs.append(sim.Environment(name="verif env %d." % k, trace=False, yieldless=False))
        obs("environments")
    nos = [e.sequence_number() for e in envs]
    for k, e in enumerate(envs):
        if e.base_name() != "verif env %d." % k or e.name() != "verif env %d.%d" % (k, e.sequence_number()):
            raise Violation("environment %r has base name %r and sequence number %r" % (e.name(), e.base_name(), e.sequence_number()))
    again = sim.Environment(name="verif env 0.", trace=False, yieldless=False)
    if again.sequence_number() != nos[0] + 1:
        raise Violation("sequence number of an environment is %r after %r" % (again.sequence_number(), nos[0]))
    counters = {}
    objects = []

    def expect(envi, fam, cls, name):
        """-> (name, base name, sequence number)"""
        if name in (None, ""):
            name = cls.lower() + "."
            obs("derived")
        elif name in (".", ","):
            name = cls.lower() + name
            obs("derived")
        if name[-1] in ".,":
            key = (envi, fam, name)
            n = counters.get(key, 0 if name[-1] == "." else 1)
            counters[key] = n + 1
            obs("serialized")
            return (name[:-1] + "." + str(n), name, n)
        obs("plain")
        return (name, name, 1)

    def verify(o, want, kind):
        got = (o.name(), o.base_name(), o.sequence_number())
        if got != want:
            raise Violation("%s has name, base name, sequence number %r, should be %r" % (kind, got, want))
        d = derived(o)
        if any(not x.endswith(o.name()) for x in d) or len(set(d)) != len(d):
            raise Violation("%s named %r has parts named %r" % (kind, o.name(), d))
        obs("parts", len(d))
        obs("objects")

    for kind, ei, name, flag, k in case["ops"]:
        ei %= len(envs)
        env = envs[ei]
        if kind in FAMILY:
            cls = {"Component": sim.Component, "Car": Car, "Truck": Truck, "Queue": sim.Queue, "Store": sim.Store, "MyQueue": MyQueue, "Resource": sim.Resource, "State": sim.State, "Monitor": sim.Monitor}[kind]
            kw = {}
            if kind == "Monitor":
                kw["level"] = flag
            if flag:
                o = cls(name, env=env, **kw)
            elif name is None:
                o = cls(env=env, **kw)
            else:
                o = cls(name=name, env=env, **kw)
            want = expect(ei, FAMILY[kind], kind, name)
            verify(o, want, kind)
            objects.append([o, want, kind, env])
        elif kind == "generator":
            made = []
            g = sim.ComponentGenerator(lambda **kw: made.append(Car(env=env)) or made[-1], generator_name="gen", iat=1, number=k, at=env.now(), env=env, force_at=True)
            env.run(k + 1)
            for o in made:
                want = expect(ei, "c", "Car", None)
                verify(o, want, "generated component")
                objects.append([o, want, "generated", env])
                obs("generated")
            if len(made) != k:
                raise Violation("generator made %d components, should be %d" % (len(made), k))
            if g.name() != "gen":
                raise Violation("generator name %r" % g.name())
        elif kind == "gname":
            c, base = [(Car, "Car"), (Truck, "Truck"), (sim.Component, "Component"), (sim.Pdf((Car, 1, Truck, 1)), "Pdf"), (lambda **kw: Car(**kw), "<lambda>")][(k + len(objects)) % 5]
            kw = {} if name in (None, "", ".", ",") else {"generator_name": name}
            if flag:
                o = sim.ComponentGenerator(c, iat=1, number=0, env=env, **kw)
            else:
                o = sim.ComponentGenerator(c, moments=[1e6 + env.now()], env=env, **kw)
            verify(o, expect(ei, "c", "?", kw.get("generator_name", base + ".generator.")), "generator")
            obs("generators")
        elif kind == "event":
            if flag and k > 2:
                class Alarm(sim.Event):
                    pass
                o = Alarm(lambda: None, name=name, env=env)
                verify(o, expect(ei, "c", "Alarm", name), "subclass of Event")
            else:
                o = sim.Event(lambda: None, name=name, env=env) if flag else sim.Event(action=lambda: None, delay=k, name=name, env=env)
                verify(o, expect(ei, "c", "Event", name), "event")
            obs("events")
        elif kind == "envname":
            old = env.name()
            if env.name("other name") != "other name" or env.name() != "other name" or env.name(old) != old or env.name() != old:
                raise Violation("name() of an environment does not set and return the name")
        elif kind == "other" and objects:
            # activity that makes objects internally
            for o, _, kd, e in objects[-3:]:
                if kd == "Monitor":
                    o[0:1]
                    o.merge(o)
                    o.freeze()
                if kd in ("Queue", "Store", "MyQueue"):
                    o.copy()
                    o.union(o)
        elif kind == "rename" and objects:
            o, want, kd, e = objects[k % len(objects)]
            if kd in ("Component", "Car", "Truck", "generated", "Queue", "Monitor", "Resource", "State"):
                if flag:
                    before = derived(o)
                    if k > 2 and kd in ("Queue", "Monitor"):
                        if o.rename("renamed") is not o:
                            raise Violation("rename does not return the object")
                    elif o.name("renamed") != "renamed":
                        raise Violation("name('renamed') does not return the new name")
                    got = o.name()
                    after = derived(o)
                    if after != [x[: len(x) - len(want[0])] + "renamed" for x in before]:
                        raise Violation("%s renamed from %r: its parts were named %r and are now %r" % (kd, want[0], before, after))
                    if got != "renamed":
                        raise Violation("name after renaming is %r" % got)
                    if want[1][-1] in ".," and (o.base_name(), o.sequence_number()) != want[1:]:
                        raise Violation("base name and sequence number %r after renaming, should be %r" % ((o.base_name(), o.sequence_number()), want[1:]))
                    o.name(want[0])
                    obs("renamed")
        elif kind == "run":
            env.run(1)
    for o, want, kd, e in objects:
        verify(o, want, kd)
    serial = [(e, FAMILY.get(kd, "c"), w) for o, w, kd, e in objects if w[1][-1] in ".,"]
    if len({(id(e), f, w[1], w[2]) for e, f, w in serial}) != len(serial):
        raise Violation("duplicate sequence number")


def shrink(case):
    return shrink_ops(case)
