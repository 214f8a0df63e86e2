import bisect
import math

import salabim as sim
import salabim.salabim as simmod
from mon.core import Violation

ID = "C25"
RULE = ("random (also extreme, reversed, degenerate and infinite) arguments for interpolate, interp, searchsorted, arange, linspace (with and without numpy), colour conversion and interpolation, and the small normalisation "
        "utilities; results are compared with the mathematical definition and with bounds that always hold")
CASES = {"quick": 30000, "thorough": 200000}
REQUIRED = ["interpolate", "interp", "searchsorted", "arange", "linspace", "colors", "color_interpolate", "utilities", "no_numpy"]
NUMS = [0, 1, -1, 2, 3, 0.5, -2.25, 10, 100, 1e-3, 7.75, 1e6, -50]


def num(rng):
    return rng.choice(NUMS) if rng.random() < 0.6 else round(rng.uniform(-100, 100), rng.randint(0, 6))


def gen(rng, index, tier):
    kind = ["interpolate", "interp", "searchsorted", "arange", "linspace", "color", "colorint", "util"][index % 8]
    c = {"kind": kind, "numpy": rng.random() < 0.5}
    if kind == "interpolate":
        n = rng.choice([0, 0, 1, 2, 4])
        c.update(t=num(rng), t0=num(rng), t1=rng.choice([num(rng), num(rng), "inf"]), v0=[num(rng) for _ in range(n)] if n else num(rng), v1=[num(rng) for _ in range(n)] if n else num(rng), tup=rng.random() < 0.5)
        if n and rng.random() < 0.3:
            c["v0"][0] = None
    elif kind == "interp":
        n = rng.randint(1, 7)
        xp = sorted(num(rng) for _ in range(n))
        dim = rng.choice([0, 0, 2, 3])
        fp = [[num(rng) for _ in range(dim)] if dim else num(rng) for _ in range(n)]
        x = rng.choice([num(rng), rng.choice(xp), xp[0] - 1, xp[-1] + 1])
        c.update(x=x, xp=xp, fp=fp, left=rng.choice([None, 99]), right=rng.choice([None, -99, 0]))
    elif kind == "searchsorted":
        a = sorted(num(rng) for _ in range(rng.randint(0, 8)))
        c.update(a=a, v=rng.choice(a) if a and rng.random() < 0.5 else num(rng))
    elif kind == "arange":
        c.update(start=num(rng), stop=num(rng), step=rng.choice([1, 0.1, 0.25, 2, -1, -0.5, 0.3, 7, 1 / 3]))
        if abs(c["stop"] - c["start"]) > 3000:
            c["stop"] = c["start"] + 5
    elif kind == "linspace":
        c.update(start=num(rng), stop=num(rng), num=rng.choice([0, 1, 2, 3, 5, 10, 50]), endpoint=rng.random() < 0.6)
    elif kind == "color":
        c.update(rgba=[rng.randrange(256) for _ in range(4)], name=rng.randrange(1000), alpha=rng.randrange(256))
    elif kind == "colorint":
        t0 = num(rng)
        c.update(t=num(rng), t0=t0, t1=rng.choice([num(rng), t0, "inf"]), c0=[rng.randrange(256) for _ in range(4)], c1=[rng.randrange(256) for _ in range(4)], form=rng.randrange(4), p=rng.random())
    else:
        c.update(parts=[rng.choice(["", "a", "b c", "x"]) for _ in range(rng.randint(0, 5))], nest=nested(rng, 3), r=abs(num(rng)), sides=rng.randint(3, 12), angle=num(rng),
                 coords=[num(rng) if i < 2 or rng.random() < 0.6 else None for i in range(2 * rng.randint(1, 5))], s=rng.choice(["Ab C", "x_1-Y", "", "Dark Red", "12 !a"]))
    return c


def nested(rng, depth):
    return [nested(rng, depth - 1) if depth and rng.random() < 0.3 else rng.choice([1, 2, "ab", 3.5, None]) for _ in range(rng.randint(0, 4))]


def flat(x):
    out = []
    for i in x:
        out += flat(i) if isinstance(i, list) else [i]
    return out


def near(a, b, scale=1):
    return a == b or abs(a - b) < math.inf and abs(a - b) <= 1e-9 * max(1, abs(a), abs(b), scale)


def fail(what, got, want, case):
    raise Violation("%s gave %r, should be %r for %r" % (what, got, want, case))


def lin(t, t0, t1, v0, v1):
    if v0 is None or v1 is None:
        return None
    if t0 > t1:
        t0, t1, v0, v1 = t1, t0, v1, v0
    if t1 == math.inf:
        return v0
    if t <= t0:
        return v0
    if t >= t1:
        return v1
    return v0 + (v1 - v0) * (t - t0) / (t1 - t0)


def check(case, obs):
    save = simmod.has_numpy
    if not case["numpy"]:
        simmod.has_numpy = lambda: False
        obs("no_numpy")
    try:
        check1(case, obs)
    finally:
        simmod.has_numpy = save


def check1(c, obs):
    k = c["kind"]
    if k == "interpolate":
        t1 = math.inf if c["t1"] == "inf" else c["t1"]
        v0, v1 = c["v0"], c["v1"]
        if isinstance(v0, list) and c["tup"]:
            v0, v1 = tuple(v0), tuple(v1)
        g = sim.interpolate(c["t"], c["t0"], t1, v0, v1)
        if c["t0"] == t1:
            if isinstance(v0, (list, tuple)):
                if list(g) != list(v1) and list(g) != list(v0):
                    fail("interpolate", g, v1, c)
            elif g not in (v0, v1):
                fail("interpolate", g, v1, c)
        elif isinstance(v0, (list, tuple)):
            if len(g) != len(v0):
                fail("interpolate", g, "same length", c)
            for a, p, q in zip(g, v0, v1):
                inside = min(c["t0"], t1) < c["t"] < max(c["t0"], t1) and t1 != math.inf
                w = lin(c["t"], c["t0"], t1, p, q) if (p is not None and q is not None) or inside else a
                if (a is None) != (w is None) or (a is not None and not near(a, w, abs(p) + abs(q) if p is not None and q is not None else 1)):
                    fail("interpolate", g, w, c)
                if a is not None and p is not None and q is not None and not min(p, q) - 1e-9 * (1 + abs(p) + abs(q)) <= a <= max(p, q) + 1e-9 * (1 + abs(p) + abs(q)):
                    fail("interpolate", a, "between %r and %r" % (p, q), c)
        else:
            w = lin(c["t"], c["t0"], t1, v0, v1)
            if not near(g, w, abs(v0) + abs(v1)):
                fail("interpolate", g, w, c)
            if c["t"] <= min(c["t0"], t1) and t1 != math.inf and g != (v0 if c["t0"] < t1 else v1) and v0 != v1:
                fail("interpolate at the begin", g, v0, c)
        obs("interpolate")
    elif k == "interp":
        x, xp, fp = c["x"], c["xp"], c["fp"]
        kw = {}
        if c["left"] is not None and not isinstance(fp[0], list):
            kw["left"] = c["left"]
        if c["right"] is not None and not isinstance(fp[0], list):
            kw["right"] = c["right"]
        g = sim.interp(x, xp, fp, **kw)
        if x < xp[0]:
            w = kw.get("left", fp[0])
        elif x > xp[-1]:
            w = kw.get("right", fp[-1])
        else:
            if xp.count(x) > 1:
                ok = [f for a, f in zip(xp, fp) if a == x]  # a jump: any value of the jump
                if not any(g == f for f in ok):
                    fail("interp", g, ok, c)
                obs("interp")
                return
            i = bisect.bisect_right(xp, x)
            if x in xp:
                w = fp[xp.index(x)]
            elif isinstance(fp[0], list):
                w = [lin(x, xp[i - 1], xp[i], a, b) for a, b in zip(fp[i - 1], fp[i])]
            else:
                w = lin(x, xp[i - 1], xp[i], fp[i - 1], fp[i])
        if isinstance(w, list):
            if len(g) != len(w) or not all(near(a, b, 1e3) for a, b in zip(g, w)):
                fail("interp", g, w, c)
        elif not near(g, w, max(abs(f) for f in fp)):
            fail("interp", g, w, c)
        obs("interp")
    elif k == "searchsorted":
        for side, f in (("left", bisect.bisect_left), ("right", bisect.bisect_right)):
            g = sim.searchsorted(c["a"], c["v"], side)
            if g != f(c["a"], c["v"]):
                fail("searchsorted " + side, g, f(c["a"], c["v"]), c)
        if sim.searchsorted(c["a"], c["v"]) != bisect.bisect_left(c["a"], c["v"]):
            fail("searchsorted", sim.searchsorted(c["a"], c["v"]), "left", c)
        obs("searchsorted")
    elif k == "arange":
        a, b, s = c["start"], c["stop"], c["step"]
        g = [float(v) for v in sim.arange(a, b, s)]
        n = max(0, math.ceil((b - a) / s))
        # at a boundary the number depends on rounding
        exact = (b - a) / s
        okn = {n} | ({n + 1, n - 1} if abs(exact - round(exact)) < 1e-9 and exact != round(exact) else set())
        if len(g) not in okn or not all(near(v, a + i * s, abs(b)) for i, v in enumerate(g)):
            fail("arange", g[:5] + ["..."] + g[-2:], "%d values" % n, c)
        obs("arange")
    elif k == "linspace":
        a, b, n = c["start"], c["stop"], c["num"]
        g = [float(v) for v in sim.linspace(a, b, n, c["endpoint"])]
        d = (b - a) / (n - 1 if c["endpoint"] else n) if n > 1 else 0
        if len(g) != n or not all(near(v, a + i * d, abs(a) + abs(b)) for i, v in enumerate(g)):
            fail("linspace", g, "%d values with step %r" % (n, d), c)
        if n > 1 and c["endpoint"] and not near(g[-1], b, abs(a)):
            fail("linspace", g[-1], b, c)
        obs("linspace")
    elif k == "color":
        env = sim.Environment(trace=False, yieldless=False)
        r, gg, b, a = c["rgba"]
        names = sorted(sim.colornames())
        name = names[c["name"] % len(names)]
        hexa = "#%02x%02x%02x%02x" % (r, gg, b, a)
        base = sim.colornames()[name]
        nt = tuple(int(base[i:i + 2], 16) for i in (1, 3, 5)) + ((int(base[7:9], 16),) if len(base) == 9 else (255,))
        want = [((r, gg, b, a), (r, gg, b, a)), ((r, gg, b), (r, gg, b, 255)), ([r, gg, b, a], (r, gg, b, a)), (hexa, (r, gg, b, a)), (hexa[:7], (r, gg, b, 255)), (hexa.upper(), (r, gg, b, a)),
                (name, nt), (name.upper(), nt), (((r, gg, b), a), (r, gg, b, a)), ((name, c["alpha"]), nt[:3] + (c["alpha"],))]
        if len(base) == 7:
            want.append((name + "#%02x" % c["alpha"], nt[:3] + (c["alpha"],)))
        for spec, w in want:
            g = env.colorspec_to_tuple(spec)
            if tuple(g) != w:
                fail("colorspec_to_tuple(%r)" % (spec,), g, w, c)
            h = env.colorspec_to_hex(spec)
            if h != "#%02x%02x%02x%02x" % w or env.colorspec_to_hex(spec, withalpha=False) != h[:7]:
                fail("colorspec_to_hex(%r)" % (spec,), h, w, c)
            if tuple(env.colorspec_to_tuple(h)) != w:
                fail("round trip of %r" % (spec,), env.colorspec_to_tuple(h), w, c)
            gl = env.colorspec_to_gl_color(spec)
            if len(gl) != 3 or not all(near(x, y / 255) for x, y in zip(gl, w)):
                fail("colorspec_to_gl_color(%r)" % (spec,), gl, w, c)
            gl, alpha = env.colorspec_to_gl_color_alpha(spec)
            if len(gl) != 3 or not all(near(x, y / 255) for x, y in zip(gl, w)) or alpha != w[3]:
                fail("colorspec_to_gl_color_alpha(%r)" % (spec,), (gl, alpha), w, c)
            if w[3]:
                light = 0.299 * w[0] + 0.587 * w[1] + 0.114 * w[2]
                if abs(light - 127.5) > 1 and bool(env.is_dark(spec)) != (light < 127.5):
                    fail("is_dark(%r)" % (spec,), env.is_dark(spec), light < 127.5, c)
        for bg, fg in (((b, r, gg), (r, gg, b)), ((r, gg, b), tuple(255 - x for x in (r, gg, b)))):  # these change during a simulation
            env.background_color(bg)
            env.foreground_color(fg)
            for spec, w in (("bg", bg + (255,)), ("fg", fg + (255,)), (("bg", a), bg + (a,)), (("fg", a), fg + (a,)), ("", (0, 0, 0, 0)), ("none", (0, 0, 0, 0))):
                g = env.colorspec_to_tuple(spec)
                if tuple(g) != w:
                    fail("colorspec_to_tuple(%r)" % (spec,), g, w, c)
        light = 0.299 * r + 0.587 * gg + 0.114 * b
        if abs(light - 127.5) > 1 and bool(env.is_dark((1, 2, 3, 0))) != (light < 127.5):
            fail("is_dark() of a transparent colour on background %r" % (bg,), env.is_dark((1, 2, 3, 0)), light < 127.5, c)
        for bad in ("nocolor", "#12", (1,), "#zzzzzz", (1, 2, 3, 4, 5)):
            try:
                g = env.colorspec_to_tuple(bad)
            except ValueError:
                pass
            else:
                fail("colorspec_to_tuple(%r)" % (bad,), g, "ValueError", c)
        obs("colors")
    elif k == "colorint":
        env = sim.Environment(trace=False, yieldless=False)
        t1 = math.inf if c["t1"] == "inf" else c["t1"]
        c0, c1 = tuple(c["c0"]), tuple(c["c1"])
        s0 = [c0, list(c0), "#%02x%02x%02x%02x" % c0, c0][c["form"]]
        s1 = [c1, c1, "#%02x%02x%02x%02x" % c1, "#%02x%02x%02x%02x" % c1][c["form"]]
        t = c["t"] if c["p"] < 0.4 or t1 == math.inf else c["t0"] + (t1 - c["t0"]) * c["p"]
        g = env.colorinterpolate(t, c["t0"], t1, s0, s1)
        g = env.colorspec_to_tuple(g)
        if c["t0"] == t1:
            if tuple(g) not in (c0, c1):
                fail("colorinterpolate", g, (c0, c1), c)
        else:
            for a, p, q in zip(g, c0, c1):
                w = lin(t, c["t0"], t1, p, q)
                if abs(a - w) > 1 or a != int(a) or not min(p, q) <= a <= max(p, q):
                    fail("colorinterpolate", g, w, c)
        xp = sorted({c["t0"], c["t0"] + 1.5, c["t0"] + 4})
        fp = [s0, s1, c0]
        x = c["t0"] + 5 * c["p"]
        g = env.color_interp(x, xp, fp)
        for a, ps in zip(g, zip(c0, c1, c0)):
            i = min(max(bisect.bisect_right(xp, x), 1), 2)
            w = lin(x, xp[i - 1], xp[i], ps[i - 1], ps[i])
            if abs(a - w) > 1:
                fail("color_interp", g, w, c)
        obs("color_interpolate")
    else:
        g = list(simmod.deep_flatten(c["nest"]))
        if g != flat(c["nest"]):
            fail("deep_flatten", g, flat(c["nest"]), c)
        g = sim.merge_blanks(*c["parts"])
        if g != " ".join(p for p in c["parts"] if p):
            fail("merge_blanks", g, c["parts"], c)
        g = simmod.normalize(c["s"])
        w = "".join(ch for ch in c["s"].lower() if ch.isalnum())
        if g != w:
            fail("normalize", g, w, c)
        g = simmod.de_none(c["coords"])
        w = list(c["coords"])
        for i in range(2, len(w)):
            if w[i] is None:
                w[i] = w[i - 2]
        if list(g) != w:
            fail("de_none", g, w, c)
        g = sim.regular_polygon(c["r"], c["sides"], c["angle"])
        if len(g) != 2 * c["sides"]:
            fail("regular_polygon", len(g), 2 * c["sides"], c)
        pts = list(zip(g[::2], g[1::2]))
        for i in range(c["sides"]):
            (x0, y0), (x1, y1) = pts[i], pts[(i + 1) % c["sides"]]
            if not near(math.hypot(x0 - c["r"], y0 - c["r"]), c["r"], c["r"]) or abs(math.hypot(x1 - x0, y1 - y0) - 2 * c["r"] * math.sin(math.pi / c["sides"])) > 1e-6 * max(1, c["r"]):
                fail("regular_polygon", pts, "regular", c)
        w_, h_ = c["r"], abs(c["angle"])
        if tuple(sim.centered_rectangle(w_, h_)) != (-w_ / 2, -h_ / 2, w_ / 2, h_ / 2):
            fail("centered_rectangle", sim.centered_rectangle(w_, h_), (w_, h_), c)
        obs("utilities")
