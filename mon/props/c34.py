"""C34: what a frame (snapshot, video frame) shows"""
import math
import os
import shutil
import tempfile

import salabim.salabim as simmod
from mon.core import Violation, sim

ID = "C34"
RULE = ("random scenes of rectangles (also rounded), polygons, circles, ellipses, sectors, lines, points and images in screen and model coordinates, with constant and dynamic attributes (function of nothing, of t, of arg and t, method, "
        "changed afterwards), layers, anchors, offsets, rotation, transparency, visible, keep, remove and show, under changing views; snapshots and frames of (blind) videos are compared, on a grid of points, with an own renderer "
        "that evaluates the specification at the time of the frame")
CASES = {"quick": 2400, "thorough": 20000}
REQUIRED = ["frames", "points_bg", "points_object", "k_rectangle", "k_polygon", "k_circle", "k_line", "k_points", "k_image", "rounded", "sector", "transparent", "screen", "model_coordinates", "dynamic", "hidden", "removed", "kept_off",
            "views", "video_frames", "resets", "anchored", "overlaps", "shapes_sampled", "queue_frames", "queue_members", "text_frames", "text_lines", "text_attached", "texts_empty", "monitor_frames", "monitor_points", "monitors_removed", "monitor_labels", "monitors_shown_again", "queue_trajectories", "queues_shown_again", "children", "contours", "combined_assign", "combined_update", "combined_remove", "combined_show", "combined_create", "titles", "titles_ansi", "other_env", "meta_frames",
            "meta_nonempty", "meta_views", "classic_objects", "classic_updates", "classic_frames", "classic_moving", "classic_gone", "classic_hidden", "movie_frames", "movie_shown", "m_text", "m_rectangle", "m_polygon", "m_circle", "m_line", "m_points", "m_image", "no_numpy"]
ASSUMPTIONS = ["points within 3 pixels of an edge are not judged", "colours are compared within 8 levels"]
MARGIN = 3.2
COLORS = ["red", "green", "blue", "yellow", "purple", "cyan", "black", "orange"]
ANCH = {"sw": (0, 0), "s": (0.5, 0), "se": (1, 0), "w": (0, 0.5), "c": (0.5, 0.5), "e": (1, 0.5), "nw": (0, 1), "n": (0.5, 1), "ne": (1, 1)}
IMG_COLORS = [(250, 10, 10), (10, 200, 10), (10, 10, 250), (240, 240, 10)]  # nw, ne, sw, se


# ------------------------------------------------------------------ generation
def number(rng, lo, hi, dyn=True):
    v = round(rng.uniform(lo, hi), 1)
    k = rng.random()
    if not dyn or k < 0.55:
        return ["c", v]
    if k < 0.75:
        return ["t", v, round(rng.uniform(-6, 6), 1)]
    if k < 0.85:
        return ["f", v]
    if k < 0.95:
        return ["a", v, round(rng.uniform(-6, 6), 1)]
    return ["m", v, round(rng.uniform(-6, 6), 1)]


def choice(rng, values, dyn=0.3):
    if rng.random() < dyn:
        return ["alt", rng.choice(values), rng.choice(values), rng.choice([0.5, 1, 2])]
    return ["c", rng.choice(values)]


def color(rng):
    c = rng.choice(COLORS)
    if rng.random() < 0.15:
        return [c, rng.choice([0, 60, 128, 200])]
    return c


def new_object(rng, W, H):
    kind = rng.choice(["rectangle", "rectangle", "polygon", "circle", "circle", "line", "points", "image"])
    o = {"kind": kind, "sc": rng.random() < 0.5, "layer": choice(rng, [0, 0, 0, 1, -1, 2.5], 0.1), "x": number(rng, 0, W), "y": number(rng, 0, H), "angle": number(rng, -180, 360) if rng.random() < 0.5 else ["c", 0],
         "ox": number(rng, -25, 25) if rng.random() < 0.25 else ["c", 0], "oy": number(rng, -25, 25) if rng.random() < 0.25 else ["c", 0],
         "anchor": rng.choice(list(ANCH)) if rng.random() < 0.2 else "", "visible": choice(rng, [True, True, False], 0.5) if rng.random() < 0.3 else ["c", True],
         "keep": ["lt", rng.choice([1, 2, 3])] if rng.random() < 0.1 else ["c", True], "fill": ["c", color(rng)] if rng.random() < 0.7 else ["alt", color(rng), color(rng), rng.choice([0.5, 1])],
         "lw": 0, "line": rng.choice(COLORS)}
    if kind == "rectangle":
        a, b = rng.randint(-40, 20), rng.randint(-30, 20)
        o["shape"] = [a, b, a + rng.randint(15, 70), b + rng.randint(15, 60)]
        if rng.random() < 0.3:
            o["shape"].append(rng.choice([4, 8, 15, 100]))
        if rng.random() < 0.2:
            o["grow"] = rng.choice([-1, 1, 2])
    elif kind == "polygon":
        n = rng.randint(3, 6)
        r = rng.randint(15, 40)
        a0 = rng.random() * 6
        cx, cy = rng.randint(-20, 20), rng.randint(-20, 20)
        o["shape"] = [round(v, 1) for i in range(n) for v in (cx + r * math.cos(a0 + 2 * math.pi * i / n), cy + r * math.sin(a0 + 2 * math.pi * i / n))]
    elif kind == "circle":
        o["r0"] = number(rng, 15, 40, False)
        o["r1"] = rng.choice([None, None, rng.randint(10, 40)])
        if rng.random() < 0.35:
            a = rng.randint(-90, 180)
            o["arc"] = [a, a + rng.choice([60, 90, 120, 200, 270, 360])]
    elif kind == "line":
        pts = [rng.randint(-20, 20), rng.randint(-20, 20)]
        for _ in range(rng.randint(1, 3)):
            a = rng.random() * 6.28
            d = rng.randint(25, 60)
            pts += [round(pts[-2] + d * math.cos(a), 1), round(pts[-1] + d * math.sin(a), 1)]
        o["shape"] = pts
        o["lw"] = rng.choice([9, 12, 15])
    elif kind == "points":
        o["shape"] = [rng.randint(-50, 50) for _ in range(2 * rng.randint(1, 4))]
        o["lw"] = rng.choice([11, 14, 18])
    else:
        o["w"] = rng.choice([None, rng.randint(24, 70)])
        o["h"] = rng.choice([None, rng.randint(24, 70)])
        o["ianchor"] = rng.choice(list(ANCH))
        o["alpha"] = rng.choice([255, 255, 255, 100])
        o["flip"] = [rng.random() < 0.2, rng.random() < 0.2]
    if kind in ("rectangle", "polygon") and len(o["shape"]) != 5 and rng.random() < 0.25:
        o["contour"] = rng.choice([9, 12])
    if rng.random() < 0.15:
        o["parent"] = True
    return o


def gen(rng, index, tier):
    case = gen_kind(rng, index)
    case["no_numpy"] = rng.random() < 0.15
    return case


def gen_kind(rng, index):
    W, H = rng.choice([(240, 180), (200, 220), (300, 150)])
    if index % 6 == 5:
        comps = []
        for _ in range(rng.randint(1, 9)):
            comps.append([rng.choice(COLORS), rng.choice([14, 18, 24]), rng.choice([14, 18, 24]), rng.choice([0, 0, 1, 2]), rng.choice([1, 2, 3, 10]), rng.choice([None, 0, 1, -1])])
        return {"queue": comps, "W": W, "H": H, "dir": rng.choice(["e", "w", "n", "s", "E"]), "max": rng.choice([None, None, 1, 3]), "rev": rng.random() < 0.3, "x": rng.randint(30, W - 30), "y": rng.randint(30, H - 30),
                "anchor": rng.choice(["sw", "sw", "c", ""]), "times": sorted(rng.choice([0, 0.5, 1, 1.5, 2.25, 3, 4]) for _ in range(3)), "video": rng.random() < 0.5, "sc": rng.random() < 0.6,
                "view": [rng.choice([0, -50, 100]), rng.choice([0, 30]), rng.choice([0.5, 1, 2])], "yieldless": rng.random() < 0.5, "vis": rng.choice([True, True, "alt"]), "traj": rng.choice([None, None, None, [[61.3, 0], [0, 50]], [[0, -33.3], [-100, 0]]]), "toggle": rng.choice([None, None, 0, 1]),
                "parent": rng.choice([None, None, None, 0.75, 2.1])}
    if index % 6 == 4:
        return gen_meta(rng, W, H)
    if index % 12 == 3:
        return gen_monitor(rng, W, H)
    if index % 12 == 9:
        return gen_text(rng, W, H)
    if index % 12 == 1:
        return gen_classic(rng, W, H)
    if index % 24 == 7:
        return gen_movie(rng, W, H)
    if index % 48 == 43:
        return {"grid": rng.choice([50, 64, 80]), "W": W, "H": H, "view": [rng.choice([0, -50, 100]), rng.choice([0, 30, -20]), rng.choice([1, 2, 1.25])], "yieldless": rng.random() < 0.5, "color": rng.choice(["red", "blue"])}
    if index % 24 == 19:
        return {"title": rng.choice([None, None, "", "HHH", "HH\nH"]), "W": W, "H": H, "dir": rng.choice(["e", "w", "n", "s", "S"]), "traj": rng.random() < 0.2, "x": rng.randint(80, 120), "y": rng.randint(60, 100), "fs": rng.choice([12, 15, 20]),
                "ox": rng.choice([None, None, 0, -20, 12]), "oy": rng.choice([None, None, 0, 13, -20]), "sc": rng.random() < 0.6, "view": [rng.choice([0, -50, 100]), rng.choice([0, 30]), rng.choice([1, 1.25, 0.8])],
                "members": rng.randint(0, 3), "vis": rng.choice([True, True, True, False]), "dyn": rng.random() < 0.5, "late": rng.random() < 0.4, "yieldless": rng.random() < 0.5, "ansi": rng.random() < 0.4}
    objs = [new_object(rng, W, H) for _ in range(rng.randint(1, 6))]
    ops = []
    for _ in range(rng.randint(2, 7)):
        k = rng.random()
        if k < 0.35:
            ops.append(["run", rng.choice([0.25, 0.5, 1, 1.5])])
        elif k < 0.6:
            ops.append(["snap"])
        elif k < 0.72:
            i = rng.randrange(len(objs))
            what = rng.choice(["x", "y", "fill", "visible", "angle", "layer"])
            n = new_object(rng, W, H)
            ops.append(["set", i, what, n[what], rng.random() < 0.5])
        elif k < 0.78:
            ops.append(["remove", rng.randrange(len(objs))])
        elif k < 0.83:
            ops.append(["show", rng.randrange(len(objs))] if rng.random() < 0.8 else ["childless"])
        elif k < 0.88:
            ops.append(["view", rng.choice([0, -50, 100]), rng.choice([0, 30]), rng.choice([0.5, 1, 2, 1.6])])
        elif k < 0.92:
            ops.append(["reset_now", rng.choice([0, 5])])
        elif k < 0.96:
            ids = rng.sample(range(len(objs)), rng.randint(1, len(objs)))
            mode = rng.choice(["assign", "assign", "update", "create", "remove", "show"])
            what = rng.choice(["x", "y", "fill", "visible", "angle", "layer"] if mode == "assign" else ["x", "y", "visible", "angle", "layer"])
            ops.append(["combined", mode, ids, rng.randint(0, len(ids)), what, new_object(rng, W, H)[what]])
        else:
            ops.append(["poke", rng.uniform(-20, 20)])
    ops.append(["snap"])
    return {"W": W, "H": H, "view": [rng.choice([0, -50, 100]), rng.choice([0, 30]), rng.choice([0.5, 1, 2])], "bg": rng.choice(["white", "90%gray", "#204060"]), "objs": objs, "ops": ops,
            "video": [rng.choice([1, 2, 3]), rng.choice([2, 4, 5]), rng.choice([0.5, 1, 1.2])] if rng.random() < 0.3 else None, "format": rng.choice([None, {"ext": rng.choice(["png", "png", "gif"]), "pingpong": rng.random() < 0.5, "repeat": rng.choice([0, 1, 3]), "insert": rng.choice([0, 0, 1, 3])}]), "yieldless": rng.random() < 0.5, "parent": rng.choice([0.6013, 1.3517, 2.6019, 100])}


def gen_text(rng, W, H):
    att = rng.choice([None, "rectangle", "circle", "image", "polygon"])
    texts = ["HHH", "HH", ["HHH", "HH"], "HH\nHHH\nHH", ["HH", ["H", "HHH"]], "", "  ", None, ["HH", "HH\nH"]]
    anchor = rng.choice(list(ANCH))
    return {"text": [rng.choice(texts), rng.choice(texts)], "W": W, "H": H, "fs": rng.choice([12, 16, 20]), "anchor": anchor, "x": W * rng.uniform(0.4, 0.6), "y": H * rng.uniform(0.42, 0.58), "sc": rng.random() < 0.5,
            "view": [rng.choice([0, -50, 100]), rng.choice([0, 30]), rng.choice([1, 1.25, 0.8])], "attach": att, "ox": rng.choice([0, 0, 9, -14]), "oy": rng.choice([0, 0, 12, -8]), "tox": rng.choice([0, 0, 7, -9]),
            "toy": rng.choice([0, 0, 8, -6]), "angle": rng.choice([0, 0, 90, 180, 270]), "max_lines": rng.choice([0, 0, 1, 2, -1, -2]), "sizes": [rng.randint(10, 30) for _ in range(4)], "xy_anchor": rng.choice(["", "", "c", "ne", "sw"]),
            "yieldless": rng.random() < 0.5, "dyn": rng.random() < 0.5, "mutate": rng.random() < 0.3}


def gen_monitor(rng, W, H):
    evs = []
    for _ in range(rng.randint(0, 10)):
        evs.append([rng.choice([0.5, 1, 1.5, 2, 3]), rng.choice([0, 1, 2, 3, 5, 8, -1])])
    return {"monitor": evs, "W": W, "H": H, "level": rng.random() < 0.6, "hs": rng.choice([10, 15, 25]), "vs": rng.choice([5, 10]), "vo": rng.choice([0, 0, 10]), "w": rng.choice([60, 100, 140]), "h": rng.choice([40, 60, 90]),
            "x": rng.randint(5, 50), "y": rng.randint(5, 40), "lw": rng.choice([8, 9, 11]), "sc": rng.random() < 0.6, "scale": rng.choice([0.9, 1, 1.2]), "reset_now": rng.choice([None, None, None, 5, 0]), "reset": rng.choice([None, None, None, 2]),
            "snaps": sorted(rng.sample(range(0, 11), 2)), "tail": rng.choice([0.25, 1, 2.5]), "yieldless": rng.random() < 0.5, "other_env": rng.random() < 0.2, "keep": rng.choice([None, None, None, 3]),
            "offset": rng.choice([0, 0, 6, "dyn"]), "anchor": rng.choice(["sw", "sw", "s", "w", "c"]), "fill": rng.random() < 0.5, "visible": rng.choice([True, True, True, False]),
            "labels": rng.choice([None, None, [[0, 4], [0, 4]], [[1, 5, 8], [1, 5]], [[], [2, 6]], [[20, 3, -9], [3]], [[0, 3, 6], []]]), "labform": rng.choice(["list", "dict"]), "border": rng.choice([0, 0, 9]),
            "angle": rng.choice([0, 0, 0, 20, -90]), "parent": rng.choice([None, None, None, 2.25, 6.25, 100]), "again": rng.choice([None, None, 1])}


def classic_values(rng, kind, W, H, which, first):
    """values for the attributes with suffix which (0 or 1) of an Animate object"""
    v = {}

    def maybe(name, val, p=0.5):
        if rng.random() < p:
            v[name + which] = val
    maybe("x", rng.randint(0, W), 0.8 if first else 0.4)
    maybe("y", rng.randint(0, H), 0.8 if first else 0.4)
    maybe("angle", rng.randint(-180, 360), 0.3)
    maybe("offsetx", rng.randint(-20, 20), 0.2)
    maybe("offsety", rng.randint(-20, 20), 0.2)
    if kind in ("rectangle", "polygon", "circle"):
        maybe("fillcolor", color(rng), 0.9 if first else 0.4)
    if kind == "rectangle":
        a, b = rng.randint(-40, 10), rng.randint(-30, 10)
        maybe("rectangle", [a, b, a + rng.randint(20, 60), b + rng.randint(20, 60)], 1 if first else 0.4)
    elif kind == "polygon":
        a0 = rng.random() * 6
        q = rng.randint(20, 40)
        maybe("polygon", [round(w, 1) for i in range(4) for w in (q * math.cos(a0 + 1.57 * i), q * math.sin(a0 + 1.57 * i))], 1 if first else 0.2)
    elif kind == "circle":
        maybe("circle", rng.randint(15, 40), 1 if first else 0.4)
    elif kind == "line":
        a = rng.random() * 6.28
        maybe("line", [-10, 5, round(-10 + 50 * math.cos(a), 1), round(5 + 50 * math.sin(a), 1)], 1 if first else 0.4)
        maybe("linecolor", rng.choice(COLORS), 0.9 if first else 0.4)
        maybe("linewidth", rng.choice([9, 12, 15]), 1 if first else 0.4)
    elif kind == "points":
        maybe("points", [rng.randint(-50, 50) for _ in range(6)], 1 if first else 0.4)
        maybe("linecolor", rng.choice(COLORS), 0.9 if first else 0.4)
        maybe("linewidth", rng.choice([11, 14, 18]), 1 if first else 0.4)
    else:
        maybe("width", rng.randint(24, 60), 0.4)
        maybe("height", rng.randint(24, 60), 0.4)
        maybe("alpha", rng.choice([255, 100, 200]), 0.3)
    return v


def gen_classic(rng, W, H):
    objs = []
    for _ in range(rng.randint(1, 4)):
        kind = rng.choice(["rectangle", "rectangle", "polygon", "circle", "line", "points", "image"])
        kw = dict(classic_values(rng, kind, W, H, "0", True), **classic_values(rng, kind, W, H, "1", False))
        if rng.random() < 0.3:
            kw["t0"] = rng.choice([0, 0.5, 1])
        if rng.random() < 0.8:
            kw["t1"] = kw.get("t0", 0) + rng.choice([0.5, 1, 2, 4])
            if rng.random() < 0.2:
                kw["keep"] = False
        if rng.random() < 0.2:
            kw["layer"] = rng.choice([1, -1])
        if rng.random() < 0.1:
            kw["visible"] = False
        objs.append({"kind": kind, "sc": rng.random() < 0.5, "kw": kw, "create": rng.choice([0, 0, 0, 1, 2]), "ianchor": rng.choice(list(ANCH))})
    ops = []
    for _ in range(rng.randint(3, 9)):
        k = rng.random()
        if k < 0.4:
            ops.append(["run", rng.choice([0.25, 0.5, 1, 1.25])])
        elif k < 0.7:
            ops.append(["snap"])
        elif k < 0.9:
            i = rng.randrange(len(objs))
            kind = objs[i]["kind"]
            kw = dict(classic_values(rng, kind, W, H, "0", False), **classic_values(rng, kind, W, H, "1", False))
            if rng.random() < 0.7:
                kw["t1"] = rng.choice([0.5, 1, 2])  # relative to now
            if rng.random() < 0.2:
                kw["visible"] = rng.random() < 0.5
            if rng.random() < 0.2:
                kw["layer"] = rng.choice([0, 1, -1])
            if rng.random() < 0.1:
                kw["keep"] = rng.random() < 0.5
            ops.append(["update", i, kw])
        elif k < 0.95:
            ops.append(["remove" if rng.random() < 0.5 else "show", rng.randrange(len(objs))])
        else:
            ops.append(["create"])
    ops.append(["snap"])
    return {"classic": objs, "cops": ops, "W": W, "H": H, "view": [rng.choice([0, -50, 100]), rng.choice([0, 30]), rng.choice([0.5, 1, 2])], "yieldless": rng.random() < 0.5, "reset_now": rng.choice([None, None, 5, 0])}


def gen_movie(rng, W, H):
    frames = [[rng.choice(COLORS), rng.choice([100, 200, 500])] for _ in range(rng.randint(2, 4))]
    for a, b in zip(frames, frames[1:]):
        if a[0] == b[0]:
            b[0] = "white" if a[0] != "white" else "red"
    dur = sum(f[1] for f in frames) / 1000
    return {"movie": frames, "W": W, "H": H, "speed": rng.choice([1, 0.5, 2]), "start": rng.choice([None, 0, 0.5]), "repeat": rng.random() < 0.5, "pingpong": rng.random() < 0.4, "from": rng.choice([0, 0, 0.05]),
            "to": rng.choice([None, None, round(dur - 0.05, 3)]), "times": sorted(round(rng.uniform(0, 3 * dur), 4) for _ in range(rng.randint(2, 5))), "how": rng.choice(["file", "path", "image", "classic"]), "format": rng.choice(["gif", "gif", "webp"]),
            "wait": rng.choice([0, 0.4]), "yieldless": rng.random() < 0.5, "reset_now": rng.choice([None, None, 7])}


def frozen(spec):
    """a specification that is constant, with the value at t=0"""
    if isinstance(spec, list) and spec and isinstance(spec[0], list):
        return [frozen(s) for s in spec]
    if isinstance(spec, list) and spec and spec[0] in ("c", "t", "m", "f", "a", "alt"):
        return ["c", spec[1]]
    return spec


def gen_meta(rng, W, H):
    objs = []
    for _ in range(rng.randint(1, 5)):
        o = new_object(rng, W, H)
        o["lw"] = number(rng, 0, 6, True) if rng.random() < 0.7 else ["c", 1]
        o["lc"] = ["alt", color(rng), color(rng), rng.choice([0.5, 1])]
        o["text"] = ["alt", rng.choice(["", "abc", "x\ny", "Queue: 3"]), rng.choice(["", "other", "abc"]), rng.choice([0.5, 1, 2])]
        o["tc"] = ["alt", color(rng), color(rng), rng.choice([0.5, 1])]
        o["fs"] = number(rng, 8, 24)
        o["ta"] = ["alt", rng.choice(list(ANCH)), rng.choice(list(ANCH)), rng.choice([0.5, 1, 2])]
        o["tox"] = number(rng, -9, 9)
        o["xa"] = ["alt", rng.choice(["", "c", "ne"]), rng.choice(["", "c", "w"]), 1]
        o["ml"] = ["alt", 0, rng.choice([0, 1, 2]), 1]
        if rng.random() < 0.35:
            o["kind"] = rng.choice(["text", "text", "image"])
        o["as_points"] = ["alt", False, rng.random() < 0.3, 1]
        o["r0"] = number(rng, 15, 30)
        o["r1"] = ["alt", None, rng.randint(5, 30), rng.choice([0.5, 1])]
        o["arc"] = [number(rng, -90, 0), number(rng, 60, 360)]
        o["da"] = ["alt", False, True, 1]
        o["w"] = number(rng, 20, 60)
        o["h"] = ["alt", None, rng.randint(20, 60), 0.5]
        o["alpha"] = ["alt", 255, rng.choice([255, 100, 0, 40]), rng.choice([0.5, 1])]
        o["fh"] = ["alt", False, True, rng.choice([0.5, 1])]
        o["fv"] = ["alt", False, True, rng.choice([0.5, 1])]
        o["ia"] = ["alt", rng.choice(list(ANCH)), rng.choice(list(ANCH)), 1]
        o["sx"] = [number(rng, -30, -5), number(rng, -30, -5), number(rng, 5, 30), number(rng, 5, 30)]
        o["sr"] = ["alt", 0, rng.choice([0, 4, 9]), 1]
        o["keep"] = ["c", True]
        o["font"] = ["alt", "", rng.choice(["", "mono", "narrow"]), rng.choice([0.5, 1])]
        if rng.random() < 0.3:  # just one attribute changes, and only a bit
            for n in list(o):
                if n not in ("kind", "sc", "keep"):
                    o[n] = frozen(o[n])
            o["visible"] = ["c", True]
            o["x"], o["y"] = ["c", W // 2], ["c", H // 2]
            p = rng.choice([0.5, 1])
            c = rng.choice(COLORS)
            what = rng.choice({"image": ["flip", "flip", "alpha", "angle"], "text": ["tc", "font", "angle", "fs"]}.get(o["kind"], ["fill", "fill", "lc", "angle", "lw", "tc", "font"]))
            if what in ("fill", "lc", "tc"):
                o[what] = ["alt", [c, 255], [c, rng.choice([250, 90, 0])], p]
            elif what == "flip":
                v = rng.random() < 0.5
                o["fh"], o["fv"] = ["alt", v, not v, p], ["alt", not v, v, p]
            else:
                old = "" if what == "font" else (o[what][1] or 0)
                o[what] = ["alt", old, "mono" if what == "font" else 253 if what == "alpha" else old + 0.4, p]
            if what in ("font", "tc"):
                o["text"] = ["c", "Queue: 3"]
            o["lw"] = o["lw"] if what == "lw" else ["c", 2]
        elif rng.random() < 0.65:  # only a few attributes change
            own = {"image": ["w", "h", "alpha", "alpha", "fh", "fv", "ia"], "circle": ["r0", "r1", "arc", "da"], "rectangle": ["sx", "sr"], "polygon": ["sx"], "line": ["sx"], "points": ["sx"], "text": ["text", "tc", "fs", "ml"]}[o["kind"]]
            some = rng.sample(["x", "y", "angle", "layer", "visible", "ox", "oy", "xa", "text", "tc", "fs", "ta", "tox", "ml", "fill", "lc", "lw", "as_points"] + own if rng.random() < 0.4 else own, rng.randint(1, 2) if len(own) > 1 else 1)
            for n in list(o):
                if n not in some and n not in ("kind", "sc", "keep"):
                    o[n] = frozen(o[n])
        objs.append(o)
    return {"meta": objs, "W": W, "H": H, "view": [rng.choice([0, -50, 100]), rng.choice([0, 30]), rng.choice([0.5, 1, 2])], "views": [rng.random() < 0.3 for _ in range(4)],
            "times": sorted(rng.sample([0, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 2, 2.5, 3, 3.5], rng.choice([1, 2, 3, 3, 4]))), "bg": rng.choice(["white", "90%gray"]), "yieldless": rng.random() < 0.5,
            "poke": [rng.choice([0, 0, 5, -8]) for _ in range(4)]}


# ------------------------------------------------------------------ specification values
class Holder:
    def __init__(self):
        self.k = 0.0


def value(spec, t, holder):
    k = spec[0]
    if k == "c":
        return spec[1]
    if k in ("t", "m"):
        return spec[1] + spec[2] * t
    if k == "f":
        return spec[1] + holder.k
    if k == "a":
        return spec[1] + spec[2] * t + holder.k
    if k == "lt":
        return t < spec[1]
    return spec[1] if int(math.floor(t / spec[3])) % 2 == 0 else spec[2]


class Method:
    def __init__(self, spec, conv):
        self.spec, self.conv = spec, conv

    def get(self, t):
        return self.conv(value(self.spec, t, None))


def real(spec, holder, conv=lambda v: v):
    k = spec[0]
    if k == "c":
        return conv(spec[1])
    if k == "f":
        return lambda: conv(value(spec, 0, holder))
    if k == "a":
        return lambda arg, t: conv(value(spec, t, arg))
    if k == "m":
        return Method(spec, conv).get
    return lambda t: conv(value(spec, t, holder))


def tup(c):
    return tuple(c) if isinstance(c, list) else c


# ------------------------------------------------------------------ geometry
def seg_dist(px, py, ax, ay, bx, by):
    dx, dy = bx - ax, by - ay
    L = dx * dx + dy * dy
    u = max(0, min(1, ((px - ax) * dx + (py - ay) * dy) / L)) if L else 0
    return math.hypot(px - ax - u * dx, py - ay - u * dy)


def poly_depth(px, py, pts):
    """positive inside, negative outside: distance to the contour"""
    n = len(pts) // 2
    d = math.inf
    inside = False
    for i in range(n):
        ax, ay = pts[2 * i], pts[2 * i + 1]
        bx, by = pts[(2 * i + 2) % (2 * n)], pts[(2 * i + 3) % (2 * n)]
        d = min(d, seg_dist(px, py, ax, ay, bx, by))
        if (ay > py) != (by > py) and px < (bx - ax) * (py - ay) / (by - ay) + ax:
            inside = not inside
    return d if inside else -d


class Shape:
    """an object at a moment, in pixels; depth(px, py) -> (>MARGIN: inside, <-MARGIN: outside, else unknown), color"""
    def __init__(self, o, t, holder, view):
        g = lambda n: value(o[n], t, holder)
        W, H, x0, y0, scale = view
        s = 1 if o["sc"] else scale
        self.kind = o["kind"]
        x, y = g("x"), g("y")
        if not o["sc"]:
            # positions are given in pixels of a view with x0=y0=0 and scale 1
            pass
        if o["anchor"]:
            ax, ay = ANCH[o["anchor"]]
            x += ax * (W if o["sc"] else W / scale) + (0 if o["sc"] else x0)
            y += ay * (H if o["sc"] else H / scale) + (0 if o["sc"] else y0)
        self.qx, self.qy = (x, y) if o["sc"] else ((x - x0) * scale, (y - y0) * scale)
        a = math.radians(g("angle"))
        self.cos, self.sin = math.cos(a), math.sin(a)
        self.ox, self.oy = g("ox") * s, g("oy") * s
        self.layer = g("layer")
        self.s = s
        self.lw = o["lw"] * s
        self.o = o
        fill = g("fill")
        name, alpha = (fill[0], fill[1]) if isinstance(fill, (list, tuple)) else (fill, 255)
        self.color = RGB[name] + (alpha,)
        k = self.kind
        if k == "rectangle":
            p = list(o["shape"])
            if "grow" in o:
                p[2] += max(-10, min(10, o["grow"] * t))
            self.pts = [v * s for v in (p[0], p[1], p[2], p[1], p[2], p[3], p[0], p[3])]
            self.r = 0
            if len(p) > 4:
                self.r = min(p[4], abs(p[2] - p[0]) / 2, abs(p[3] - p[1]) / 2) * s
        elif k in ("polygon", "line", "points"):
            self.pts = [v * s for v in o["shape"]]
            if k != "polygon":
                self.color = RGB[o["line"]] + (255,)
        elif k == "circle":
            self.r0 = g("r0") * s
            self.r1 = self.r0 if o["r1"] is None else o["r1"] * s
        else:
            w, h = o["w"], o["h"]
            if w is None:
                w = 40 if h is None else h * 40 / 30
            if h is None:
                h = w * 30 / 40
            self.w, self.h = w * s, h * s

    def depth(self, px, py):
        dx, dy = px - self.qx, py - self.qy
        lx, ly = dx * self.cos + dy * self.sin - self.ox, -dx * self.sin + dy * self.cos - self.oy
        k = self.kind
        if k in ("rectangle", "polygon"):
            d = poly_depth(lx, ly, self.pts)
            if "contour" in self.o:
                half = self.o["contour"] * self.s / 2
                if d < half + MARGIN and min(math.hypot(lx - self.pts[i], ly - self.pts[i + 1]) for i in range(0, len(self.pts), 2)) < half + MARGIN + 1 + (self.o["contour"] * self.s * 2 if d < MARGIN else 0):
                    return 0, self.color  # corners are not judged
                if d > half + MARGIN:
                    return d, self.color
                if abs(d) < half - MARGIN:
                    return MARGIN + 1, RGB[self.o["line"]] + (255,)
                return (0, self.color) if d > -half - MARGIN else (d + half, self.color)
            if k == "rectangle" and self.r > 0:
                xs, ys = self.pts[::2], self.pts[1::2]
                X0, X1, Y0, Y1 = min(xs), max(xs), min(ys), max(ys)
                cx, cy = min(max(lx, X0 + self.r), X1 - self.r), min(max(ly, Y0 + self.r), Y1 - self.r)
                e = math.hypot(lx - cx, ly - cy)
                if e > 0 and cx != lx and cy != ly:
                    d = min(d, self.r - e)
            return d, self.color
        if k == "circle":
            e = math.hypot(lx / self.r0, ly / self.r1)
            d = (1 - e) * min(self.r0, self.r1)
            a0, a1 = self.o.get("arc", (0, 360))
            if a1 - a0 >= 360:
                # the line from the centre to the start of the arc belongs to the contour: not judged
                if d > 0 and seg_dist(lx, ly, 0, 0, math.cos(math.radians(a0)) * self.r0, math.sin(math.radians(a0)) * self.r1) <= MARGIN:
                    d = 0
            else:
                m = max(self.r0, self.r1) * 1.5
                # the arc angles are parameters of the ellipse
                th = math.degrees(math.atan2(ly / self.r1, lx / self.r0))
                ins = (th - a0) % 360 <= a1 - a0
                ds = min(seg_dist(lx, ly, 0, 0, m * math.cos(math.radians(a)) * self.r0 / m * 1.5, m * math.sin(math.radians(a)) * self.r1 / m * 1.5) for a in (a0, a1))
                d = min(d, ds if ins else -ds)
            return d, self.color
        if k == "line":
            p = self.pts
            n = len(p) // 2
            d = -math.inf
            for i in range(n - 1):
                e = seg_dist(lx, ly, *p[2 * i: 2 * i + 4])
                # the ends of the segments: butt ends, joints are not judged
                near_end = min(math.hypot(lx - p[2 * j], ly - p[2 * j + 1]) for j in (i, i + 1)) < self.lw
                v = self.lw / 2 - e
                if v > -MARGIN - 1 and near_end:
                    v = 0
                d = max(d, v)
            return d, self.color
        if k == "points":
            d = -math.inf
            for i in range(0, len(self.pts), 2):
                ex, ey = self.pts[i] + self.ox, self.pts[i + 1] + self.oy
                rx, ry = ex * self.cos - ey * self.sin, ex * self.sin + ey * self.cos
                d = max(d, self.lw / 2 - max(abs(dx - rx), abs(dy - ry)))
            return d, self.color
        ax, ay = ANCH[self.o["ianchor"]]
        lx, ly = lx + ax * self.w, ly + ay * self.h  # from the lower left corner
        d = min(lx, self.w - lx, ly, self.h - ly)
        fx, fy = lx / self.w, ly / self.h
        if d > -MARGIN and min(abs(fx - 0.5) * self.w, abs(fy - 0.5) * self.h) < MARGIN + 1 + 3 * max(1, self.w / 40, self.h / 30):
            return 0, self.color
        if self.o["flip"][0]:
            fx = 1 - fx
        if self.o["flip"][1]:
            fy = 1 - fy
        return d, IMG_COLORS[(0 if fy > 0.5 else 2) + (fx > 0.5)] + (self.o["alpha"],)


RGB = {"red": (255, 0, 0), "green": (0, 128, 0), "blue": (0, 0, 255), "yellow": (255, 255, 0), "purple": (128, 0, 128), "cyan": (0, 255, 255), "black": (0, 0, 0), "orange": (255, 165, 0),
       "white": (255, 255, 255), "#204060": (0x20, 0x40, 0x60)}


def compare(im, W, H, bg, shapes, t, obs, what):
    """im: PIL image; shapes in order of drawing"""
    if im.size != (W, H):
        raise Violation("%s has size %r, should be %r" % (what, im.size, (W, H)))
    px = im.convert("RGB").load()
    obs("frames")
    seen = set()
    for sx in range(3, W, 7):
        for sy in range(3, H, 7):
            col = bg
            unknown = False
            n = 0
            top = None
            for i, s in enumerate(shapes):
                d, c = s.depth(sx + 0.5, H - sy - 0.5)
                if d > MARGIN:
                    n += 1
                    a = c[3] / 255
                    col = tuple(a * u + (1 - a) * v for u, v in zip(c, col))
                    if a:
                        top = i
                    if c[3] == 255:
                        unknown = False
                elif d >= -MARGIN:
                    unknown = True
            if unknown or col is None:
                continue
            got = px[sx, sy]
            if max(abs(u - v) for u, v in zip(got, col)) > 8:
                raise Violation("%s at t=%r: pixel (%d, %d) is %r, should be %r (%s)" % (
                    what, t, sx, H - sy, got, tuple(round(c) for c in col), "background" if top is None else "object %r" % (shapes[top].o,)))
            obs("points_bg" if top is None else "points_object")
            if n > 1:
                obs("overlaps")
            if top is not None:
                seen.add(top)
    obs("shapes_sampled", len(seen))


# ------------------------------------------------------------------ scenes
def check_scene(case, obs, tmp):
    from PIL import Image

    env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
    W, H = case["W"], case["H"]
    env.show_time(False)
    env.modelname("")
    env.background_color(case["bg"])
    view = [W, H, 0, 0, 1]

    def set_view(x0, y0, scale):
        view[2:] = [x0, y0, scale]
        env.animation_parameters(animate=None, width=W, height=H, x0=x0, y0=y0, x1=x0 + W / scale)
        for u in (0, x0, 17.25, -3.5):  # model coordinates and screen coordinates
            pairs = (("x", (u - x0) * scale), ("y", (u - y0) * scale), ("size", u * scale))
            for n, w in pairs:
                g, b = getattr(env, "user_to_screen_coordinates_" + n)(u), getattr(env, "screen_to_user_coordinates_" + n)(w)
                if abs(g - w) > 1e-6 or abs(b - u) > 1e-6:
                    raise Violation("user_to_screen_coordinates_%s(%r) is %r, should be %r; screen_to_user_coordinates_%s(%r) is %r with view %r" % (n, u, g, w, n, w, b, (x0, y0, scale)))
        for n, w in (("x0", x0), ("y0", y0), ("x1", x0 + W / scale), ("y1", y0 + H / scale), ("scale", scale), ("width", W), ("height", H)):
            g = getattr(env, n)()
            if abs(g - w) > 1e-6:
                raise Violation("%s() is %r, should be %r" % (n, g, w))
    set_view(*case["view"])
    bg = tuple(env.colorspec_to_tuple(case["bg"])[:3]) if case["bg"] not in RGB else RGB[case["bg"]]
    holder = Holder()
    img = Image.new("RGBA", (40, 30))
    for ix in range(40):
        for iy in range(30):
            img.putpixel((ix, iy), IMG_COLORS[(0 if iy < 15 else 2) + (ix >= 20)] + (255,))
    conv = {"fill": tup}
    names = {"fill": "fillcolor", "ox": "offsetx", "oy": "offsety"}
    objs = []
    parent = Parent("parent", env=env, till=case["parent"], yl=case["yieldless"])
    for o in [dict(o) for o in case["objs"]]:
        kw = dict(screen_coordinates=o["sc"], arg=holder, xy_anchor=o["anchor"], env=env)
        for n in ("x", "y", "angle", "layer", "visible", "keep", "ox", "oy"):
            kw[names.get(n, n)] = real(o[n], holder)
        k = o["kind"]
        if k in ("rectangle", "polygon", "circle"):
            kw["fillcolor"] = real(o["fill"], holder, tup)
            kw["linewidth"] = o.get("contour", 0)
            if "contour" in o:
                kw["linecolor"] = o["line"]
                obs("contours")
        if "parent" in o:
            kw["parent"] = parent
            obs("children")
        if k == "rectangle":
            base = tuple(o["shape"])
            if "grow" in o:
                kw["spec"] = lambda t, base=base, gr=o["grow"]: (base[0], base[1], base[2] + max(-10, min(10, gr * t))) + base[3:]
            else:
                kw["spec"] = base
            ao = sim.AnimateRectangle(**kw)
        elif k == "polygon":
            ao = sim.AnimatePolygon(spec=tuple(o["shape"]), **kw)
        elif k == "circle":
            arc = dict(zip(("arc_angle0", "arc_angle1"), o["arc"])) if "arc" in o else {}
            ao = sim.AnimateCircle(radius=real(o["r0"], holder), radius1=o["r1"], **arc, **kw)
        elif k == "line":
            ao = sim.AnimateLine(spec=tuple(o["shape"]), linecolor=o["line"], linewidth=o["lw"], **kw)
        elif k == "points":
            ao = sim.AnimatePoints(spec=tuple(o["shape"]), linecolor=o["line"], linewidth=o["lw"], **kw)
        else:
            ao = sim.AnimateImage(image=img, width=o["w"], height=o["h"], anchor=o["ianchor"], alpha=o["alpha"], flip_horizontal=o["flip"][0], flip_vertical=o["flip"][1], **kw)
        o["ao"] = ao
        o["there"] = True
        objs.append(o)
        obs("k_" + k)
        obs("rounded", k == "rectangle" and len(o["shape"]) > 4)
        obs("sector", "arc" in o)
        obs("screen" if o["sc"] else "model_coordinates")
        obs("transparent", isinstance(o["fill"][1], list) or o.get("alpha", 255) != 255)
        obs("anchored", bool(o["anchor"]))
        obs("dynamic", sum(o[n][0] not in "c" for n in ("x", "y", "angle", "fill", "visible", "layer", "ox", "oy")))
    off = 0.0
    ended = False

    def passed(tabs):
        """objects with a parent are removed when its process ends"""
        nonlocal ended
        if not ended and tabs >= case["parent"]:
            ended = True
            for o in objs:
                if "parent" in o and not o.get("orphan"):
                    o["there"] = False

    def frame(im, tabs, what):
        t = tabs - off
        shapes = []
        for i, o in enumerate(objs):
            if not o["there"]:
                obs("removed")
                continue
            if not value(o["keep"], t, holder):
                o["there"] = False
                obs("kept_off")
                continue
            if not value(o["visible"], t, holder):
                obs("hidden")
                continue
            shapes.append((Shape(o, t, holder, view), i))
        shapes.sort(key=lambda s: (-s[0].layer, s[1]))
        compare(im, W, H, bg, [s for s, _ in shapes], t, obs, what)

    def check_removed():
        for o in objs:
            if bool(o["ao"].is_removed()) == o["there"]:
                raise Violation("is_removed() is %r for %r" % (o["ao"].is_removed(), o))

    def snap():
        fn = os.path.join(tmp, "s.png")
        env.snapshot(fn)
        with Image.open(fn) as im:
            im.load()
        frame(im, now, "snapshot")
        check_removed()

    now = 0.0
    for op in case["ops"]:
        if op[0] == "run":
            env.run(op[1])
            now += op[1]
            passed(now)
        elif op[0] == "snap":
            snap()
        elif op[0] == "set":
            o = objs[op[1]]
            n = op[2]
            if n == "fill" and o["kind"] not in ("rectangle", "polygon", "circle"):
                continue
            o[n] = op[3]
            v = real(op[3], holder, conv.get(n, lambda v: v))
            if op[4]:
                setattr(o["ao"], names.get(n, n), v)
            else:
                o["ao"](**{names.get(n, n): v})
        elif op[0] == "remove":
            objs[op[1]]["ao"].remove()
            objs[op[1]]["there"] = False
        elif op[0] == "show":
            objs[op[1]]["ao"].show()
            objs[op[1]]["there"] = True
        elif op[0] == "childless":
            parent.remove_animation_children()
            for o in objs:
                if "parent" in o and not o.get("orphan"):
                    o["there"] = False
                    o["orphan"] = True
        elif op[0] == "combined":
            mode, ids, n, at = op[1], op[2], op[4], op[3]
            aos = [objs[i]["ao"] for i in ids]
            v = real(op[5], holder, conv.get(n, lambda v: v))
            first = [sim.AnimateCombined(aos[:at])] if at else []
            if mode == "create":
                whole = sim.AnimateCombined(first + aos[at:], **{names.get(n, n): v})
            else:
                whole = sim.AnimateCombined(iter(first))
                for ao in aos[at:]:
                    whole.append(ao)
            if mode == "assign":
                setattr(whole, names.get(n, n), v)
            elif mode == "update":
                whole.update(**{names.get(n, n): v})
            elif mode == "remove":
                whole.remove()
            elif mode == "show":
                whole.show()
            for i in ids:
                if mode == "remove":
                    objs[i]["there"] = False
                elif mode == "show":
                    objs[i]["there"] = True
                elif n != "fill" or objs[i]["kind"] in ("rectangle", "polygon", "circle"):
                    objs[i][n] = op[5]
            if bool(whole.is_removed()) != (not any(objs[i]["there"] for i in ids)):
                raise Violation("is_removed() of an AnimateCombined is %r" % whole.is_removed())
            if len(whole.animation_objects) != len(first) + len(aos) - at:
                raise Violation("an AnimateCombined of %d objects has %d" % (len(first) + len(aos) - at, len(whole.animation_objects)))
            for attr, has in (("layer", ids), ("radius", [i for i in ids if objs[i]["kind"] == "circle"]), ("image", [i for i in ids if objs[i]["kind"] == "image"])):
                try:
                    g = getattr(whole, attr)
                except AttributeError:
                    if has:
                        raise Violation("an AnimateCombined does not have the attribute %r of its members" % attr)
                else:
                    w = getattr(objs[has[0]]["ao"], attr) if has else None
                    if not has or (g is not w and g(env.now()) != w(env.now())):
                        raise Violation("the attribute %r of an AnimateCombined is %r" % (attr, g))
            obs("combined_" + mode)
        elif op[0] == "view":
            set_view(*op[1:])
            obs("views")
        elif op[0] == "reset_now":
            env.reset_now(op[1])
            off = now - op[1]
            obs("resets")
        else:
            holder.k = op[1]
    if case["video"]:
        dur, fps, speed = case["video"]
        fps *= 1.0
        env.fps(fps)
        env.speed(speed)
        base = now
        fmt = case.get("format") or {"ext": "", "pingpong": False, "repeat": 1, "insert": 0}
        env.video_pingpong(fmt["pingpong"])
        env.video_repeat(fmt["repeat"])
        with env.video(os.path.join(tmp, "v." + fmt["ext"] if fmt["ext"] else "v*.png")):
            if fmt["insert"]:
                env.insert_frame(Image.new("RGB", (2 * W, 2 * H), (10, 200, 10)), fmt["insert"])
            env.animate(True)
            env.run(dur)
        now += dur
        files = sorted(f for f in os.listdir(tmp) if f.startswith("v"))
        frames = video_frames(tmp, files, fmt, fps, (10, 200, 10), obs) if fmt["ext"] else [os.path.join(tmp, f) for f in files]
        step = speed / fps
        exact = fmt["ext"] != "gif"
        n = int(math.floor(dur / step + 1e-9)) + 1
        lo = int(math.floor(dur / step - 1e-9)) + 1
        if frames is None:
            frames = []
        elif not lo <= len(frames) <= n or not fmt["ext"] and files != ["v%06d.png" % i for i in range(len(files))]:
            raise Violation("video of %r with %r frames per second and speed %r consists of %d frames in %r" % (dur, fps, speed, len(frames), files))
        for k, im in enumerate(frames):
            t = base + k * step
            if isinstance(im, str):
                with Image.open(im) as im:
                    im.load()
            passed(t)
            if step != 0.5 and step != 0.25 and near_switch(objs, t - off):
                exact = False  # the frame times are sums of a step that is not exact
                continue
            if fmt["ext"] == "gif":
                exact = False
                continue  # the colours in a gif are approximate
            frame(im, t, "video frame %d" % k)
            obs("video_frames")
        passed(now)
        if exact:
            check_removed()
        if env.now() != now - off:
            raise Violation("the video changed the end of the run")
    obs.sig = repr(case["objs"])


def video_frames(tmp, files, fmt, fps, color, obs):
    """the frames of an animated png or gif"""
    from PIL import Image

    if files != ["v." + fmt["ext"]]:
        raise Violation("video v.%s gives the files %r" % (fmt["ext"], files))
    frames = []
    with Image.open(os.path.join(tmp, files[0])) as im:
        loop = im.info.get("loop")
        for k in range(getattr(im, "n_frames", 1)):
            im.seek(k)
            d = im.info.get("duration", 0)
            repeat = 1
            if fmt["ext"] == "gif":  # equal frames are combined
                repeat = d * fps / 1000
                if abs(repeat - round(repeat)) > 1e-6 or repeat < 0.5:
                    repeat = 1 if getattr(im, "n_frames", 1) == 1 else 0
            elif getattr(im, "n_frames", 1) > 1 and abs(d - 1000 / fps) > 1e-6:
                raise Violation("a frame lasts %r ms with %r frames per second" % (d, fps))
            frames += [im.convert("RGBA")] * round(repeat)
        still = getattr(im, "n_frames", 1) == 1
    obs("video_" + fmt["ext"])
    if still and fmt["ext"] == "gif":
        return None  # all frames are equal
    if not still and (loop or (1 if fmt["ext"] == "gif" else 0)) != fmt["repeat"] and not (fmt["ext"] == "gif" and fmt["repeat"] == 0 and loop == 0):
        raise Violation("a video with video_repeat(%r) has loop %r" % (fmt["repeat"], loop))
    if fmt["pingpong"]:
        obs("video_pingpong")
        n = len(frames) // 2
        if len(frames) % 2 or any(a.tobytes() != b.tobytes() for a, b in zip(frames[:n], frames[:n - 1:-1])):
            raise Violation("a pingpong video of %d frames is not symmetric" % len(frames))
        frames = frames[:n]
    for k in range(fmt["insert"]):
        obs("video_inserted")
        if k >= len(frames) or any(abs(g - w) > 3 for at in ((0.1, 0.1), (0.5, 0.5), (0.9, 0.8)) for g, w in zip(frames[k].getpixel((int(at[0] * frames[k].width), int(at[1] * frames[k].height)))[:3], color)):
            raise Violation("inserted frame %d is not in the video" % k)
    return frames[fmt["insert"]:]


def near_switch(objs, t):
    for o in objs:
        for n in ("visible", "layer", "fill", "keep"):
            s = o[n]
            if s[0] == "alt":
                u = t / s[3]
                if abs(u - round(u)) < 1e-6:
                    return True
            if s[0] == "lt" and abs(t - s[1]) < 1e-6:
                return True
    return False


# ------------------------------------------------------------------ queues
def check_queue(case, obs, tmp):
    from PIL import Image

    env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
    W, H = case["W"], case["H"]
    env.show_time(False)
    env.modelname("")
    x0, y0, scale = case["view"]
    env.animation_parameters(animate=None, width=W, height=H, x0=x0, y0=y0, x1=x0 + W / scale, background_color="white")
    sc = case["sc"]
    s = 1 if sc else scale
    q = sim.Queue("q", env=env)
    hist = []

    class Member(sim.Component):
        def setup(self, color, w, h):
            self.color, self.w, self.h = color, w, h

        def animation_objects(self, id, screen_coordinates):
            ao = sim.AnimateRectangle(spec=(-self.w / s / 2 + 1 / s, -self.h / s / 2 + 1 / s, self.w / s / 2 - 1 / s, self.h / s / 2 - 1 / s), fillcolor=self.color, linewidth=0, screen_coordinates=screen_coordinates, env=env)
            return self.w / s, self.h / s, ao

    plan = []
    for i, (c, w, h, a, d, p) in enumerate(case["queue"]):
        m = Member("m%d" % i, process=None, color=c, w=w, h=h, env=env)
        plan.append((a, 0, i, m, p))
        plan.append((a + d, 1, i, m, p))
    plan.sort(key=lambda e: e[:3])
    kw = {}
    if case["vis"] == "alt":
        kw["visible"] = lambda t: int(t) % 2 == 0
    px, py = (case["x"], case["y"])
    ax, ay = ANCH[case["anchor"] or "sw"]
    if case["anchor"]:
        px, py = px - ax * W, py - ay * H
    if sc:
        x, y = px, py
    else:
        x, y = px / scale, py / scale
        if not case["anchor"]:
            x, y = x + x0, y + y0
    if case["traj"]:
        if case["anchor"]:
            x, y = (case["x"], case["y"]) if sc else (case["x"] / scale + x0, case["y"] / scale + y0)
        (a, b), (c, d) = case["traj"]
        kw["trajectory"] = sim.TrajectoryPolygon([v / s for v in (0, 0, a, b, a + c, b + d)], env=env)
        obs("queue_trajectories")
    if case["parent"]:
        kw["parent"] = Parent("parent", env=env, till=case["parent"], yl=case["yieldless"])
    there = True
    anim = q.animate(x=x, y=y, title="", direction=case["dir"], max_length=case["max"], reverse=case["rev"], xy_anchor="" if case["traj"] else case["anchor"], screen_coordinates=sc, **kw)

    def apply(until):
        while plan and plan[0][0] <= until:
            a, kind, i, m, p = plan.pop(0)
            env.run(till=a) if a > env.now() else None
            if kind == 0:
                m.enter(q) if p is None else m.enter_sorted(q, p)
            elif m in q:
                m.leave(q)
        if until > env.now():
            env.run(till=until)

    def shapes(t, members):
        out = []
        if case["vis"] == "alt" and int(t) % 2 or not there:
            return out
        if case["parent"] and t >= case["parent"] and not again:
            return out
        cx, cy = case["x"], case["y"]
        way = 0
        ms = list(reversed(members)) if case["rev"] else list(members)
        for m in ms[: case["max"]]:
            angle = 0
            if case["traj"]:
                (a, b), (c, d) = case["traj"]
                l1, l2 = math.hypot(a, b), math.hypot(c, d)
                f1, f2 = min(1, way / l1), min(1, max(0, way - l1) / l2)
                cx, cy = case["x"] + a * f1 + c * f2, case["y"] + b * f1 + d * f2
                angle = math.degrees(math.atan2(b, a) if way < l1 else math.atan2(d, c))
                way += m.w
            o = {"kind": "rectangle", "sc": True, "x": ["c", cx], "y": ["c", cy], "angle": ["c", angle], "anchor": "", "ox": ["c", 0], "oy": ["c", 0], "layer": ["c", 0], "lw": 0, "fill": ["c", m.color],
                 "shape": [-m.w / 2 + 1, -m.h / 2 + 1, m.w / 2 - 1, m.h / 2 - 1], "who": m.name()}
            out.append(Shape(o, t, None, [W, H, 0, 0, 1]))
            d = case["dir"].lower() if not case["traj"] else ""
            cx += m.w if d == "e" else -m.w if d == "w" else 0
            cy += m.h if d == "n" else -m.h if d == "s" else 0
        obs("queue_members", len(out))
        return out

    again = False
    for k, t in enumerate(case["times"]):
        apply(t)
        if case["toggle"] is not None:
            if k == case["toggle"]:
                anim.remove()
                there = False
            elif k == case["toggle"] + 1:
                anim.show()
                there = True
                again = not case["parent"] or t >= case["parent"]
                obs("queues_shown_again")
        gone = not there or bool(case["parent"] and t >= case["parent"] and not again)
        if bool(anim.is_removed()) != gone:
            raise Violation("is_removed() of an AnimateQueue is %r, should be %r" % (anim.is_removed(), gone))
        fn = os.path.join(tmp, "q.png")
        env.snapshot(fn)
        with Image.open(fn) as im:
            im.load()
        compare(im, W, H, RGB["white"], shapes(t, list(q)), t, obs, "snapshot of queue %r" % [m.name() for m in q])
        obs("queue_frames")
    if case["video"]:
        env.fps(2)
        env.speed(1)
        base = env.now()
        with env.video(os.path.join(tmp, "v*.png")):
            env.animate(True)
            states = []
            for k in range(5):
                t = base + k * 0.5
                apply(t)
                # the frame at t is made before the members change at t
                states.append((t, list(q)))
        files = sorted(f for f in os.listdir(tmp) if f.startswith("v"))
        if not 4 <= len(files) <= 5:
            raise Violation("video consists of %r" % files)
        for k, f in enumerate(files):
            t = base + k * 0.5
            before = None
            if any(e[0] == t or abs(e[0] - t) < 1e-9 for e in PLAN(case)):
                continue
            with Image.open(os.path.join(tmp, f)) as im:
                im.load()
            compare(im, W, H, RGB["white"], shapes(t, states[k][1]), t, obs, "video frame of queue")
            obs("queue_frames")
    obs.sig = repr(case)


def PLAN(case):
    return [(a,) for _, _, _, a, d, _ in case["queue"]] + [(a + d,) for _, _, _, a, d, _ in case["queue"]]


# ------------------------------------------------------------------ classic animation objects
def check_classic(case, obs, tmp):
    from PIL import Image

    env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
    W, H = case["W"], case["H"]
    env.show_time(False)
    env.modelname("")
    x0, y0, scale = case["view"]
    env.animation_parameters(animate=None, width=W, height=H, x0=x0, y0=y0, x1=x0 + W / scale, background_color="white")
    img = Image.new("RGBA", (40, 30))
    for ix in range(40):
        for iy in range(30):
            img.putpixel((ix, iy), IMG_COLORS[(0 if iy < 15 else 2) + (ix >= 20)] + (255,))
    if case["reset_now"] is not None:
        env.run(1)
        env.reset_now(case["reset_now"])
        obs("resets")
    base = now = case["reset_now"] or 0
    objs = []
    pending = [dict(o, idx=i) for i, o in enumerate(case["classic"])]
    ANI = ("x", "y", "offsetx", "offsety", "angle", "fillcolor", "linecolor", "linewidth", "rectangle", "polygon", "circle", "line", "points", "width", "height", "alpha")
    DEF = {"x": 0, "y": 0, "offsetx": 0, "offsety": 0, "angle": 0, "alpha": 255, "fillcolor": "black", "linecolor": "black"}

    def at(o, n, t):
        v0, v1, t0, t1 = o["0"].get(n), o["1"].get(n), o["t0"], o["t1"]
        if v0 is None and v1 is None:
            return None
        if n in ("width", "height") and v0 is None:
            v0 = 40 if n == "width" else 30
        if n in ("fillcolor", "linecolor"):
            v0, v1 = [v if isinstance(v, tuple) else RGB[v] + (255,) if isinstance(v, str) else RGB[v[0]] + (v[1],) for v in (v0, v1)]
        if t <= t0 or t1 == math.inf:
            f = 0
        elif t >= t1:
            f = 1
        else:
            f = (t - t0) / (t1 - t0)
        if isinstance(v0, (list, tuple)):
            return tuple(a + f * (b - a) for a, b in zip(v0, v1))
        return v0 + f * (v1 - v0)

    def create():
        o = dict(pending.pop(0))
        kw = {n: tup(v) for n, v in o["kw"].items()}
        for n in ("t0", "t1"):
            if n in kw:
                kw[n] = kw[n] + (now if n == "t0" or "t0" not in kw else 0)
        if "t0" in o["kw"] and "t1" in kw:
            kw["t1"] = o["kw"]["t1"] + now
        if o["kind"] == "image":
            kw.update(image=img, anchor=o["ianchor"])
        if o["kind"] == "circle" and case["yieldless"]:
            kw["circle0"] = (kw["circle0"],)
            if "circle1" in kw:
                kw["circle1"] = (kw["circle1"],)
        o["ao"] = sim.Animate(screen_coordinates=o["sc"], env=env, **kw)
        o["t0"] = kw.get("t0", now)
        o["t1"] = kw.get("t1", math.inf)
        o["keep"], o["visible"], o["layer"] = kw.get("keep", True), kw.get("visible", True), kw.get("layer", 0)
        o["0"] = {n: o["kw"].get(n + "0", DEF.get(n)) for n in ANI}
        o["1"] = {n: o["0"][n] if o["kw"].get(n + "1") is None else o["kw"][n + "1"] for n in ANI}
        o["there"] = True
        objs.append(o)
        obs("classic_objects")

    def update(o, kw):
        real_kw = {n: tup(v) for n, v in kw.items()}
        if "t1" in kw:
            real_kw["t1"] = now + kw["t1"]
        if o["kind"] == "circle" and case["yieldless"]:
            for n in ("circle0", "circle1"):
                if n in kw:
                    real_kw[n] = (kw[n],)
        o["ao"].update(**real_kw)
        o["0"] = {n: kw[n + "0"] if n + "0" in kw else at(o, n, now) for n in ANI}
        o["1"] = {n: kw[n + "1"] if n + "1" in kw else o["0"][n] for n in ANI}
        o["t0"], o["t1"] = now, real_kw.get("t1", math.inf)
        for n in ("keep", "visible", "layer"):
            if n in kw:
                o[n] = kw[n]
        obs("classic_updates")

    def snap():
        fn = os.path.join(tmp, "c.png")
        env.snapshot(fn)
        with Image.open(fn) as im:
            im.load()
        shapes = []
        for i, o in enumerate(objs):
            if not o["there"]:
                continue
            if not (o["keep"] or now <= o["t1"]):
                o["there"] = False
                obs("classic_gone")
                continue
            if not (o["visible"] and now >= o["t0"]):
                obs("classic_hidden")
                continue
            g = lambda n: at(o, n, now)
            k = o["kind"]
            spec = {"kind": k, "sc": o["sc"], "x": ["c", g("x")], "y": ["c", g("y")], "angle": ["c", g("angle")], "anchor": "", "ox": ["c", g("offsetx")], "oy": ["c", g("offsety")], "layer": ["c", o["layer"]], "lw": 0, "fill": ["c", "red"]}
            if k in ("rectangle", "polygon", "line", "points"):
                spec["shape"] = g(k)
            if k == "circle":
                spec.update(r0=["c", g("circle")], r1=None)
            if k in ("line", "points"):
                spec.update(lw=g("linewidth"), line="red")
            if k == "image":
                spec.update(w=g("width"), h=g("height"), ianchor=o["ianchor"], flip=[False, False], alpha=int(g("alpha")))
            sh = Shape(spec, now, None, [W, H, x0, y0, scale])
            if k != "image":
                sh.color = g("linecolor" if k in ("line", "points") else "fillcolor")
            if o["t1"] != math.inf and o["t0"] < now < o["t1"]:
                obs("classic_moving")
            shapes.append((sh, o["layer"], i))
        shapes.sort(key=lambda q: (-q[1], q[2]))
        compare(im, W, H, RGB["white"], [q[0] for q in shapes], now, obs, "frame of Animate objects")
        obs("classic_frames")
        for o in objs:
            if bool(o["ao"].is_removed()) == o["there"]:
                raise Violation("is_removed() is %r for %r" % (o["ao"].is_removed(), o))

    create()
    for o in list(pending):
        if o["create"] == 0:
            pending.remove(o)
            pending.insert(0, o)
            create()
    for op in case["cops"]:
        if op[0] == "run":
            env.run(op[1])
            now += op[1]
        elif op[0] == "snap":
            snap()
        elif op[0] == "create":
            if pending:
                create()
        elif any(o["idx"] == op[1] for o in objs):
            o = next(o for o in objs if o["idx"] == op[1])
            if op[0] == "update":
                update(o, op[2])
            elif op[0] == "remove":
                o["ao"].remove()
                o["there"] = False
            else:
                o["ao"].show()
                o["there"] = True
    obs.sig = repr(case)


# ------------------------------------------------------------------ animated images
def check_movie(case, obs, tmp):
    from PIL import Image

    env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
    W, H = case["W"], case["H"]
    env.show_time(False)
    env.modelname("")
    env.animation_parameters(animate=None, width=W, height=H, x0=0, y0=0, x1=W, background_color="#204060")
    ims = [Image.new("RGBA", (20, 20), RGB[c] + (255,)) for c, _ in case["movie"]]
    fn = os.path.join(tmp, "movie." + case["format"])
    extra = {"lossless": True} if case["format"] == "webp" else {"disposal": 2}
    ims[0].save(fn, save_all=True, append_images=ims[1:], duration=[d for _, d in case["movie"]], loop=0, **extra)
    with Image.open(fn) as im:
        if im.n_frames != len(ims):  # (not expected)
            obs.sig = repr(case)
            return
    off = 0.0
    if case["reset_now"] is not None:
        env.run(1)
        env.reset_now(case["reset_now"])
    now0 = case["reset_now"] or 0
    if case["wait"]:
        env.run(case["wait"])
    created = now0 + case["wait"]
    spec = {"file": fn, "path": __import__("pathlib").Path(fn), "classic": fn}.get(case["how"])
    if spec is None:
        spec = Image.open(fn)
    start = created if case["start"] is None else now0 + case["start"]
    kw = dict(animation_speed=case["speed"], animation_repeat=case["repeat"], animation_pingpong=case["pingpong"], animation_from=case["from"])
    if case["start"] is not None:
        kw["animation_start"] = start
    if case["to"] is not None:
        kw["animation_to"] = case["to"]
    if case["how"] == "classic":
        sim.Animate(image=spec, x0=W / 2, y0=H / 2, width0=60, height0=60, screen_coordinates=True, env=env, **kw)
    else:
        sim.AnimateImage(image=spec, x=W / 2, y=H / 2, width=60, height=60, anchor="c", env=env, **kw)
    ends = []
    e = 0
    for _, d in case["movie"]:
        e += d / 1000
        ends.append(e)
    lo, hi = case["from"], e if case["to"] is None else case["to"]
    L = hi - lo
    for dt in case["times"]:
        t = now0 + case["wait"] + dt
        if t > env.now():
            env.run(till=t)
        a = (env.now() - start) * case["speed"]
        span = L * (2 if case["pingpong"] else 1)
        exp = None
        if a < 0:
            if a > -1e-6:
                continue
        elif not case["repeat"] and a > span:
            if a < span + 1e-6:
                continue
        else:
            m = a % span
            if min(abs(m), abs(m - span), abs(m - L)) < 1e-4 and (m > 1e-12 or a > 1e-9):
                continue
            pos = lo + (m if m <= L else 2 * L - m)
            if any(abs(pos - q) < 1e-4 for q in ends):
                continue
            exp = next(case["movie"][i][0] for i, q in enumerate(ends) if pos < q)
        fno = os.path.join(tmp, "o.png")
        env.snapshot(fno)
        with Image.open(fno) as im:
            got = im.convert("RGB").getpixel((W // 2, H // 2))
        want = RGB["#204060"] if exp is None else RGB[exp]
        obs("frames")
        obs("movie_frames")
        obs("movie_shown", exp is not None)
        if max(abs(u - v) for u, v in zip(got, want)) > 10:
            raise Violation("animated image %r (started at %r, speed %r, repeat %r, pingpong %r, from %r to %r) shows %r at %r, should be %r %r" % (
                case["movie"], start, case["speed"], case["repeat"], case["pingpong"], lo, hi, got, env.now(), exp, want))
    obs.sig = repr(case)


# ------------------------------------------------------------------ texts
def check_text(case, obs, tmp):
    from PIL import Image

    env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
    W, H = case["W"], case["H"]
    env.show_time(False)
    env.modelname("")
    x0, y0, scale = case["view"]
    sc = case["sc"]
    if sc:
        scale_ = 1
    else:
        scale_ = scale
    env.animation_parameters(animate=None, width=W, height=H, x0=x0, y0=y0, x1=x0 + W / scale, background_color="white")
    xa = case["xy_anchor"]
    ax, ay = ANCH[xa] if xa else (0, 0)
    px, py = case["x"], case["y"]  # in pixels
    if sc:
        x, y = px - ax * W, py - ay * H
    elif xa:
        x, y = (px - ax * W) / scale, (py - ay * H) / scale
    else:
        x, y = px / scale + x0, py / scale + y0
    fs, anchor, angle = case["fs"], case["anchor"], case["angle"]
    u = 1 / scale_  # one pixel
    att = case["attach"]
    source = {"i": 0}
    texts = case["text"]
    mutable = [list(texts[0])] if case["mutate"] and isinstance(texts[0], list) and isinstance(texts[1], list) else None
    if mutable:
        text = mutable[0]
    elif case["dyn"]:
        text = lambda: texts[source["i"]]
    else:
        text = texts[0] if texts[0] is not None else ""
    if not case["dyn"] and texts[0] is None:
        texts = ["", texts[1]]
    kw = dict(x=x, y=y, offsetx=case["ox"] * u, offsety=case["oy"] * u, angle=angle, text=text, fontsize=fs * u, textcolor="red", text_anchor=anchor, screen_coordinates=sc, xy_anchor=xa, max_lines=case["max_lines"], env=env)
    a, b, c, d = case["sizes"]
    if att:
        kw.update(text_offsetx=case["tox"] * u, text_offsety=case["toy"] * u)
    if att is None:
        ao = sim.AnimateText(**kw)
        box = (0, 0, 0, 0)
    elif att == "rectangle":
        ao = sim.AnimateRectangle(spec=(-a * u, -b * u, c * u, d * u), fillcolor="90%gray", linewidth=0, **kw)
        box = (-a, -b, c, d)
    elif att == "polygon":
        ao = sim.AnimatePolygon(spec=(-a * u, -b * u, c * u, -b * u, 0, d * u), fillcolor="90%gray", linewidth=0, **kw)
        box = (-a, -b, c, d)
    elif att == "circle":
        ao = sim.AnimateCircle(radius=a * u, radius1=b * u, fillcolor="90%gray", linewidth=0, **kw)
        box = (-a, -b, a, b)
    else:
        ao = sim.AnimateImage(image=Image.new("RGBA", (20, 20), (200, 200, 200, 255)), width=(a + c) * u, height=(b + d) * u, anchor="sw", **kw)
        box = (0, 0, a + c, b + d)
    # the point (relative to x, y, not rotated) where the text is to be anchored
    dx, dy = ANCH[anchor]
    X = box[0] + dx * (box[2] - box[0]) + case["ox"] + (case["tox"] if att else 0)
    Y = box[1] + dy * (box[3] - box[1]) + case["oy"] + (case["toy"] if att else 0)
    ca, sa = math.cos(math.radians(angle)), math.sin(math.radians(angle))
    for i in range(2):
        if i:
            env.run(1)
            source["i"] = 1
            if mutable:
                mutable[0][:] = texts[1]
            elif not case["dyn"]:
                ao.text = texts[1] if texts[1] is not None else ""
        fn = os.path.join(tmp, "t.png")
        env.snapshot(fn)
        with Image.open(fn) as im:
            im = im.convert("RGB")
        pix = im.load()
        pts = set()
        for sx in range(W):
            for sy in range(H):
                if pix[sx, sy][0] > 160 and pix[sx, sy][1] < 110:
                    gx, gy = sx + 0.5 - px, H - sy - 0.5 - py
                    pts.add((gx * ca + gy * sa, -gx * sa + gy * ca))  # relative to x, y, rotated back
        lines = []

        def flat(v):
            if isinstance(v, (list, tuple)):
                for w in v:
                    flat(w)
            elif v is not None:
                lines.extend(v.splitlines() or [""])
        flat(texts[i])
        ml = case["max_lines"]
        lines = lines[ml:] if ml < 0 else lines[:ml] if ml > 0 else lines
        shown = [ln for ln in lines if ln.strip()]
        obs("frames")
        obs("text_frames")
        what = "text %r in %r" % (texts[i], {k: case[k] for k in case if k not in ("W", "H", "text")})
        if not shown:
            obs("texts_empty")
            if pts:
                raise Violation("text is shown for an empty %s" % what)
            continue
        if not pts:
            raise Violation("no text is shown for %s" % what)
        rows = sorted({round(p[1]) for p in pts})
        runs = 1 + sum(b - a > 1 for a, b in zip(rows, rows[1:]))
        if runs != len(shown):
            raise Violation("%d lines of text are shown for %s" % (runs, what))
        x1, x2, y1, y2 = min(p[0] for p in pts), max(p[0] for p in pts), min(p[1] for p in pts), max(p[1] for p in pts)
        tol = 0.55 * fs + 4
        gotx, goty = x1 + dx * (x2 - x1), y1 + dy * (y2 - y1)
        if abs(gotx - X) > tol or abs(goty - Y) > tol:
            raise Violation("the %s of the text is at (%.1f, %.1f) relative to x and y, should be about (%.1f, %.1f): %s" % (anchor, gotx, goty, X, Y, what))
        hcap = (y2 - y1) / (1.0 * fs)
        n = len(lines)
        if not 0.4 * len(shown) + 0.55 * (len(shown) - 1) <= hcap + 0.3 or hcap > 1.45 * n:
            raise Violation("text is %.1f high, with fontsize %r: %s" % (y2 - y1, fs, what))
        longest = max(len(ln) for ln in shown)
        if not 0.3 * longest * fs - 2 <= x2 - x1 <= 1.1 * longest * fs:
            raise Violation("text is %.1f wide, with fontsize %r: %s" % (x2 - x1, fs, what))
        obs("text_lines", runs)
        obs("text_attached", bool(att))
    obs.sig = repr(case)


def check_grid(case, obs, tmp):
    """AnimateGrid draws lines over the whole of the animation"""
    from PIL import Image

    env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
    W, H, d = case["W"], case["H"], case["grid"]
    env.show_time(False)
    env.modelname("")
    x0, y0, scale = case["view"]
    env.animation_parameters(animate=None, width=W, height=H, x0=x0, y0=y0, x1=x0 + W / scale, background_color="white")
    d /= scale
    sim.AnimateGrid(spacing=d, linecolor=case["color"], textcolor=case["color"], fontsize=10, linewidth=3, env=env)
    fn = os.path.join(tmp, "g.png")
    env.snapshot(fn)
    with Image.open(fn) as im:
        px = im.convert("RGB").load()
    want = RGB[case["color"]]
    xs = [i * case["grid"] for i in range(1, 9) if i * case["grid"] < W - 3]
    ys = [i * case["grid"] for i in range(1, 9) if i * case["grid"] < H - 3]
    for x in xs:
        for y in range(3, H - 3, 7):
            if px[x, H - 1 - y] != want and px[x, H - y] != want:
                raise Violation("AnimateGrid with spacing %r and view %r has no vertical line at screen x %r, y %r" % (d, case["view"], x, y))
    for y in ys:
        for x in range(3, W - 3, 7):
            if px[x, H - 1 - y] != want and px[x, H - y] != want:
                raise Violation("AnimateGrid with spacing %r and view %r has no horizontal line at screen x %r, y %r" % (d, case["view"], x, y))
    obs("grid_lines", len(xs) + len(ys))


def check_title(case, obs, tmp):
    """the title of an animated queue"""
    from PIL import Image

    env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
    W, H, fs, sc = case["W"], case["H"], case["fs"], case["sc"]
    env.show_time(False)
    env.modelname("")
    x0, y0, scale = case["view"]
    env.animation_parameters(animate=None, width=W, height=H, x0=x0, y0=y0, x1=x0 + W / scale, background_color="white")

    class Member(sim.Component):
        def animation_objects(self, id):
            return 10, 10, sim.AnimateRectangle((-3, -3, 3, 3), fillcolor="80%gray", linewidth=0, screen_coordinates=sc)
    q = sim.Queue("HHHH", env=env)
    for _ in range(case["members"]):
        Member(env=env, process=None).enter(q)
    u = 1 if sc else scale
    title = case["title"]
    ansi = case["ansi"] and bool(title)
    if ansi:
        title = sim.ANSI.red + title + sim.ANSI.reset
    state = {"on": not case["late"]}
    kw = {}
    if case["ox"] is not None:
        kw["titleoffsetx"] = (lambda: case["ox"]) if case["dyn"] else case["ox"]
    if case["oy"] is not None:
        kw["titleoffsety"] = case["oy"]
    if title is not None:
        kw["title"] = (lambda t: title) if case["dyn"] else title
    if case["traj"]:
        kw["trajectory"] = sim.TrajectoryPolygon(polygon=(0, 0, 50, 0), vmax=1)
    plain = "blue" if ansi else "red"
    sim.AnimateQueue(q, x=case["x"] if sc else case["x"] / scale + x0, y=case["y"] if sc else case["y"] / scale + y0, direction=case["dir"], titlecolor=plain, titlefontsize=(lambda t: fs / u) if case["dyn"] else fs / u, xy_anchor="",
                     visible=(lambda: state["on"]) if case["vis"] else False, screen_coordinates=sc, **kw)
    want = (255, 0, 0)
    for i in range(2):
        if i:
            env.run(1)
            state["on"] = True
        fn = os.path.join(tmp, "t.png")
        env.snapshot(fn)
        with Image.open(fn) as im:
            im = im.convert("RGB")
        pix = im.load()
        pts = []
        for sx in range(W):
            for sy in range(H):
                r, g, b = pix[sx, sy]
                if g < 110 and r > 160 and b < 110:
                    pts.append((sx + 0.5 - case["x"], H - sy - 0.5 - case["y"]))
                elif g < 60 and max(r, b) > 200:
                    raise Violation("the title is shown in colour %r, should be %r: %r" % ((r, g, b), want, case))
        obs("frames")
        obs("title_frames")
        text = "HHHH" if title is None else case["title"]
        if not case["vis"] or not state["on"] or not text:
            if pts:
                raise Violation("the title of a queue is shown although it should not: %r" % case)
            continue
        if not pts:
            raise Violation("the title of a queue is not shown: %r" % case)
        d = "e" if case["traj"] else case["dir"].lower()
        ex, ey = {"e": (-25, 25), "w": (25, 25), "n": (-25, -25), "s": (-25, 25)}[d]
        ex = (ex if case["ox"] is None else case["ox"]) * u
        ey = (ey if case["oy"] is None else case["oy"]) * u
        gx = max(p[0] for p in pts) if d == "w" else min(p[0] for p in pts)
        gy = min(p[1] for p in pts)
        tol = 0.55 * fs + 4
        if abs(gx - ex) > tol or abs(gy - ey) > tol:
            raise Violation("the title of a queue is at (%.1f, %.1f) relative to x and y, should be about (%.1f, %.1f): %r" % (gx, gy, ex, ey, case))
        rows = sorted({math.floor(p[1]) for p in pts})
        runs = 1 + sum(b - a > 1 for a, b in zip(rows, rows[1:]))
        if runs != len(text.split("\n")):
            raise Violation("the title of a queue has %d lines: %r" % (runs, case))
        wide, longest = max(p[0] for p in pts) - min(p[0] for p in pts), max(len(ln) for ln in text.split("\n"))
        if not 0.3 * longest * fs - 2 <= wide <= 1.1 * longest * fs:
            raise Violation("the title of a queue is %.1f wide with font size %r: %r" % (wide, fs, case))
        obs("titles")
        obs("titles_ansi", bool(ansi))
    obs.sig = repr(case)


# ------------------------------------------------------------------ monitors
class Parent(sim.Component):
    """animation objects with a parent are removed when its process ends"""
    def setup(self, till, yl):
        self.till = till
        if yl:
            self.activate(process="plain")
        else:
            self.activate(process="gen")

    def plain(self):
        self.hold(self.till)

    def gen(self):
        yield self.hold(self.till)


def check_monitor(case, obs, tmp):
    from PIL import Image

    env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
    W, H = case["W"], case["H"]
    env.show_time(False)
    env.modelname("")
    sc, scale = case["sc"], case["scale"]
    env.animation_parameters(animate=None, width=W, height=H, x0=0, y0=0, x1=W / scale, background_color="white")
    level = case["level"]
    mon = sim.Monitor("m", level=level, env=env, **({"initial_tally": 1} if level else {}))
    if case["other_env"]:
        sim.Environment(yieldless=case["yieldless"])  # becomes the default environment
        obs("other_env")
    w, h, hs, vs, vo = case["w"], case["h"], case["hs"], case["vs"], case["vo"]
    off_ = [0.0]
    offx = case["offset"]
    if case["parent"]:
        parent = Parent("parent", env=env, till=case["parent"], yl=case["yieldless"])
        obs("monitor_parents")
    labels = case["labels"]
    labkw = {}
    if labels:
        form = (lambda vs: {v: "" for v in vs}) if case["labform"] == "dict" else (lambda vs: list(vs))
        labkw = dict(labels=lambda t: form(labels[t + off_[0] >= 3]), label_linewidth=10, label_linecolor="green", label_color="")
    if case["parent"]:
        labkw["parent"] = parent
    an = mon.animate(angle=case["angle"], **labkw, x=case["x"], y=case["y"], width=w, height=h, horizontal_scale=hs, vertical_scale=vs, vertical_offset=vo, linewidth=case["lw"], linecolor="blue", nowcolor="", bordercolor="red" if case["border"] else "", borderlinewidth=case["border"],
                     fillcolor="yellow" if case["fill"] else "", title="", screen_coordinates=sc, offsetx=(lambda t: t) if offx == "dyn" else offx, xy_anchor=case["anchor"] if sc else "sw", visible=case["visible"],
                     **({} if case["keep"] is None else {"keep": lambda t: t + off_[0] < case["keep"]}))
    ax, ay = ANCH[case["anchor"]] if sc else (0, 0)
    start = 0.0
    values = [(0.0, 1)] if level else []
    now = 0.0
    there = True

    def snap():
        nonlocal there
        t = now - off_[0]
        fn = os.path.join(tmp, "m.png")
        env.snapshot(fn)
        with Image.open(fn) as im:
            im.load()
        if case["keep"] is not None and now >= case["keep"]:
            there = False
            obs("monitors_removed")
        if case["parent"] is not None and now >= case["parent"]:
            there = False
            obs("monitors_removed")
        shift = min(0, w / hs - (now - start)) * hs
        raw = lambda tau: (tau - start) * hs + shift
        X = lambda tau: max(0, min(w, raw(tau)))
        Y = lambda v: max(0, min(h, v * vs + vo))
        base = {"sc": sc, "x": ["c", case["x"]], "y": ["c", case["y"]], "angle": ["c", case["angle"]], "anchor": "", "ox": ["c", (t if offx == "dyn" else offx) + ax * W], "oy": ["c", ay * H], "layer": ["c", 0]}
        shapes = []
        if there and case["visible"]:
            if case["fill"]:
                shapes.append(Shape(dict(base, kind="rectangle", shape=[0, 0, w, h], fill=["c", "yellow"], lw=0), t, None, [W, H, 0, 0, scale]))
            for v in labels[now >= 3] if labels else ():
                if 0 <= v * vs + vo <= h:
                    shapes.append(Shape(dict(base, kind="line", shape=[0, v * vs + vo, w, v * vs + vo], fill=["c", "red"], line="green", lw=10), t, None, [W, H, 0, 0, scale]))
                    obs("monitor_labels")
            if case["border"]:
                shapes.append(Shape(dict(base, kind="line", shape=[0, 0, w, 0, w, h, 0, h, 0, 0], fill=["c", "red"], line="red", lw=case["border"]), t, None, [W, H, 0, 0, scale]))
            pts = []
            for i, (tau, v) in enumerate(values):
                if level:
                    t2 = values[i + 1][0] if i + 1 < len(values) else now
                    if raw(t2) < 0:
                        continue
                    pts += [X(tau), Y(v), X(t2), Y(v)]
                elif raw(tau) >= 0:
                    pts += [X(tau), Y(v)]
            if pts:
                shapes.append(Shape(dict(base, kind="line" if level else "points", shape=pts, fill=["c", "red"], line="blue", lw=case["lw"]), t, None, [W, H, 0, 0, scale]))
        obs("monitor_points", len(values))
        compare(im, W, H, RGB["white"], shapes, t, obs, "plot of %r at %r (start=%r)" % (values, now, start))
        obs("monitor_frames")
        if bool(an.is_removed()) == there:
            raise Violation("is_removed() of an AnimateMonitor is %r, should be %r" % (an.is_removed(), not there))
        if an.monitor() is not mon:
            raise Violation("monitor() of an AnimateMonitor is not its monitor")

    for i, (dt, v) in enumerate(case["monitor"]):
        env.run(dt)
        now += dt
        if case["reset_now"] is not None and i == 3:
            env.reset_now(case["reset_now"])
            off_[0] = now - case["reset_now"]
        if case["reset"] == i:
            mon.reset()
            start = now
            values = [(now, values[-1][1])] if level else []
        mon.tally(v)
        if level and values and values[-1][0] == now:
            values.pop()
        values.append((now, v))
        if i in case["snaps"]:
            snap()
    env.run(case["tail"])
    now += case["tail"]
    snap()
    if case["again"] and there:
        an.remove()
        there = False
        snap()
        an.show()
        there = True
        snap()
        obs("monitors_shown_again")
    obs.sig = repr(case)


# ------------------------------------------------------------------ a scene with a past against a fresh scene with constants
def check_meta(case, obs, tmp):
    from PIL import Image

    W, H = case["W"], case["H"]
    img = Image.new("RGBA", (40, 30))
    for ix in range(40):
        for iy in range(30):
            img.putpixel((ix, iy), IMG_COLORS[(0 if iy < 15 else 2) + (ix >= 20)] + (255,))

    def build(env, get):
        for o in case["meta"]:
            g = lambda n, conv=lambda v: v, o=o: get(o[n], conv)
            k = o["kind"]
            kw = dict(x=g("x"), y=g("y"), angle=g("angle"), layer=g("layer"), visible=g("visible"), offsetx=g("ox"), offsety=g("oy"), xy_anchor=g("xa"), text=g("text"), textcolor=g("tc", tup), fontsize=g("fs", lambda v: max(4, v)), text_anchor=g("ta"),
                      max_lines=g("ml"), screen_coordinates=o["sc"], arg=holder, env=env, font=g("font"))
            if k != "text":
                kw["text_offsetx"] = g("tox")
            if k in ("rectangle", "polygon", "circle"):
                kw["fillcolor"] = g("fill", tup)
            if k in ("rectangle", "polygon", "circle", "line", "points"):
                kw["linecolor"] = g("lc", tup)
                kw["linewidth"] = g("lw", lambda v: max(0, v))
            if k in ("rectangle", "polygon", "line"):
                kw["as_points"] = g("as_points")
            if k == "text":
                sim.AnimateText(**kw)
            elif k == "rectangle":
                sp = o["sx"] + [o["sr"]]
                sim.AnimateRectangle(spec=get(["list", sp], tuple), **kw)
            elif k == "circle":
                sim.AnimateCircle(radius=g("r0", lambda v: max(0, v)), radius1=g("r1"), arc_angle0=get(o["arc"][0], lambda v: v), arc_angle1=get(o["arc"][1], lambda v: v), draw_arc=g("da"), **kw)
            elif k == "image":
                sim.AnimateImage(image=img, width=g("w", lambda v: max(0, v)), height=g("h"), alpha=g("alpha"), flip_horizontal=g("fh"), flip_vertical=g("fv"), anchor=g("ia"), **kw)
            else:
                sp = o["sx"] + o["sx"][1:3] + [["c", 3], ["c", -4]]
                {"polygon": sim.AnimatePolygon, "line": sim.AnimateLine, "points": sim.AnimatePoints}[k](spec=get(["list", sp], tuple), **kw)
            obs("m_" + k)

    def make():
        env = sim.Environment(yieldless=case["yieldless"], blind_animation=True)
        env.show_time(False)
        env.modelname("")
        env.background_color(case["bg"])
        return env

    def set_view(env, x0, y0, scale):
        env.animation_parameters(animate=None, width=W, height=H, x0=x0, y0=y0, x1=x0 + W / scale)

    holder = Holder()
    frames = []
    env = make()
    view = case["view"]
    set_view(env, *view)

    def val(spec, t):
        if spec[0] == "list":
            return [value(s, t, holder) for s in spec[1]]
        return value(spec, t, holder)
    build(env, lambda spec, conv: (lambda t: conv(val(spec, t))) if spec[0] in ("list", "m") else real(spec, holder, conv))
    for i, t in enumerate(case["times"]):
        if t > env.now():
            env.run(till=t)
        if case["views"][i]:
            view = [view[0] + 10, view[1] - 5, view[2] * (1.25 if case["poke"][i] else 1.02)]
            set_view(env, *view)
            obs("meta_views")
        holder.k += case["poke"][i]
        fn = os.path.join(tmp, "a.png")
        env.snapshot(fn)
        with Image.open(fn) as im:
            a = im.convert("RGB")
        fresh = make()
        set_view(fresh, *view)
        build(fresh, lambda spec, conv: conv(val(spec, t)))
        if t:
            fresh.run(till=t)
        fn = os.path.join(tmp, "b.png")
        fresh.snapshot(fn)
        with Image.open(fn) as im:
            b = im.convert("RGB")
        obs("frames")
        obs("meta_frames")
        if a.size != (W, H) or b.size != (W, H):
            raise Violation("frame has size %r / %r, should be %r" % (a.size, b.size, (W, H)))
        if a.tobytes() != b.tobytes():
            pa, pb = a.load(), b.load()
            diff = [(sx, H - sy) for sx in range(W) for sy in range(H) if pa[sx, sy] != pb[sx, sy]]
            raise Violation("the frame at t=%r differs at %d pixels (e.g. %r) from the frame of the same objects with constant attributes: %r" % (t, len(diff), diff[:3], [(o["kind"], o["sc"]) for o in case["meta"]]))
        frames.append(len(set(a.tobytes())))
        obs("meta_nonempty", len(a.getcolors(99999)) > 1)
    obs.sig = repr(case["meta"])


def check(case, obs):
    tmp = tempfile.mkdtemp(prefix="c34.")
    save = simmod.has_numpy
    if case.get("no_numpy"):  # numpy is optional
        simmod.has_numpy = lambda: False
        obs("no_numpy")
    try:
        for kind, f in (("title", check_title), ("grid", check_grid), ("queue", check_queue), ("text", check_text), ("monitor", check_monitor), ("meta", check_meta), ("classic", check_classic), ("movie", check_movie), ("ops", check_scene)):
            if kind in case:
                f(case, obs, tmp)
                break
    finally:
        simmod.has_numpy = save
        shutil.rmtree(tmp, ignore_errors=True)


def shrink(case):
    if "queue" in case:
        for i in range(len(case["queue"])):
            yield dict(case, queue=case["queue"][:i] + case["queue"][i + 1:])
        return
    for k in ("monitor", "meta", "times", "cops", "classic"):
        if k in case:
            for i in range(len(case[k])):
                if len(case[k]) > 1:
                    yield dict(case, **{k: case[k][:i] + case[k][i + 1:]})
    if "ops" not in case:
        return
    for i in range(len(case["ops"])):
        yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    if case["video"]:
        yield dict(case, video=None)
    for i in range(len(case["objs"])):
        if len(case["objs"]) > 1 and not any(op[0] in ("set", "remove", "show") and op[1] >= i for op in case["ops"]):
            yield dict(case, objs=case["objs"][:i] + case["objs"][i + 1:])
    for i, o in enumerate(case["objs"]):
        for n in ("x", "y", "angle", "ox", "oy", "layer", "visible", "fill"):
            if o[n][0] != "c":
                yield dict(case, objs=case["objs"][:i] + [dict(o, **{n: ["c", o[n][1]]})] + case["objs"][i + 1:])
