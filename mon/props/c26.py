import os
import shutil
import tempfile

import salabim as sim
from mon.core import Violation
from mon.util import shrink_ops

ID = "C26"
RULE = ("random texts built from bare items, quoted strings (with blanks, other quotes, # and braces), # and {} comments, blank lines and all kinds of white space and line ends are read from a string and from a file with a "
        "random mix of the read methods; the items have to come back exactly once and in order, then EOFError for ever")
CASES = {"quick": 30000, "thorough": 100000}
REQUIRED = ["items", "ints", "floats", "bools", "eofs", "files", "strings", "quoted", "comments"]
BARE = ["a", "abc", "1", "-2", "3.5", "2,5", "0", "0.0", "false", "False", "TRUE", "yes", "x}y", "}", "a,b", "1e3", "\\", "é", "0,0", "&", "a;b", ";", "x:y", "a|b", "a=b", "[1]", "(2)", "a/b", "a\\b", "$%!", "*", "-", "+1", "1_0", "`x`", "<a>", "@", "~"]
QUOTED = ["", "a b", "it's", "#no comment", "{no comment}", "  lead", "x\ty", "1", "-3", "0", "false", "a,b", "say \"hi\"", "}", " ", "0.5", "a;b", "x  y", "{", "{#", "a\\", "0,5", "# {}"]


def gen(rng, index, tier):
    lines = []
    for _ in range(rng.randint(0, 12 if tier == "quick" else 40)):
        els = []
        for _ in range(rng.randint(0, 7)):
            k = rng.random()
            if k < 0.55:
                els.append(["b", rng.choice(BARE)])
            elif k < 0.85:
                els.append(["q", rng.choice(QUOTED)])
            else:
                els.append(["c", rng.choice(["{comment}", "{}", "{with # and ' and \"}", "{ a b }"])])
            els.append(["s", rng.choice([" ", " ", "  ", "\t", " \t ", ""])])
        if rng.random() < 0.3:
            els.append(["c", rng.choice(["# comment", "#", "#'quote", "# {x", "#\"a b\" c"])])
        lines.append(els)
    return {"ops": lines, "eol": rng.choice(["\n", "\n", "\r\n"]), "last": rng.random() < 0.7, "lead": rng.choice(["", " ", "\t"]), "file": rng.random() < 0.4, "how": [rng.randrange(5) for _ in range(20)],
            "ctx": rng.random() < 0.5}


def build(case, obs):
    text = []
    items = []
    for els in case["ops"]:
        line = case["lead"]
        prev_bare = False
        for kind, v in els:
            if kind == "b":
                if prev_bare:
                    line += " "  # two bare items need a separator
                line += v
                items.append(v)
                prev_bare = True
            elif kind == "q":
                q = "'" if '"' in v else '"' if "'" in v else "'\""[len(items) % 2]
                line += q + v + q
                items.append(v)
                obs("quoted")
                prev_bare = False
            elif kind == "c":
                line += v
                obs("comments")
                prev_bare = False
            else:
                line += v
                if v:
                    prev_bare = False
        text.append(line)
    s = case["eol"].join(text) + (case["eol"] if case["last"] else "")
    return s, items


def as_bool(s):
    s = s.strip().lower()
    if s in ("", "false"):
        return False
    try:
        return float(s) != 0
    except ValueError:
        return True


def read(f, items, case, obs):
    for k, want in enumerate(items):
        how = case["how"][k % len(case["how"])]
        try:
            if how == 1:
                try:
                    w = int(want.replace(",", "."))
                except ValueError:
                    w = None
                if w is not None:
                    g = f.read_item_int()
                    if g != w or type(g) is not int:
                        raise Violation("item %d: read_item_int gave %r, should be %r" % (k, g, w))
                    obs("ints")
                    continue
            if how == 2:
                try:
                    w = float(want.replace(",", "."))
                except ValueError:
                    w = None
                if w is not None:
                    g = f.read_item_float()
                    if g != w or type(g) is not float:
                        raise Violation("item %d: read_item_float gave %r, should be %r" % (k, g, w))
                    obs("floats")
                    continue
            if how == 3:
                g = f.read_item_bool()
                if g is not as_bool(want):
                    raise Violation("item %d: read_item_bool of %r gave %r" % (k, want, g))
                obs("bools")
                continue
            g = f.read_item()
            if g != want:
                raise Violation("item %d is %r, should be %r" % (k, g, want))
            obs("items")
        except EOFError:
            raise Violation("EOFError at item %d of %d (%r)" % (k, len(items), want))
    for f_ in (f.read_item, f.read_item_int, f.read_item_float, f.read_item_bool):
        try:
            g = f_()
        except EOFError:
            obs("eofs")
        else:
            raise Violation("%r read beyond the last item" % (g,))


def check(case, obs):
    s, items = build(case, obs)
    if "\n" in s:
        if case["ctx"]:
            with sim.ItemFile(s) as f:
                read(f, items, case, obs)
        else:
            f = sim.ItemFile(s)
            read(f, items, case, obs)
            f.close()
        obs("strings")
    if case["file"]:
        d = tempfile.mkdtemp(prefix="verif_c26_")
        try:
            p = os.path.join(d, "items.txt")
            with open(p, "w", newline="", encoding="utf-8") as o:
                o.write(s)
            if all(ord(c) < 128 for c in s):
                with sim.ItemFile(p) as f:
                    read(f, items, case, obs)
                obs("files")
        finally:
            shutil.rmtree(d, ignore_errors=True)
    obs.nontrivial = bool(items)


def shrink(case):
    yield from shrink_ops(case)
    for i, l in enumerate(case["ops"]):
        for j in range(len(l)):
            yield dict(case, ops=case["ops"][:i] + [l[:j] + l[j + 1:]] + case["ops"][i + 1:])
