"""checks of printed tables: every number that is shown has to be the right one"""
from __future__ import annotations

import math
import re

from mon.core import Violation
from mon.refmon import wmean, wstd, pct_weighted, pct_plain, NAN

NUM = r"[-+]?(?:\d+(?:\.\d*)?(?:e[-+]?\d+)?|inf|nan)"


def near(shown, want, d=3):
    if want != want:
        return shown is None
    if shown is None:
        return False
    if math.isinf(want):
        return shown == want
    return abs(shown - want) <= 0.51 * 10 ** -d + 1e-4 * abs(want)


def cells(line, label, n):
    """n columns of 13 characters behind the label of 14"""
    rest = line[14:]
    out = []
    for i in range(n):
        c = rest[13 * i: 13 * i + 13].strip()
        out.append(float(c) if c else None)
    return out


def check_statistics_text(txt, xw, weighted, obs):
    xw0 = [(x, w) for x, w in xw if x != 0]
    lines = txt.split("\n")
    want = {
        "mean": (wmean(xw), wmean(xw0)),
        "std.deviation": (wstd(xw), wstd(xw0)),
        "minimum": (min((x for x, _ in xw), default=NAN), min((x for x, _ in xw0), default=NAN)),
        "maximum": (max((x for x, _ in xw), default=NAN), max((x for x, _ in xw0), default=NAN)),
    }
    tot, tot0 = math.fsum(w for _, w in xw), math.fsum(w for _, w in xw0)
    if weighted:
        want["duration" if weighted is True else "weight"] = (tot, tot0, tot - tot0)
    else:
        want["entries"] = (len(xw), len(xw0), len(xw) - len(xw0))
    for label, q in (("median", 50), ("90% percentile", 90), ("95% percentile", 95)):
        if weighted:
            v = (pct_weighted(xw, q, "linear"), pct_weighted(xw0, q, "linear"))
        else:
            v = (pct_plain([x for x, _ in xw], q, "linear"), pct_plain([x for x, _ in xw0], q, "linear"))
        if None not in v:
            want[label] = v
    for label, values in want.items():
        found = [l for l in lines if l.startswith(label)]
        if not found:
            raise Violation("printed statistics have no line %r:\n%s" % (label, txt))
        got = cells(found[0], label, len(values))
        if not all(near(g, w) for g, w in zip(got, values)):
            raise Violation("printed statistics: %s shows %r, should be %r" % (label, got, values))
    obs("tables")


def check_histogram_text(m, xw, weighted, ex0, obs, kw):
    txt = m.print_histogram(as_str=True, ex0=ex0, **kw)
    use = [(x, w) for x, w in xw if not (ex0 and x == 0)]
    tot = math.fsum(w for _, w in use)
    lines = txt.split("\n")
    start = [i for i, l in enumerate(lines) if l.strip().startswith("<=")]
    if not start:
        raise Violation("no histogram in:\n" + txt)
    prev = -math.inf
    cum = 0
    rows = 0
    for l in lines[start[0] + 1:]:
        if not l.strip():
            break
        ub = l[:13].strip()
        shown = l[14:27].strip()
        perc = l[27:33].strip()
        cump = l[33:39].strip()
        ub = float(ub)
        if "e" in l[:13]:
            return  # bounds shown rounded
        cnt = math.fsum((w if weighted else 1) for x, w in use if prev < x <= ub + 5e-4 * 0)
        cum += cnt
        if not near(float(shown), cnt):
            raise Violation("printed histogram (ex0=%r): (%r, %r] shows %s, should be %r for %r" % (ex0, prev, ub, shown, cnt, use))
        if tot and not near(float(perc), cnt / tot * 100, 1):
            raise Violation("printed histogram (ex0=%r): (%r, %r] shows %s %%, should be %r" % (ex0, prev, ub, perc, cnt / tot * 100))
        if tot and not near(float(cump), cum / tot * 100, 1):
            raise Violation("printed histogram (ex0=%r): up to %r shows %s cum%%, should be %r" % (ex0, ub, cump, cum / tot * 100))
        prev = ub
        rows += 1
    if prev != math.inf:
        raise Violation("histogram does not cover all values:\n" + txt)
    if abs(cum - (tot if weighted else len(use))) > 1e-9 * max(1, cum):
        raise Violation("histogram does not add up")
    obs("tables")
    obs("histogram_rows", rows)


def check_values_histogram(m, raw, weighted, obs, ex0=False):
    """raw: (value, weight) not converted; weighted: True for level, 'weight' for weighted, False for plain"""
    labels = {}
    for x, w in raw:
        labels.setdefault(str(x), []).append((x, w))
    for a in labels.values():
        if any(not (x == a[0][0]) for x, _ in a):
            return  # different values with the same label
    flat = [a[0][0] for a in labels.values()]
    if any(x == y for i, x in enumerate(flat) for y in flat[:i]) or any(len(l) > 19 for l in labels):
        return
    n = len(raw)
    tot = math.fsum(w for _, w in raw) if weighted else n

    def amount(vals):
        a = [w for x, w in raw if any(x == v for v in vals)]
        return (math.fsum(a) if weighted else len(a)), len(a)

    by = "sort_on_duration" if weighted is True else "sort_on_weight"
    absent = [v for v in (11, 12.5) if v not in flat]
    some = flat[::2] + absent
    for kw in ({"values": True}, {"values": True, by: True}, {"values": some[::-1]}, {"values": tuple(some), by: True}, {"values": [], }, {"values": flat, "sort_on_value": True},
               {"values": True, "graph_scale": 10, "number_of_bins": 3}):
        txt = m.print_histogram(as_str=True, **kw)
        lines = txt.split("\n")
        start = [i for i, l in enumerate(lines) if l.startswith("value")][0]
        rows = []
        for l in lines[start + 1:]:
            if not l.strip():
                break
            if weighted == "weight":
                rows.append((l[:20].strip(), float(l[20:34]), float(l[34:40]), int(l[40:48]), float(l[48:54])))
            elif weighted:
                rows.append((l[:20].strip(), float(l[20:34]), float(l[34:40])))
            else:
                rows.append((l[:20].strip(), float(l[20:27]), float(l[27:33])))
        shown = [r[0] for r in rows]
        listed = kw["values"] is not True
        members = {str(v): [v] for v in (kw["values"] if listed else flat)}
        rest = [v for v in flat if str(v) not in members]
        if any(v == u for v in rest for a in members.values() for u in a):
            continue
        if rest:
            members["<rest>"] = rest
        if sorted(shown) != sorted(members) or (rest and shown[-1] != "<rest>"):
            raise Violation("print_histogram(%r) has rows %r, should be %r" % (kw, shown, list(members)))
        if listed and by not in kw and "sort_on_value" not in kw and shown[: len(kw["values"])] != [str(v) for v in kw["values"]]:
            raise Violation("print_histogram(%r) shows %r: not the given order" % (kw, shown))
        for r in rows:
            c, k = amount(members[r[0]])
            if not near(r[1], c) or (tot and not near(r[2], c / tot * 100, 1)):
                raise Violation("print_histogram(%r): row %r, should be %r (%r%%)" % (kw, r, c, c / tot * 100 if tot else 0))
            if weighted == "weight" and (r[3] != k or not near(r[4], k / n * 100, 1)):
                raise Violation("print_histogram(%r): row %r, should have %r entries of %r" % (kw, r, k, n))
        if kw.get(by):
            a = [amount(members[s])[0] for s in shown if s in labels]
            if any(x < y - 1e-9 for x, y in zip(a, a[1:])):
                raise Violation("print_histogram(%r): not sorted on weight: %r" % (kw, a))
            if listed and any(s in labels for s in shown[len([s for s in shown if s in labels]):]):
                raise Violation("print_histogram(%r): values that do not occur should come behind the others: %r" % (kw, shown))
        elif all(isinstance(v, (int, float)) for v in flat) and (kw["values"] is True or "sort_on_value" in kw):
            a = [float(members[s][0]) for s in shown]
            if a != sorted(a):
                raise Violation("print_histogram(%r): not sorted on value: %r" % (kw, shown))
        obs("values_tables")
    for kw in ({}, {by: True}):
        vs = m.values(**kw)
        if len(vs) != len(flat) or any(v not in vs for v in flat):
            raise Violation("values(%r) is %r, should be %r" % (kw, vs, flat))
        if kw:
            a = [amount([v])[0] for v in vs]
            if any(x < y - 1e-9 for x, y in zip(a, a[1:])):
                raise Violation("values(%r) is not sorted: %r %r" % (kw, vs, a))
    obs("tables")


ODD = [3, 0.5, -2, 0, math.inf, (1, 2), (1, 3), (3,), "z", 40]


def check_odd(sim, env, odd, obs):
    """infinite values in the bins, tuples as values; odd is a list of [index in ODD, weight]"""
    weighted = any(w != 1 for _, w in odd)
    for level in (False, True):
        data = [(ODD[i], w) for i, w in odd]
        m = sim.Monitor("odd", env=env, level=level, initial_tally=data[0][0] if level else None) if level else sim.Monitor("odd", env=env)
        for x, w in data:
            m.tally(x, *([] if level else [w]))
            if level:
                env.run(w)
        check_values_histogram(m, data, True if level else "weight" if weighted else False, obs)
        nums = [(x, w) for x, w in data if not isinstance(x, (tuple, str))]
        if nums and any(x == math.inf for x, _ in nums):
            m = sim.Monitor("inf", env=env, level=level, initial_tally=nums[0][0] if level else None) if level else sim.Monitor("inf", env=env)
            for x, w in nums:
                m.tally(x, *([] if level else [w]))
                if level:
                    env.run(w)
            for ex0 in (False, True):
                if [x for x, w in nums if x or not ex0]:
                    check_histogram_text(m, nums, level or any(w != 1 for _, w in nums), ex0, obs, {})
            obs("infinite_values")
        if weighted and not level:
            z = sim.Monitor("zeroes", env=env)
            z.tally(0, odd[0][1] + 0.5)
            z.print_histogram(values=[1, 2], ex0=True, as_str=True)
