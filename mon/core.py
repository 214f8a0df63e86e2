"""
Runner of the monitors: generates cases from VERIF_SEED, spreads them over worker processes, collects verdicts and
observations, shrinks a failing case, writes the replay file and the evidence file.

Verdicts: exit 0 held on everything observed; exit 1 violated (VIOLATION line, replay file); exit 2 inconclusive
(nothing observed, harness could not run).
"""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))

sys.dont_write_bytecode = True
sys.path.insert(0, REPO)
import salabim as sim  # noqa: E402

assert os.path.realpath(sim.__file__).startswith(os.path.realpath(REPO) + os.sep), "salabim not imported from " + REPO + " but " + sim.__file__

CPU_LIMIT = float(os.environ.get("VERIF_CASE_CPU", "60"))


class CaseTimeout(BaseException):
    pass


class Violation(Exception):
    """raised by a monitor"""


class Obs:
    """what the monitors observed in one case"""

    def __init__(self):
        self.events = collections.Counter()
        self.sig = None
        self.nontrivial = True

    def __call__(self, what, n=1):
        self.events[what] += n


def seed_for(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return int.from_bytes(h[:8], "big")


def digest(obj):
    return hashlib.sha256(repr(obj).encode()).hexdigest()[:16]


def is_level(m):
    """whether m is a level monitor"""
    try:
        m.duration()
    except TypeError:
        return False
    return True


def _alarm(signum, frame):
    raise CaseTimeout()


def evaluate(mod, case):
    """returns (None or violation text, Obs)"""
    obs = Obs()
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
    try:
        mod.check(case, obs)
        return None, obs
    except Violation as e:
        return str(e) or "violation", obs
    except CaseTimeout:
        return "bounded workload did not terminate within %g s of cpu time" % CPU_LIMIT, obs
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%s" % (f.name, f.lineno) for f in reversed(tb[-4:]))
        return "unexpected %s: %s [%s]" % (type(e).__name__, str(e)[:300], where), obs
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def make_case(mod, seed, index, tier):
    rng = random.Random(seed_for(seed, mod.ID, index))
    return mod.gen(rng, index, tier)


def _worker(args):
    modname, seed, indices, tier, deadline = args
    mod = importlib.import_module(modname)
    ev = collections.Counter()
    sigs = set()
    n = 0
    samples = []
    bad = []
    for i in indices:
        if time.monotonic() > deadline:
            break
        case = make_case(mod, seed, i, tier)
        v, obs = evaluate(mod, case)
        n += 1
        ev.update(obs.events)
        if v is not None:
            bad.append((i, v))
            if len(bad) >= 3:
                break
        elif obs.nontrivial:
            sigs.add(digest(obs.sig if obs.sig is not None else case))
            if len(samples) < 1:
                samples.append(case)
    return n, ev, sigs, samples, bad


def shrink(mod, case, text, budget=25.0):
    if not hasattr(mod, "shrink"):
        return case, text
    end = time.monotonic() + budget
    kind = text.split(":")[0][:40]
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for cand in mod.shrink(case):
            if time.monotonic() > end:
                break
            try:
                v, _ = evaluate(mod, cand)
            except Exception:
                continue
            if v is not None and v.split(":")[0][:40] == kind:
                case, text = cand, v
                progress = True
                break
    return case, text


def known_findings(pid):
    """lines 'finding: property=<id> key=<key> <text>' : (key, text)"""
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                out.append((key.split("=", 1)[1], text))
    return out


def main(argv):
    import argparse

    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--index", type=int)
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1))
    a = ap.parse_args(argv)
    pid = a.id.upper()
    modname = "mon.props." + pid.lower()
    mod = importlib.import_module(modname)
    t0 = time.monotonic()
    if a.replay:
        case = json.load(open(a.replay))["case"]
        v, obs = evaluate(mod, case)
        print("replay:", v or "held", dict(obs.events))
        if v:
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        return 0
    if a.index is not None:
        case = make_case(mod, a.seed, a.index, a.tier)
        v, obs = evaluate(mod, case)
        print(json.dumps(case, default=str)[:5000])
        print("verdict:", v or "held", dict(obs.events))
        return 1 if v else 0

    ncases = a.cases or mod.CASES[a.tier]
    limit = 600 if a.tier == "quick" else 840
    deadline = time.monotonic() + limit
    chunks = max(1, min(ncases, a.jobs * 8))
    # cases are interleaved over the chunks, so that an early stop leaves every kind of case sampled
    jobs = [(modname, a.seed, list(range(k, ncases, chunks)), a.tier, deadline) for k in range(chunks)]
    total, ev, sigs, samples, bad = 0, collections.Counter(), set(), [], []
    if a.jobs == 1:
        results = map(_worker, jobs)
        pool = None
    else:
        pool = multiprocessing.get_context("fork").Pool(min(a.jobs, chunks))
        results = pool.imap_unordered(_worker, jobs)
    for n, e, s, sm, b in results:
        total += n
        ev.update(e)
        sigs |= s
        samples += sm
        bad += b
        if len(bad) >= 3:
            break
    if pool is not None:
        pool.terminate()
        pool.join()
    wall = time.monotonic() - t0

    findings = known_findings(pid)
    violations = []
    for i, text in sorted(bad):
        for key, ftext in findings:
            if key in text:
                break
        else:
            violations.append((i, text))
    for key, ftext in findings:
        # a listed finding is re-demonstrated by its own demonstration in the property's module
        if getattr(mod, "KNOWN", {}).get(key, lambda: True)():
            print("KNOWN-FINDING: property=%s %s" % (pid, ftext))

    os.makedirs(EVID, exist_ok=True)
    need = getattr(mod, "REQUIRED", [])
    missing = [w for w in need if not ev.get(w)]
    evidence = {
        "property": pid,
        "tier": a.tier if a.tier in ("quick", "thorough") else "quick",
        "seed": a.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": len(sigs),
            "rule": mod.RULE,
            "samples": [json.loads(json.dumps(s, default=str)) if len(json.dumps(s, default=str)) < 6000 else json.dumps(s, default=str)[:6000]
                        for s in samples[:2]],
            "observed": {k: ev[k] for k in sorted(ev)},
            "planned_cases": ncases,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    if violations:
        i, text = violations[0]
        case = make_case(mod, a.seed, i, a.tier)
        try:
            case, text = shrink(mod, case, text)
        except Exception:  # the violation stands, also if it cannot be made smaller
            pass
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (pid, digest(case)))
        json.dump({"property": pid, "seed": a.seed, "index": i, "tier": a.tier, "text": text, "case": case}, open(path, "w"), indent=1, default=str)
        evidence["coverage"]["violation"] = text[:4000]
        json.dump(evidence, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
        print(text[:4000])
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    json.dump(evidence, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    print("%s %s seed=%d: held on %d cases (%d distinct), observed %s, %.1f s" % (
        pid, a.tier, a.seed, total, len(sigs), dict(ev.most_common(12)), wall))
    if total == 0 or missing or not sigs:
        print("INCONCLUSIVE: not observed:", missing or "anything")
        return 2
    return 0
