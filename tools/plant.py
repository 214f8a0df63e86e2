#!/usr/bin/env python3
"""Confirm planted bugs: usage plant.py specfile.py [id ...]

A spec file defines BUGS = [dict(id, prop, subs=[(old, new[, occurrence])], demo, needs, breaks)].
For every bug: apply to a scratch copy of /repo, run the stable tests there, run the demo with and without, run the
check of the property (also all checks with --all), and write /verif/seeded/<id>/ when it is confirmed.
"""
import json, os, shutil, subprocess, sys, tempfile, difflib, runpy, concurrent.futures as cf
PY = "/opt/venv/bin/python"
REPO = "/repo"
VD = os.environ.get("PLANT_VERIF", "/verif")
F = "salabim/salabim.py"

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exits 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" timeout 250 /opt/venv/bin/python "$here/demo.py"
'''

_blame = None

def blame():
    global _blame
    if _blame is None:
        t = subprocess.run(["git", "-C", REPO, "blame", "-s", F], capture_output=True, text=True).stdout
        _blame = [l.startswith("^") for l in t.splitlines()]
    return _blame

def one(bug):
    out = {"id": bug["id"]}
    d = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        r = os.path.join(d, "repo")
        os.mkdir(r)
        for n in ("salabim", "tests"):
            shutil.copytree(os.path.join(REPO, n), os.path.join(r, n), ignore=shutil.ignore_patterns("__pycache__"))
        for n in os.listdir(REPO):
            if n.endswith((".toml", ".cfg", ".ini", ".py")):
                shutil.copy(os.path.join(REPO, n), r)
        p = os.path.join(r, F)
        s0 = s = open(p, newline="").read()
        for sub in bug["subs"]:
            old, new = sub[:2]
            n = s.count(old)
            if len(sub) == 3:
                parts = s.split(old)
                k = sub[2]
                assert n > k, (bug["id"], n, old)
                s = old.join(parts[: k + 1]) + new + old.join(parts[k + 1 :])
            else:
                assert n == 1, (bug["id"], n, old)
                s = s.replace(old, new)
        open(p, "w", newline="").write(s)
        diff = "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in difflib.unified_diff(s0.splitlines(True), s.splitlines(True), "a/" + F, "b/" + F))
        dd = os.path.join(d, "seed")
        os.mkdir(dd)
        open(os.path.join(dd, "patch.diff"), "w", newline="").write(diff)
        open(os.path.join(dd, "demo.py"), "w").write(bug["demo"].lstrip("\n"))
        open(os.path.join(dd, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(dd, "demo.sh"), 0o755)
        json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(os.path.join(dd, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=REPO, capture_output=True, text=True)
        b = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=r, capture_output=True, text=True)
        out["demo"] = (a.returncode, b.returncode)
        if a.returncode != 0:
            out["demo_err"] = (a.stdout + a.stderr)[-800:]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "--timeout=300", "tests"], cwd=r, capture_output=True, text=True, env=env)
        out["tests"] = t.stdout.strip().splitlines()[-1:] 
        out["tests_ok"] = t.returncode == 0
        if not out["tests_ok"]:
            out["tests_out"] = t.stdout[-1200:]
        base = blame()
        src = s0.splitlines()
        bad = []
        ln = 0
        for l in diff.splitlines():
            if l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("---") or l.startswith("+++") or l.startswith("+"):
                pass
            elif l.startswith("-"):
                if not base[ln - 1]:
                    bad.append(ln)
                ln += 1
            else:
                ln += 1
        if bad:
            out["error"] = "removes lines added by fixes: %s" % bad
        ap = subprocess.run(["git", "-C", REPO, "apply", "--check", os.path.join(dd, "patch.diff")], capture_output=True, text=True)
        out["applies"] = ap.returncode == 0
        if ap.returncode: out["apply_err"] = ap.stderr
        ok = not bad and a.returncode == 0 and b.returncode != 0 and out["tests_ok"] and out["applies"]
        out["confirmed"] = ok
        if ok:
            dst = os.path.join(os.environ.get("PLANT_DST", "/verif/seeded"), bug["id"])
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(dd, dst)
        caught = {}
        ids = [bug["prop"]]
        if ALL:
            ids = sorted(x[:-3].upper() for x in os.listdir(VD + "/mon/props") if x.startswith("c") and x.endswith(".py"))
        for i in ids:
            if not os.path.exists(VD + "/mon/props/%s.py" % i.lower()):
                continue
            e = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=os.path.join(d, "ev"), VERIF_SEED="1", VERIF_TIER="quick")
            c = subprocess.run(["python3", VD + "/run.py", i], capture_output=True, text=True, env=e, cwd=VD)
            caught[i] = c.returncode
            if i == bug["prop"]:
                out["check"] = c.returncode
                out["check_out"] = [l for l in c.stdout.splitlines()][-6:]
        out["caught"] = [i for i, rc in caught.items() if rc == 1]
        out["odd"] = [(i, rc) for i, rc in caught.items() if rc not in (0, 1)]
    except Exception as e:
        out["error"] = repr(e)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out

if __name__ == "__main__":
    args = sys.argv[1:]
    ALL = "--all" in args
    args = [a for a in args if a != "--all"]
    bugs = runpy.run_path(args[0])["BUGS"]
    if args[1:]:
        bugs = [b for b in bugs if b["id"] in args[1:]]
    for b in bugs:
        o = one(b)
        print(o["id"], b["prop"], "CONFIRMED" if o.get("confirmed") else "** not confirmed", "CAUGHT" if o.get("check") == 1 else "** MISSED rc=%s" % o.get("check"), o.get("demo"), o.get("tests"), o.get("caught"), o.get("odd") or "", flush=True)
        for k in ("error", "demo_err", "apply_err", "tests_out"):
            if k in o and (k != "demo_err" or not o.get("confirmed")):
                print("    ", k, o[k])
        if o.get("check") != 1:
            print("    ", o.get("check_out"))
