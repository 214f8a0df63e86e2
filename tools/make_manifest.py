"""Writes MANIFEST.json from properties.jsonl and the modules present in mon/props."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "model": "runtime monitoring: lockstep comparison of recorded observations with an executable reference model",
    "diff": "runtime monitoring: recorded event logs of two executions compared (differential monitor)",
    "recompute": "runtime monitoring: observations recomputed from an independently recorded history",
    "invariant": "runtime monitoring: invariants checked on hooked public state",
    "oracle": "runtime monitoring: returned values checked against an independent oracle",
}
KIND = {"C01": "model", "C02": "model", "C03": "model", "C04": "diff", "C05": "model", "C06": "recompute", "C07": "model", "C08": "model", "C09": "model", "C10": "model",
        "C11": "model", "C12": "model", "C13": "model", "C14": "recompute", "C15": "recompute", "C16": "diff", "C17": "recompute", "C18": "diff", "C19": "oracle", "C20": "recompute",
        "C21": "oracle", "C22": "diff", "C23": "invariant", "C24": "oracle", "C25": "oracle", "C26": "oracle", "C27": "recompute", "C28": "recompute", "C29": "recompute", "C30": "model", "C31": "invariant", "C32": "model", "C33": "model", "C34": "oracle", "C35": "model"}
NA = {}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(ROOT, "mon", "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py %s" % i,
            "thorough_cmd": "python3 run.py %s --tier thorough" % i,
            "technique": TECH[KIND.get(i, "model")],
            "level": "exploration",
            "level_note": "Held on the executions observed (counts in the evidence file); trusts the independent oracle in /verif/mon and covers only what the generated workloads reach.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/repo'); import salabim\"", "checks": checks, "not_applicable": na,
     "notes": "All monitors are black box (public interface of salabim, imported from /repo's working tree); no hooks in /repo are needed. Seeds from VERIF_SEED, tier from VERIF_TIER."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", [x["property"] for x in na])
