"""Writes known_findings.txt from the fix: commits of /repo (a fixed entry suppresses nothing)."""
import subprocess, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = [("does not change the default environment", "C22"), ("shows mode= once", "C31"), ("mode that is not a str", "C31"), ("cap_now and over3d", "C23"), ("captured stdout", "C35"), ("a snapshot updates", "C34"), ("frames of snapshots", "C34"), ("rounded rectangle", "C34"), ("register and deregister of components", "C31"), ("with exclude compares", "C31"), ("infinite values", "C15"), ("sorting values on weight", "C15"), ("comes out of standby is not masked", "C32"), ("ended by an exception", "C32"), ("renaming a queue", "C30"), ("Queue.append honours", "C05"), ("time of the last tally", "C16"), ("requesters queues of a store", "C30"), ("print_info of a component", "C18"), ("wait_for puts", "C12"), ("wait_for with a state", "C12"), ("keep_request", "C02"), ("fractional capacity", "C13"), ("Store.rescan", "C13"), ("from_store with key", "C13"), ("store requester", "C13"), ("request() without", "C02"), ("preemptive", "C10"), ("mixed request", "C11"),
       ("honor_only_first and", "C08"), ("honor other requests at once", "C04"), ("wait for any", "C12"), ("trigger(max=0)", "C12"), ("PeriodMonitor", "C29"), ("Monitor.slice", "C17"),
       ("merging level", "C17"), ("t_multiply", "C17"), ("multiply and x_map", "C17"), ("ComponentGenerator", "C20"), ("mean of Constant", "C19"), ("Erlang", "C19"), ("Pdf", "C19"),
       ("random_seed", "C18"), ("suppress_trace", "C27"), ("rajector", "C24"), ("Queue.insert", "C05"), ("passivating an interrupted", "C02"), ("scheduled time of", "C02"),
       ("standby components", "C01"), ("peek", "C01"), ("Resource.release", "C08"), ("occupancy", "C28"), ("blind video", "C22"),
       ("Queue.copy", "C05"), ("Queue.register", "C05"), ("stats_only", "C16"), ("print_histogram", "C15"), ("keep the start of their source", "C17"),
       ("slicing a weighted monitor", "C17"), ("cached values", "C14"), ("percentile", "C15"), ("as_resampled", "C14"), ("slicing a level", "C17"), ("arange", "C25"),
       ("Poisson", "C19"), ("External", "C19"), ("duration_to_str", "C21"), ("process of another environment", "C22"),
       ("are traced", "C27"), ("can be frozen", "C17"), ("frames of a blind", "C18"), ("rejected", "C23"), ("specified more than once in a request", "C08"), ("nimat", "C34")]
extra = os.path.join(ROOT, "tools", "findings_extra.txt")
out = ["# genuine defects of salabim found by these monitors.",
       "# 'finding: property=<id> key=<text in the report> <what fails>' : recorded, not repaired (printed as KNOWN-FINDING)",
       "# 'fixed: property=<id> <commit> <what failed>' : repaired in /repo; suppresses nothing"]
if os.path.exists(extra):
    out += [l.rstrip("\n") for l in open(extra) if l.strip()]
for line in reversed(subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()):
    h, s = line.split(" ", 1)
    if s.startswith("fix: "):
        for k, p in MAP:
            if k in s:
                break
        else:
            raise SystemExit("no property for " + s)
        out.append("fixed: property=%s %s %s" % (p, h, s[5:]))
open(os.path.join(ROOT, "known_findings.txt"), "w").write("\n".join(out) + "\n")
