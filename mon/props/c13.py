from mon.kernel import KernelProp
from mon.core import Violation


def exactly_once(case, obs, m, r):
    """model-free: items have unique names; replay the recorded deliveries"""
    removed = set()
    for e in r.log:
        if e[0] == "ret" and isinstance(e[3], str) and e[3].startswith("it"):
            if e[3] in removed:
                raise Violation("item %s left twice" % e[3])
            removed.add(e[3])
            obs("explicit_removals")
        elif e[0] == "cont" and isinstance(e[3], str):
            obs("deliveries")
        elif e[0] == "sto":
            seen = []
            for x in e[1:1 + len(r.stores)]:
                name, cap, avail, items, fq, tq = x
                seen += [i for i, _ in items]
                if any(a[1] > b[1] for a, b in zip(items, items[1:])):
                    raise Violation("items of %s not in order of priority: %r" % (name, items))
                obs("store_snapshots")
            if len(set(seen)) != len(seen):
                raise Violation("item in more than one store: %r" % seen)
            if removed & set(seen):
                raise Violation("removed item still in a store: %r" % (removed & set(seen)))


P = KernelProp(
    "C13",
    [
        dict(comps=(3, 8), len=(4, 12), stores=(1, 3), fail=0.15, ops=dict(hold=4, reset_now=0.25, from_store=6, to_store=6, item_enter=0.6, item_leave=0.6, scap=0.5, set_attr=0.4, rescan=0.1, refilter=0.4, ocancel=0.2, oactivate=0.2, end=0.2),
             mainops=dict(item_enter=1, item_leave=1, scap=0.5)),
        dict(comps=(4, 9), len=(3, 9), stores=(1, 1), fail=0.05, ops=dict(hold=4, reset_now=0.25, from_store=6, to_store=6, item_leave=0.5, scap=0.4, refilter=0.4), mainops=dict(scap=1, item_leave=1)),
    ],
    "random producers and consumers with filters, keys, priorities, capacities, failures, direct enter/leave, capacity changes, rescans and changed filters on up to three stores; items have "
    "unique names; deliveries, store contents and requesters queues are compared with the reference model after every operation and checked for duplicates",
    {"quick": 10000, "thorough": 60000}, check=exactly_once, required=("log_cont", "deliveries", "store_snapshots"),
)
P.export(globals())
