from mon import qmachine

ID = "C05"
RULE = ("random histories of all queue operations on 1-4 queues (also stores, limited capacity, filled at creation) in step with plain Python lists: enter with and without priority, at head, relative to a member, "
        "insert, leave, pop, del, slices, priority changes, clear, extend, copy/move/set operations, capacity changes, iteration while changing; after every operation every view of every queue is compared")
CASES = {"quick": 6000, "thorough": 40000}
REQUIRED = ["views", "accepted", "rejected", "iterations", "iterations_with_change", "iterations_with_several_changes", "op_derive", "op_prio", "op_insert", "op_rel", "op_pop", "op_del", "op_extend", "op_clear"]
ASSUMPTIONS = ["an iteration over a queue that is changed meanwhile: only that members present all the time are given once, and non members not at all"]


def gen(rng, index, tier):
    return qmachine.gen(rng, index, tier)


def check(case, obs):
    m = qmachine.execute(case, obs, lambda m, k: None, True)
    m.register()
    obs.sig = repr(case["ops"])
    obs.nontrivial = len(case["ops"]) > 3


def shrink(case):
    return qmachine.shrink(case)
