def shrink_ops(case, key="ops"):
    ops = case[key]
    n = len(ops)
    size = max(1, n // 2)
    while size >= 1:
        for i in range(0, n, size):
            if n:
                yield dict(case, **{key: ops[:i] + ops[i + size:]})
        size //= 2


def echo(rng, ops, n, query=("query",)):
    """what happened since a reset once more after another reset, with one value changed: results of before must not turn up again"""
    start = max([i + 1 for i, op in enumerate(ops) if op[0] == "reset"] + [0])
    part = [op for op in ops[start:] if op[0] in ("tally", "run")]
    where = [i for i, op in enumerate(part) if op[0] == "tally"]
    if len(where) < 2:
        return ops
    again = [list(op) for op in part]
    again[rng.choice(where)][1] = rng.randrange(n)
    return ops + [list(query), ["reset", True]] + [list(op) for op in part] + [list(query), ["reset", rng.choice([None, True])]] + again + [list(query)]


def lengthy(rng, ops):
    """keeps only few of the operations in a history that forget or query"""
    seldom = {"query": 0.02, "reset": 0.004, "monitor": 0.02, "switch": 0.02, "reset_now": 0.1}
    return [op for op in ops if rng.random() < seldom.get(op[0], 1)] + [["query", 3]]
