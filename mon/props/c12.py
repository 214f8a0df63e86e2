from mon.kernel import KernelProp
P = KernelProp(
    "C12",
    [
        dict(comps=(3, 8), len=(4, 12), states=(1, 3), state_values=[False, True, 0, 1, "red", None], fail=0.15, ops=dict(hold=5, reset_now=0.25, wait=6, set=4, trigger=2, ocancel=0.2, oactivate=0.3), mainops=dict(set=2, trigger=1)),
        dict(comps=(4, 9), len=(4, 10), states=(1, 1), state_values=[False, 0, "green", None], fail=0.1, ops=dict(hold=4, reset_now=0.25, wait=6, set=2, trigger=3), mainops=dict(set=1, trigger=2)),
    ],
    "random waits (values, $-expressions, functions; any/all; priorities) and set/reset/trigger with max and after values on boolean, integer and string states; time and order of every "
    "continuation, values and waiters queues are compared with the reference model after every operation",
    {"quick": 10000, "thorough": 60000},
)
P.export(globals())
