from mon.kernel import KernelProp
P = KernelProp(
    "C01",
    [
        dict(comps=(2, 7), len=(3, 12), ops=dict(hold=10, reset_now=0.3, activate=2, oactivate=3, standby=1, ostandby=0.3, remaining=1, create=1, end=0.4, passivate=0.5, ohold=1),
             mainops=dict(oactivate=2, create=1, nop=1)),
        dict(comps=(3, 9), len=(3, 10), ops=dict(hold=10, oactivate=2, create=0.5), mainops=dict(create=1)),
        dict(comps=(2, 6), len=(4, 14), skip_standby=0.3, ops=dict(hold=5, skipsb=0.7, reset_now=0.3, standby=4, ostandby=1, oactivate=2, ocancel=0.5, opassivate=0.5, ohold=1),
             mainops=dict(ostandby=1, oactivate=1, skipsb=0.3)),
    ],
    "random component scripts of hold/activate/standby with tied times, priorities and urgent flags, in yield and yieldless mode; "
    "every resume, its time, and all pending events (scheduled_time, scheduled_priority, peek) are compared with a naive reference event list; "
    "non-trivial: more than 20 observations; distinct by the sequence of executed operations with times",
    {"quick": 10000, "thorough": 60000},
)
P.export(globals())
