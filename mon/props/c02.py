from mon.kernel import KernelProp
OPS = dict(hold=8, holdint=0.6, holdpast=0.4, passivate=2, standby=0.7, cancel=0.6, activate=0.6, oactivate=4, ohold=1.5, opassivate=1.2, ostandby=0.6, ocancel=0.8,
           interrupt=3, resume=3, remaining=1.5, setmode=0.7, end=0.6, create=0.5)
P = KernelProp(
    "C02",
    [
        dict(comps=(2, 5), len=(4, 16), mode=0.2, data=0.15, ops=OPS, mainops=dict(oactivate=2, interrupt=1, resume=2, ohold=1, opassivate=1, ocancel=0.5, remaining=0.7)),
        dict(comps=(2, 4), len=(5, 20), mode=0.1, ops=dict(hold=6, reset_now=0.25, interrupt=4, resume=4, remaining=2, oactivate=1, ohold=1, opassivate=1, passivate=0.5), mainops=dict(resume=2, interrupt=1)),
        dict(comps=(2, 4), len=(4, 12), mode=0.1, resources=(1, 2), states=(1, 1), stores=(1, 1), keep=0.3, fail=0.4,
             ops=dict(hold=5, reset_now=0.25, request=2, release=1, wait=2, set=2, from_store=1, to_store=1, oactivate=2, ohold=1, opassivate=1, ocancel=1, ostandby=0.5, standby=0.3,
                      remaining=1, passivate=0.5, end=0.3),
             mainops=dict(oactivate=1, set=1, remaining=1)),
    ],
    "random histories of activate/hold/passivate/interrupt/resume/cancel/standby/remaining_duration by a component itself, by others and by main; "
    "after every operation status, scheduled time, remaining duration, interrupt level, mode and mode time of all components are compared with the reference model; "
    "non-trivial: more than 20 observations; distinct by the sequence of executed operations with times",
    {"quick": 12000, "thorough": 60000},
)
P.export(globals())
