from mon.kernel import KernelProp
P = KernelProp(
    "C09",
    [
        dict(comps=(3, 7), len=(4, 12), resources=(1, 4), fail=0.7, ops=dict(hold=4, reset_now=0.25, request=6, release=2, ocancel=1, oactivate=1.2, opassivate=0.7, ohold=0.7, ostandby=0.3, cancel=0.3, end=0.7),
             res_kinds=dict(plain=3, first=1, highest=1), mainops=dict(ocancel=1, oactivate=1)),
        dict(comps=(3, 7), len=(4, 12), states=(1, 3), fail=0.7, ops=dict(hold=4, reset_now=0.25, wait=6, set=2, trigger=1, ocancel=1, oactivate=1.2, opassivate=0.7, ohold=0.7, cancel=0.3, end=0.5),
             mainops=dict(ocancel=1, oactivate=1, set=1)),
        dict(comps=(3, 7), len=(4, 12), stores=(1, 3), fail=0.7, ops=dict(hold=4, reset_now=0.25, from_store=4, to_store=4, item_leave=1, item_enter=0.5, ocancel=1, oactivate=1.2, opassivate=0.7, ohold=0.7, cancel=0.3, end=0.5),
             mainops=dict(ocancel=1, oactivate=1, item_leave=1)),
        dict(comps=(3, 6), len=(4, 12), resources=(1, 2), states=(1, 1), stores=(1, 1), fail=0.6, keep=0.3,
             ops=dict(hold=4, reset_now=0.25, request=3, release=1, wait=2, set=2, from_store=2, to_store=2, ocancel=1, oactivate=1.5, opassivate=0.5, orequest=0.5, owait=0.5, ofrom_store=0.3, end=0.5, remaining=0.6),
             mainops=dict(ocancel=1, oactivate=1)),
    ],
    "random requests, waits, from_store and to_store with failure times, and activation/cancellation/passivation by others meanwhile; time of continuation, failed(), and all "
    "requesters/waiters queues and claims are compared with the reference model after every operation",
    {"quick": 10000, "thorough": 60000},
)
P.export(globals())
