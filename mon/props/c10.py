from mon.kernel import KernelProp
P = KernelProp(
    "C10",
    [
        dict(comps=(3, 8), len=(4, 12), resources=(1, 1), res_kinds=dict(pre=1), caps=[1, 1, 2, 3, 4], fail=0.2, ops=dict(hold=6, reset_now=0.25, request=6, release=2, end=0.3, rcap=0.2, oactivate=0.3), mainops=dict(rcap=0.4, oactivate=0.4)),
        dict(comps=(3, 8), len=(4, 12), resources=(2, 3), res_kinds=dict(pre=2, plain=1), caps=[1, 2, 3, 4], fail=0.2,
             ops=dict(hold=5, reset_now=0.25, request=6, release=2, end=0.3, interrupt=0.5, resume=0.5, ocancel=0.3, opassivate=0.3), mainops={}),
    ],
    "random populations of claimers and requesters with priorities and quantities on preemptive resources; victims, their remaining claims, resume times and all claimers queues are "
    "compared with the reference model after every operation",
    {"quick": 10000, "thorough": 60000},
)
P.export(globals())
