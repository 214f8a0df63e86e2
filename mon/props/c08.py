from mon.kernel import KernelProp
P = KernelProp(
    "C08",
    [
        dict(comps=(4, 9), len=(4, 12), resources=(1, 3), fail=0.15, ops=dict(hold=5, reset_now=0.25, request=6, release=4, rcap=0.5, ocancel=0.3, end=0.3, oactivate=0.3),
             mainops=dict(rcap=1)),
        dict(comps=(4, 8), len=(4, 12), resources=(2, 3), res_kinds=dict(plain=1, first=2, highest=2), fail=0.2,
             ops=dict(hold=5, reset_now=0.25, request=6, release=4, rcap=0.5, ocancel=0.4, end=0.3, oactivate=0.4), mainops=dict(rcap=1)),
        dict(comps=(4, 8), len=(4, 12), resources=(2, 3), res_kinds=dict(plain=2, first=2, highest=2), fail=0.2, unitq=True,
             ops=dict(hold=5, reset_now=0.25, request=6, release=4, rcap=0.5, ocancel=0.4, end=0.3, oactivate=0.4), mainops=dict(rcap=1)),
        dict(comps=(4, 8), len=(4, 12), resources=(1, 1), caps=[1, 2, 4], fail=0.1, ops=dict(hold=5, reset_now=0.25, request=6, release=4), mainops={}),
        dict(comps=(4, 8), len=(4, 10), resources=(2, 3), res_kinds=dict(plain=3, first=1, anon=2, anonfirst=1, anonhighest=1), fail=0.1, ops=dict(hold=4, reset_now=0.25, request=5, put=1, get=1, release=3, rcap=0.3, rrelease=0.3, end=0.2),
             mainops=dict(rcap=1)),
        dict(comps=(3, 7), len=(4, 14), resources=(1, 2), dec=True, caps=[0.3, 0.7, 1, 1.1], fail=0.1, ops=dict(hold=5, request=6, release=5, end=0.3, ocancel=0.2, oactivate=0.2), mainops={}),
    ],
    "random single/multiple/oneof requests with priorities on plain and honor_only_first/highest_priority resources with releases and capacity changes; "
    "order and time of every honor and the contents of all requesters and claimers queues are compared with the reference model, which scans all pending requests naively",
    {"quick": 10000, "thorough": 60000},
)
P.export(globals())
