from mon.kernel import KernelProp
P = KernelProp(
    "C11",
    [
        dict(comps=(3, 8), len=(4, 12), resources=(1, 2), res_kinds=dict(anon=5, anonfirst=1, anonhighest=1), fail=0.2,
             ops=dict(hold=5, reset_now=0.25, get=5, put=5, rrelease=0.5, rcap=0.4, ocancel=0.3, end=0.2, request=1), mainops=dict(rrelease=1, rcap=0.5)),
        dict(comps=(3, 7), len=(4, 12), resources=(2, 3), res_kinds=dict(anon=2, plain=1), fail=0.2,
             ops=dict(hold=5, reset_now=0.25, get=3, put=4, request=4, release=2, rrelease=0.5, ocancel=0.3, end=0.3), mainops=dict(rrelease=1)),
        dict(comps=(3, 7), len=(4, 14), resources=(1, 2), res_kinds=dict(anon=1), dec=True, caps=[0.3, 0.7, 1, 1.1], fail=0.1, ops=dict(hold=5, get=5, put=5, rrelease=0.4, end=0.3, ocancel=0.2, oactivate=0.2), mainops={}),
    ],
    "random producers and consumers on anonymous resources (also mixed with regular ones and in multiple/oneof requests); contents, order and time of every honor are compared "
    "with the reference model after every operation",
    {"quick": 10000, "thorough": 60000},
)


def _fix(case):
    # operations get/put need an anonymous resource
    return case


_gen = P.gen


def gen(rng, index, tier):
    while True:
        c = _gen(rng, index, tier)
        if any(r.get("anon") for r in c["resources"]):
            return c


P.gen = gen
P.export(globals())
