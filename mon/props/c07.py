from mon.kernel import KernelProp
from mon.core import Violation


def conserve(case, obs, m, r):
    """model-free: recompute the claims from the components in every recorded snapshot"""
    caps = {}
    for e in r.log:
        if e[0] != "res":
            continue
        for x in e[1:1 + len(r.resources)]:
            name, claimed, avail, cap, occ, reqs, claimers = x
            anon = case["resources"][int(name[1:])].get("anon")
            tot = sum(q for _, _, q in claimers)
            if not anon and abs(tot - claimed) > 1e-9:
                raise Violation("claimed quantity of %s is %r but its claimers hold %r" % (name, claimed, claimers))
            if abs(avail - (cap - claimed)) > 1e-9 or claimed < -1e-9:
                raise Violation("available %r, capacity %r, claimed %r of %s" % (avail, cap, claimed, name))
            if not anon and not claimers and claimed != 0:
                raise Violation("%s has no claimers, but its claimed quantity is %r" % (name, claimed))
            if any(q <= 0 for _, _, q in claimers):
                raise Violation("empty claim in %s: %r" % (name, claimers))
            old = caps.get(name)
            if old is not None and claimed > old[0] + 1e-9 and claimed > max(cap, old[1]) + 1e-9:
                raise Violation("%s was claimed up to %r with capacity %r" % (name, claimed, cap))
            caps[name] = (claimed, cap)
            obs("conservation_checks")
    for r_ in r.resources:
        for c in r.comps:
            if (c in r_.claimers()) != (c.claimed_quantity(r_) > 0) or c.isclaiming(r_) != (c in r_.claimers()) or c.isbumped(r_) == c.isclaiming(r_):
                raise Violation("claimers/claimed_quantity/isclaiming of %s disagree for %s" % (r_.name(), c.name()))
            if (r_ in c.requested_resources()) != (c in r_.requesters()):
                raise Violation("requesters/requested_resources of %s disagree for %s" % (r_.name(), c.name()))
    for c in r.comps:
        if c.isclaiming() != bool(c.claimed_resources()):
            raise Violation("isclaiming() of %s" % c.name())


P = KernelProp(
    "C07",
    [
        dict(comps=(3, 7), len=(4, 14), resources=(1, 5), ops=dict(hold=5, reset_now=0.25, request=5, release=3, rcap=0.5, rrelease=0.3, ocancel=0.6, cancel=0.3, interrupt=0.7, resume=0.7,
             oactivate=1, end=0.5, opassivate=0.4, create=0.3, orequest=0.4),
             mainops=dict(rcap=1, ocancel=0.5, oactivate=1, release=0.5, rrelease=0.4)),
        dict(comps=(3, 6), len=(4, 12), resources=(1, 2), res_kinds=dict(plain=3, first=1, highest=1, pre=2), fail=0.4,
             ops=dict(hold=5, reset_now=0.25, request=5, release=2, rcap=0.7, ocancel=0.6, oactivate=0.5, end=0.7), mainops=dict(rcap=1)),
        dict(comps=(3, 7), len=(4, 14), resources=(1, 2), dec=True, caps=[0.3, 0.7, 1, 1.1], fail=0.1, ops=dict(hold=5, request=6, release=5, end=0.3, ocancel=0.2, oactivate=0.2), mainops={}),
    ],
    "random contention on resources with capacity changes, partial releases, cancel, failures, interrupts and process ends; in every snapshot the sum of the claims of "
    "the components is recomputed and compared with the resource's own accounting, and all accessors with the reference model",
    {"quick": 10000, "thorough": 60000}, check=conserve, required=("log_cont", "conservation_checks"),
)
P.export(globals())
