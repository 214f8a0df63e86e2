from mon.kernel import KernelProp, compress, close
from mon.core import Violation
from mon.model import INF

OPS_P = dict(hold=6, passivate=0.7, standby=0.4, oactivate=1.5, ohold=0.5, opassivate=0.5, ocancel=0.4, interrupt=1, resume=1.2, setmode=1, end=0.4, remaining=0.3, create=0.3)


def step_stats(h, end):
    """time weighted mean, number of time units, of a list of (t, v) from the first point until end"""
    tot = dur = 0.0
    for (t, v), (t2, _) in zip(h, h[1:] + [(end, None)]):
        tot += v * (t2 - t)
        dur += t2 - t
    return tot, dur


def at(h, t):
    v = None
    for tt, x in h:
        if tt <= t:
            v = x
    return v


def cmp_level(obs, name, mon, hist, now, numeric, value_now):
    want = compress(hist.pts)
    got = compress([(t, v) for v, t in zip(*mon.xt(force_numeric=False))])
    if not close(got, want):
        raise Violation("monitor %s recorded %r, the actual history is %r" % (name, got, want))
    if not close(mon(), value_now) or not close(mon.get(), value_now) or not close(mon.value, value_now):
        raise Violation("monitor %s has value %r, actual %r" % (name, mon(), value_now))
    if now > 0:
        for t in {want[0][0], want[-1][0], now / 2, now, want[len(want) // 2][0]}:
            if t < want[0][0]:
                continue
            if not close(mon(t), at(want, t)):
                raise Violation("monitor %s had value %r at %r, actual %r" % (name, mon(t), t, at(want, t)))
        if numeric and not any(v == INF for _, v in want):
            tot, dur = step_stats(want, now)
            if dur == 0:
                return
            if abs(mon.mean() - tot / dur) > 1e-9 * max(1, abs(tot)):
                raise Violation("mean of %s is %r, actual %r" % (name, mon.mean(), tot / dur))
            if abs(mon.duration() - dur) > 1e-9 * max(1, dur):
                raise Violation("duration of %s is %r, actual %r" % (name, mon.duration(), dur))
        else:
            # time in each value
            for val in {v for _, v in want}:
                d = sum(t2 - t for (t, v), (t2, _) in zip(want, want[1:] + [(now, None)]) if v == val)
                if not numeric and abs(mon.value_duration(val) - d) > 1e-9:
                    raise Violation("%s had value %r for %r, actual %r" % (name, val, mon.value_duration(val), d))
    obs("monitors_compared")
    obs("monitor_changes", len(want))


def check(case, obs, m, r):
    now = m.now
    for mc, rc in zip(m.comps, r.comps):
        cmp_level(obs, rc.name() + ".status", rc.status, mc.status_h, now, False, mc.status)
        cmp_level(obs, rc.name() + ".mode", rc.mode, mc.mode_h, now, False, mc.mode)
    for mr, rr in zip(m.resources, r.resources):
        n = rr.name()
        cmp_level(obs, n + ".capacity", rr.capacity, mr.h_cap, now, True, mr.capacity)
        cmp_level(obs, n + ".claimed_quantity", rr.claimed_quantity, mr.h_claimed, now, True, mr.claimed)
        cmp_level(obs, n + ".available_quantity", rr.available_quantity, mr.h_avail, now, True, mr.capacity - mr.claimed)
        cmp_level(obs, n + ".occupancy", rr.occupancy, mr.h_occ, now, True, mr.occ())
        queue(obs, n + ".requesters", rr.requesters(), mr.requesters, now)
        queue(obs, n + ".claimers", rr.claimers(), mr.claimers, now)
    for ms, rs in zip(m.states, r.states):
        cmp_level(obs, rs.name() + ".value", rs.value, ms.h, now, False, ms.value)
        queue(obs, rs.name() + ".waiters", rs.waiters(), ms.waiters, now)
    for ms, rs in zip(m.stores, r.stores):
        queue(obs, rs.name(), rs, ms, now)
        queue(obs, rs.name() + ".from", rs.from_store_requesters(), ms.fromq, now)
        queue(obs, rs.name() + ".to", rs.to_store_requesters(), ms.toq, now)
    for mq, rq in zip(m.queues, r.queues):
        queue(obs, rq.name(), rq, mq, now)


def queue(obs, name, rq, mq, now):
    cmp_level(obs, name + ".length", rq.length, mq.length, now, True, len(mq))
    cmp_level(obs, name + ".capacity", rq.capacity, mq.cap, now, True, mq.capacity)
    cmp_level(obs, name + ".available_quantity", rq.available_quantity, mq.avail, now, True, mq.capacity - len(mq))
    if not close(list(rq.length_of_stay.x()), list(mq.los)):
        raise Violation("length_of_stay of %s is %r, actual %r" % (name, list(rq.length_of_stay.x()), mq.los))
    if (rq.number_of_arrivals, rq.number_of_departures) != (mq.arrivals, mq.departures):
        raise Violation("arrivals/departures of %s are %r, actual %r" % (name, (rq.number_of_arrivals, rq.number_of_departures), (mq.arrivals, mq.departures)))
    obs("queues_compared")


P = KernelProp(
    "C28",
    [
        dict(comps=(2, 5), len=(4, 14), mode=0.3, ops=OPS_P, mainops=dict(oactivate=1, interrupt=1, resume=1)),
        dict(comps=(2, 6), len=(4, 12), resources=(1, 2), res_kinds=dict(plain=4, pre=1, anon=2), fail=0.3,
             ops=dict(hold=5, request=5, release=3, rcap=1, rrelease=0.4, ocancel=0.5, end=0.5, setmode=0.3), mainops=dict(rcap=1)),
        dict(comps=(2, 6), len=(4, 12), states=(1, 2), stores=(1, 1), queues=(1, 2), fail=0.3,
             ops=dict(hold=5, wait=2, set=3, trigger=1, from_store=2, to_store=2, item_leave=0.3, scap=0.7, enter=2, leave=2, qpop=0.5, end=0.3), mainops=dict(set=1, scap=1)),
    ],
    "random models; at the end of each run every built-in monitor (status, mode, capacity, claimed/available quantity, occupancy, state value, queue length/capacity/available/length of stay) is "
    "compared with the step function recorded by the reference model, including values at past moments and time weighted means",
    {"quick": 8000, "thorough": 50000}, check=check, required=("monitors_compared", "queues_compared", "monitor_changes"),
)
P.export(globals())
