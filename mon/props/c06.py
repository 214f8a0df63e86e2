from mon import qmachine
from mon.core import Violation
from mon.refmon import check_level, check_tally, NAN, same

ID = "C06"
RULE = ("random histories of queue operations with time advancing, monitors switched on and off, reset, rate resets and reset_now; the length, length of stay, capacity and available quantity monitors, the "
        "counters and the rates are compared with the arrivals and departures that really took place")
CASES = {"quick": 6000, "thorough": 40000}
REQUIRED = ["views", "level_stats", "tally_stats", "rates", "op_resetmon", "op_monitor", "op_run", "op_rate", "level_points", "tally_entries"]


def gen(rng, index, tier):
    return qmachine.gen(rng, index, tier, stats=True)


def after(case):
    last = len(case["ops"]) - 1

    def f(m, k):
        if k % 12 != 11 and k != last:
            return
        for qi, (q, r) in enumerate(zip(m.q, m.r)):
            n = "queue %d " % qi
            check_level(q.length, r.length, m.t, m.obs, n + "length", offset=m.offset, qs=(50, 90))
            check_tally(q.length_of_stay, r.los, m.obs, n + "length_of_stay", qs=(50, 90))
            if not any(x == float("inf") for _, x in r.cap.pts):
                check_level(q.capacity, r.cap, m.t, m.obs, n + "capacity", offset=m.offset, qs=(50,))
                check_level(q.available_quantity, r.avail, m.t, m.obs, n + "available_quantity", offset=m.offset, qs=(50,))
            for what, got, cnt, t0 in (("arrival_rate", q.arrival_rate(), r.arr, r.arr0), ("departure_rate", q.departure_rate(), r.dep, r.dep0)):
                want = cnt / (m.t - t0) if m.t > t0 else NAN
                if not same(got, want):
                    raise Violation("%s%s is %r, should be %r" % (n, what, got, want))
                m.obs("rates")
            txt = q.print_statistics(as_str=True)
            if q.name() not in txt:
                raise Violation("print_statistics of %s" % q.name())
    return f


def check(case, obs):
    qmachine.execute(case, obs, after(case), False)
    obs.sig = repr(case["ops"])
    obs.nontrivial = len(case["ops"]) > 3


def shrink(case):
    return qmachine.shrink(case)
