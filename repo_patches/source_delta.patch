From 68e95bf5fdc6f19832ab8f4635773aa62bb26d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:12 +0000
Subject: [PATCH 001/115] fix: Store.rescan takes at most one item per
 from_store requester

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4641412..0da2e23 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5788,6 +5788,7 @@ class Store(Queue):
                     c._remove()
                     c.status._value = scheduled
                     c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    break  # this requester is honored, so no more items for it
 
     def _rescan_to(self):
         """
-- 
2.43.0


From 8f9cf9924655daadee78dd28f5b2741c937d1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:13 +0000
Subject: [PATCH 002/115] fix: from_store with key takes the item from the
 store that holds it

---
 salabim/salabim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0da2e23..053e43e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8234,13 +8234,16 @@ by adding:
                         if found_key is None or this_key < found_key:
                             found_c = c
                             found_key = this_key
+                            found_store = store
                     else:
                         found_c = c
+                        found_store = store
                         done = True
                         break
             if done:
                 break
-        if found_c:
+        if found_c is not None:
+            store = found_store
             found_c.leave(store)
             self._from_store_item = found_c
             self._from_store_store = store
-- 
2.43.0


From 86eabff6637f96dc3b818a69da5cf2778f65ff16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:13 +0000
Subject: [PATCH 003/115] fix: dequeue a store requester before its item is
 moved

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 053e43e..43d49c1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4247,10 +4247,10 @@ class Qmember:
             store = q
             for requester in store._from_store_requesters:
                 if requester._from_store_filter(c):
-                    c.leave(store)
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
+                    c.leave(store)  # only now, as this may honor a to_store request, that should not see this requester again
                     requester._from_store_item = c
                     requester._from_store_store = store
                     requester._remove()
@@ -9791,11 +9791,11 @@ by adding:
             if available_quantity > 0:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
+                    with self.env.suppress_trace():  # only now, as this may honor a from_store request, that should not see this requester again
+                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-- 
2.43.0


From 1b3c06fb50873b6e460b123cfac0507653764213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:46 +0000
Subject: [PATCH 004/115] fix: request() without resources makes the component
 scheduled

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 43d49c1..f8d27f2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8593,6 +8593,7 @@ by adding:
 
         if not args:
             honoredstr = "-"
+            self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
             return
         for arg in args:
-- 
2.43.0


From f728fc3886806c68b32b6f74d0efb912d4eec55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:27 +0000
Subject: [PATCH 005/115] fix: a preemptive request bumps only when that honors
 it, and no more claimers than needed

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f8d27f2..eb4a772 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8649,9 +8649,9 @@ by adding:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-                    av += c.claimed_quantity(this_claimers)
+                    av += c.claimed_quantity(r)
                     bump_candidates.append(c)
-                if av >= 0:
+                if av >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
-- 
2.43.0


From 5cb94b0f4882ebdb3d67d1520540a25bbce429d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:58 +0000
Subject: [PATCH 006/115] fix: honoring a mixed request does not derail the
 scan of a resource's requesters

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index eb4a772..3887def 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24355,6 +24355,8 @@ class Resource:
                 c = mx.component
                 mx = mx.successor
                 c._tryrequest()
+                if mx != self._requesters._tail and mx.component is None:
+                    mx = self._requesters._head.successor  # honored via another (anonymous) resource of c, so start again
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From bc2e95c70ad036be277544e5bf1137b9e19a40cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:36 +0000
Subject: [PATCH 007/115] fix: honor_only_first and honor_only_highest_priority
 serve the next requester when the first is gone

---
 salabim/salabim.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3887def..2822581 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7490,12 +7490,16 @@ by adding at the end:
         if self._requests:
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), "request failed")
-            for r in list(self._requests):
+            failed_resources = list(self._requests)
+            for r in failed_resources:
                 self.leave(r._requesters)
                 if r._requesters._length == 0:
                     r._minq = inf
             self._requests = collections.OrderedDict()
             self._failed = True
+            for r in failed_resources:
+                if r._honor_only_first or r._honor_only_highest_priority:
+                    r._tryrequest()  # there might be a new first requester
 
         if self._waits:
             if self.env._trace:
@@ -8761,10 +8765,10 @@ by adding:
             r_honor = self.honor_all()
 
         if r_honor:
-            anonymous_resources = []
+            retry_resources = []
             for r in list(self._requests):
-                if r._anonymous:
-                    anonymous_resources.append(r)
+                if r._anonymous or r._honor_only_first or r._honor_only_highest_priority:
+                    retry_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
                     this_prio = self.priority(r._requesters)
@@ -8793,7 +8797,7 @@ by adding:
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
-            for r in anonymous_resources:
+            for r in retry_resources:
                 r._tryrequest()
             return True
         else:
@@ -24327,12 +24331,12 @@ class Resource:
         if self._anonymous:
             if not self._trying:
                 self._trying = True
-                mx = mx_first = self._requesters._head.successor
-                mx_first_priority = mx_first.priority
+                mx = self._requesters._head.successor
                 while mx != self._requesters._tail:
+                    mx_first = self._requesters._head.successor
                     if self._honor_only_first and mx != mx_first:
                         break
-                    if self._honor_only_highest_priority and mx.priority != mx_first_priority:
+                    if self._honor_only_highest_priority and mx.priority != mx_first.priority:
                         break
                     c = mx.component
                     mx = mx.successor
@@ -24342,13 +24346,13 @@ class Resource:
 
                 self._trying = False
         else:
-            mx = mx_first = self._requesters._head.successor
-            mx_first_priority = mx_first.priority
+            mx = self._requesters._head.successor
 
             while mx != self._requesters._tail:
+                mx_first = self._requesters._head.successor
                 if self._honor_only_first and mx != mx_first:
                     break
-                if self._honor_only_highest_priority and mx.priority != mx_first_priority:
+                if self._honor_only_highest_priority and mx.priority != mx_first.priority:
                     break
                 if self._minq > (self._capacity - self._claimed_quantity + 1e-8):
                     break  # inpossible to honor any more requests
-- 
2.43.0


From 4bcdd73e722dc295d0b1d0c07c8fcf362f0be67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:23 +0000
Subject: [PATCH 008/115] fix: honor other requests at once when an anonymous
 request is honored immediately in yieldless mode

---
 salabim/salabim.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2822581..d204335 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7466,7 +7466,7 @@ by adding at the end:
                 seq = self.env._seq
             self._on_event_list = True
             heapq.heappush(self.env._event_list, (t, priority, seq, self, return_value))
-        if self.env._yieldless:
+        if switch and self.env._yieldless:
             if self is self.env._current_component:
                 self.env._glet.switch()
 
@@ -7526,7 +7526,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7553,7 +7553,7 @@ by adding at the end:
                 merge_blanks(scheduled_time_str + _prioritytxt(priority) + _urgenttxt(urgent) + lineno, self._modetxt(), extra),
                 s0=s0,
             )
-        self._push(scheduled_time, priority, urgent, return_value)
+        self._push(scheduled_time, priority, urgent, return_value, switch)
 
     def activate(
         self,
@@ -8796,9 +8796,12 @@ by adding:
             self._remove()
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0, switch=False)
             for r in retry_resources:
                 r._tryrequest()
+            if self.env._yieldless:
+                if self is self.env._current_component:
+                    self.env._glet.switch()  # only now, as other requests might have to be honored first
             return True
         else:
             return False
-- 
2.43.0


From ee89ee0664528543a377d5e2ea153e0bc999f8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:24 +0000
Subject: [PATCH 009/115] fix: wait for any evaluates $ as the state's value,
 also if that is not a number

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d204335..11cace7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9277,7 +9277,7 @@ by adding:
                             honored = True
                             break
                     elif valuetype == 1:
-                        if eval(value.replace("$", str(state._value))):
+                        if eval(value.replace("$", "state._value")):
                             honored = True
                             break
                     elif valuetype == 2:
-- 
2.43.0


From 10951c0b498dd3b4fe4360da1503c04cece6bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:49 +0000
Subject: [PATCH 010/115] fix: State.trigger(max=0) honors no components for
 the trigger value

---
 salabim/salabim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 11cace7..9f27af2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23808,13 +23808,11 @@ class State:
 
     def _trywait(self, max=inf):  # this _trywait of a state
         mx = self._waiters._head.successor
-        while mx != self._waiters._tail:
+        while mx != self._waiters._tail and max > 0:
             c = mx.component
             mx = mx.successor
             if c._trywait():
                 max -= 1
-                if max == 0:
-                    return
 
     def monitor(self, value: bool = None) -> None:
         """
-- 
2.43.0


From 741813939ccc3aad6b45f6cfcdbd535552a3b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 011/115] fix: PeriodMonitor works in yieldless mode, in a
 given environment and more than once per monitor

---
 salabim/salabim.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9f27af2..499cfba 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24505,6 +24505,15 @@ class _PeriodComponent(Component):
             self.pm.perperiod[self.pm.iperiod].monitor(True)
             yield self.hold(duration)
 
+    def process_yieldless(self):
+        for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
+            self.pm.perperiod[self.pm.iperiod].monitor(False)
+            self.pm.iperiod = iperiod
+            if self.pm.m._level:
+                self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
+            self.pm.perperiod[self.pm.iperiod].monitor(True)
+            self.hold(duration)
+
 
 class PeriodMonitor:
     """
@@ -24559,8 +24568,9 @@ class PeriodMonitor:
         self.m.period_monitors.remove(self)
 
     def __init__(self, parent_monitor: "Monitor", periods: Iterable = None, period_monitor_names: Iterable = None, env: "Environment" = None):
-        self.pc = _PeriodComponent(pm=self, skip_standby=True, suppress_trace=True)
         self.env = _set_env(env)
+        process = "process_yieldless" if self.env._yieldless else "process"
+        self.pc = _PeriodComponent(pm=self, skip_standby=True, suppress_trace=True, process=process, env=self.env)
 
         if periods is None:
             periods = 24 * [1]
@@ -24573,13 +24583,13 @@ class PeriodMonitor:
                 cum += duration
 
         self.m = parent_monitor
-        if not hasattr(self, "period_monitors"):
+        if not hasattr(self.m, "period_monitors"):
             self.m.period_monitors = []
             self.m.org_tally = self.m.tally
             self.m.tally = types.MethodType(self.new_tally, self.m)
             self.m.org_reset = self.m.reset
             self.m.reset = types.MethodType(self.new_reset, self.m)
-            self.m.period_monitors.append(self)
+        self.m.period_monitors.append(self)
 
         self.iperiod = 0
         if self.m._level:
-- 
2.43.0


From 1d523871bee41ebec28cb67a32b041b965dc69b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 012/115] fix: Monitor.slice honors an omitted start,
 reset_now, wrapping periods and the current time

---
 salabim/salabim.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 499cfba..2d043f2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -821,6 +821,7 @@ class Monitor:
             name = self.name() + ".sliced"
         new = _SystemMonitor(level=self._level, type=self.xtype, name=name, env=self.env)
         actions = []
+        now = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
         if modulo is None:
             if start is None:
                 start_ = -inf
@@ -829,16 +830,15 @@ class Monitor:
             start_ = max(start_, self.start)
             if stop is None:
                 stop = inf
-                stop_action = "z"  # inclusive
             else:
                 stop += self.env._offset
-                stop_action = "b"  # non inclusive
-            if self.env._animate:
-                stop = min(stop, self.env._t)
-            else:
-                stop = min(stop, self.env._now - self.env._offset)  # not self.now() in order to support frozen monitors
-            actions.append((start, "a", 0, 0))
-            actions.append((stop, stop_action, 0, 0))
+            stop_action = "b"  # non inclusive
+            if stop > now:
+                stop = now
+                stop_action = "z"  # inclusive
+            if start_ <= stop:
+                actions.append((start_, "a", 0, 0))
+                actions.append((stop, stop_action, 0, 0))
         else:
             if start is None:
                 raise TypeError("modulo specified, but no start specified. ")
@@ -848,13 +848,16 @@ class Monitor:
                 raise ValueError("stop must be > start")
             if stop - start >= modulo:
                 raise ValueError("stop must be < start + modulo")
-            start_ = start % modulo
-            stop = stop % modulo
-            start1 = self._t[0] - (self._t[0] % modulo) + start_
-            len1 = (stop - start_) % modulo
-            while start1 < self.env._now:
-                actions.append((start1, "a", 0, 0))
-                actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+            start_ = (start + self.env._offset) % modulo
+            len1 = stop - start
+            start1 = self.start - (self.start % modulo) + start_ - modulo  # a period that started before self.start might still apply
+            while start1 <= now:
+                if start1 + len1 > self.start:
+                    actions.append((max(start1, self.start), "a", 0, 0))
+                    if start1 + len1 > now:
+                        actions.append((now, "z", 0, 0))  # inclusive
+                    else:
+                        actions.append((start1 + len1, "b", 0, 0))  # non inclusive
                 start1 += modulo
 
         if new._level:
-- 
2.43.0


From b5172c03123e635e05189989ab26edd0026f8b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 013/115] fix: merging level monitors of different types keeps
 the periods where one is off

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2d043f2..c5913a3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -594,7 +594,9 @@ class Monitor:
             curx = [new.off] * len(merge)
             new._t = array.array("d")
             for t, index, x in heapq.merge(*[zip(merge[index]._t, itertools.repeat(index), merge[index]._x) for index in range(len(merge))]):
-                if new.xtypecode:
+                if x == merge[index].off:
+                    curx[index] = new.off
+                elif new.xtypecode:
                     curx[index] = x
                 else:
                     try:
-- 
2.43.0


From 7ea27bdd53012f7fe9e2357b1b5167f862b940c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 014/115] fix: t_multiply does not overwrite the last value

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c5913a3..9967a6c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -657,9 +657,11 @@ class Monitor:
         for t in self._t:
             new._t.append(t * factor)
 
+        new._x.append(new.off)
+        new._t.append(self.env._now * factor)
+
         new.start = self.start * factor
-        new.monitor(False)
-        new._t[-1] = new._t[-1] * factor
+        new._monitor = False
         new.isgenerated = True
         return new
 
-- 
2.43.0


From 2442d16347dbad494e54ce3aa4922080aad8d336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:43 +0000
Subject: [PATCH 015/115] fix: multiply and x_map keep the weights of a monitor

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9967a6c..cadf5d9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -737,6 +737,8 @@ class Monitor:
                 else:
                     new._x.append(func(x))
                 new._t.append(t)
+            if self._weight:
+                new._weight = self._weight[:]
 
         for m in monitors:
             del m._x_any
@@ -1608,6 +1610,8 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            if self._weight:
+                new._weight = self._weight[:]
             return new
 
         else:
-- 
2.43.0


From 7ee4d551c9c6ea7f654f9285d188f49a600f0e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:30 +0000
Subject: [PATCH 016/115] fix: ComponentGenerator honors reset_now, and
 duration for a random spread

---
 salabim/salabim.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cadf5d9..957d238 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20546,7 +20546,10 @@ class ComponentGenerator(Component):
             process = ""
         else:
             if (self.iat is None and not equidistant) or moments:
-                if not moments:
+                till = self.till
+                if moments:
+                    moments = [moment + env._offset for moment in moments]
+                else:
                     if till == inf or self.number == inf:
                         raise ValueError("iat not specified --> till and number need to be specified")
                     if disturbance is not None:
@@ -20554,7 +20557,7 @@ class ComponentGenerator(Component):
 
                     moments = sorted([Uniform(at, till)() for _ in range(self.number)])
                     if force_at or force_till:
-                        if number == 1:
+                        if self.number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
                             moments = [at] if force_at else [till]
@@ -20603,6 +20606,8 @@ class ComponentGenerator(Component):
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
 
+        if at is not None:
+            at -= env._offset
         super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
 
     def do_spread(self):
@@ -20639,9 +20644,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20663,19 +20668,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20711,9 +20716,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20735,19 +20740,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From 52fa728fc275d872d350db4c3dc41cd8f903851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:30 +0000
Subject: [PATCH 017/115] fix: ComponentGenerator with disturbance calls at_end
 when number is reached

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 957d238..bc1cf57 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20677,6 +20677,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
@@ -20749,6 +20750,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
-- 
2.43.0


From 6b539a6739724c3deaf8c44ddb5495a0c14b0259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:46 +0000
Subject: [PATCH 018/115] fix: ComponentGenerator with disturbance creates
 components in its own environment

---
 salabim/salabim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bc1cf57..6369081 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20673,7 +20673,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
@@ -20746,7 +20749,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
+            save_default_env = g.default_env
+            g.default_env = self.env
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
-- 
2.43.0


From b785d1036785cecf1fc08064a56c6a83c406f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 019/115] fix: the mean of Constant, Distribution and Pdf of
 distributions takes the time unit into account once

---
 salabim/salabim.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6369081..e369714 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21862,8 +21862,7 @@ class Constant(_Distribution):
         else:
             _checkrandomstream(randomstream)
             self.randomstream = randomstream
-        self._mean = value
-        self._mean *= self.time_unit_factor
+        self._mean = value * self.time_unit_factor
 
     def __repr__(self):
         return "Constant"
@@ -21907,7 +21906,7 @@ class Constant(_Distribution):
         -------
         mean of the distribution (= the specified constant) : float
         """
-        return self._mean * self.time_unit_factor
+        return self._mean
 
 
 class Poisson(_Distribution):
@@ -22692,7 +22691,7 @@ class Pdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23034,7 +23033,7 @@ class CumPdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23476,7 +23475,7 @@ class Distribution(_Distribution):
             self.randomstream = randomstream
         self._distribution = d
         try:
-            self._mean = d._mean
+            self._mean = d.mean()
         except AttributeError:
             self._mean = nan
 
-- 
2.43.0


From 914883f8b99b5f242f535364f7f08fef3a8c2aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 020/115] fix: Erlang converts from its time unit, not to it

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e369714..b9e043d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22441,7 +22441,7 @@ class Erlang(_Distribution):
         -------
         Sample of the distribution : float
         """
-        return self.randomstream.gammavariate(self._shape, 1 / self._rate) / self.time_unit_factor
+        return self.randomstream.gammavariate(self._shape, 1 / self._rate) * self.time_unit_factor
 
     def mean(self) -> float:
         """
@@ -22449,7 +22449,7 @@ class Erlang(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean / self.time_unit_factor
+        return self._mean * self.time_unit_factor
 
 
 class Cdf(_Distribution):
-- 
2.43.0


From 07352110b7b617df5622e003c51004485ad9f577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 021/115] fix: Pdf and Pmf with equal probabilities sample a
 distribution value

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b9e043d..b4459e1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22756,7 +22756,8 @@ class Pdf(_Distribution):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22898,7 +22899,8 @@ class Pmf(Pdf):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
-- 
2.43.0


From 3317647838c898ce631cbd0c15fbf7a0192510aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 022/115] fix: Pdf, Pmf, CumPdf and CumPmf never return a value
 that was not specified

---
 salabim/salabim.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b4459e1..fba1001 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22767,8 +22767,8 @@ class Pdf(_Distribution):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -22910,8 +22910,8 @@ class Pmf(Pdf):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -23084,8 +23084,8 @@ class CumPdf(_Distribution):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
@@ -23194,8 +23194,8 @@ class CumPmf(CumPdf):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
-- 
2.43.0


From 9c41ac407e001066a4dd1ef3698719e253ef5798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 023/115] fix: random_seed seeds the given randomstream

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fba1001..6bd5539 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25484,7 +25484,7 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = 1234567
         elif seed == "*":
             seed = None
-        random.seed(seed)
+        randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
             numpy.random.seed(seed)
 
-- 
2.43.0


From 534b5823a5eb5cb12faef852451a90baed98090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:44 +0000
Subject: [PATCH 024/115] fix: suppress_trace restores the trace after an
 exception

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6bd5539..55823e2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13238,8 +13238,10 @@ class Environment:
         """
         save_trace = self._trace
         self._trace = False
-        yield
-        self._trace = save_trace
+        try:
+            yield
+        finally:
+            self._trace = save_trace
 
     def suppress_trace_linenumbers(self, value: bool = None) -> bool:
         """
-- 
2.43.0


From 22382d007be8e888cfa714baf7a7c1b19819140d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:22 +0000
Subject: [PATCH 025/115] fix: TrajectoryPolygon.length does not count the
 passed segments twice

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 55823e2..b1c9e8c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6706,7 +6706,7 @@ class TrajectoryPolygon(_Trajectory):
             total length if t omitted
         """
         length, i, j = self.indexes(t, _t0=_t0)
-        return self.cum_length[i] + length
+        return self._length if i == len(self.cum_length) - 1 else length
 
     def rendered_polygon(self, time_step: float = 1) -> List[Tuple[float, float]]:
         """
-- 
2.43.0


From cc991edf3774fe1a4eeffd9e32380ecab6d9f82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:22 +0000
Subject: [PATCH 026/115] fix: TrajectoryCircle.length() returns the total
 length

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b1c9e8c..dd5a51c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6952,6 +6952,8 @@ class TrajectoryCircle(_Trajectory):
 
             total length if t omitted
         """
+        if t is None:
+            return self._length
         t0 = self._t0 if _t0 is None else _t0
         t1 = t0 + self._duration
         if t < t0:
-- 
2.43.0


From c9ed5cc6978fd51e7ef4f982c08246418328d8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:22 +0000
Subject: [PATCH 027/115] fix: a merged trajectory may contain merged
 trajectories

---
 salabim/salabim.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index dd5a51c..45323e9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6028,9 +6028,14 @@ class TrajectoryMerged(_Trajectory):
     """
 
     def __init__(self, trajectories) -> None:
-        self._trajectories = trajectories
+        self._trajectories = []
+        for trajectory in trajectories:
+            if isinstance(trajectory, TrajectoryMerged):
+                self._trajectories.extend(trajectory._trajectories)  # as these have to shift in time as well
+            else:
+                self._trajectories.append(trajectory)
         self._duration = sum(trajectory._duration for trajectory in self._trajectories)
-        self._t0 = trajectories[0]._t0
+        self._t0 = self._trajectories[0]._t0
         self._t1 = self._t0 + self._duration
         self._length = sum(trajectory._length for trajectory in self._trajectories)
         cum_length = 0
-- 
2.43.0


From 5485e5ad75e8923adcbdeb3e4ab7c48da47efbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:23 +0000
Subject: [PATCH 028/115] fix: Queue.insert at the end keeps the queue sorted
 on priority

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 45323e9..9a04a2e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5000,7 +5000,7 @@ class Queue:
                 break
             count = count + 1
             mx = mx.successor
-        priority = mx.priority
+        priority = mx.predecessor.priority if mx == self._tail else mx.priority
         Qmember().insert_in_front_of(mx, component, self, priority)
         return self
 
-- 
2.43.0


From b688192487c7f0aa032e14232161858dd39fdd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:43 +0000
Subject: [PATCH 029/115] fix: passivating an interrupted component keeps its
 remaining duration

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9a04a2e..587f74b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7907,7 +7907,8 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._check_fail()
-            self._remaining_duration = self._scheduled_time - self.env._now
+            if self.status.value != interrupted:  # an interrupted component already has the proper remaining duration
+                self._remaining_duration = self._scheduled_time - self.env._now
         self._scheduled_time = inf
 
         self.set_mode(mode)
-- 
2.43.0


From d4ed612d62efb1ee6507405a76719076f44f0e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:43 +0000
Subject: [PATCH 030/115] fix: the scheduled time of an interrupted component
 is inf

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 587f74b..73cb986 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7952,6 +7952,7 @@ by adding:
             self._checkisnotdata()
             self._remove()
             self._remaining_duration = self._scheduled_time - self.env._now
+            self._scheduled_time = inf
             self._interrupted_status = self.status.value
             self._interrupt_level = 1
             self.status._value = interrupted
-- 
2.43.0


From 4ac14e29e5bcd199964a0ce44e70a6762222d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:17 +0000
Subject: [PATCH 031/115] fix: standby components are not lost after a
 component with skip_standby

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 73cb986..c9d7b76 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11218,7 +11218,7 @@ class Environment:
                                 return
 
             if len(self.env._standbylist) > 0:
-                self._pendingstandbylist = list(self.env._standbylist)
+                self._pendingstandbylist.extend(self.env._standbylist)  # there might be pending ones left, because of skip_standby
                 self.env._standbylist = []
 
             if self._event_list:
-- 
2.43.0


From efa7b11213db44c4f882b495305bdb6903c855f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:17 +0000
Subject: [PATCH 032/115] fix: peek takes reset_now into account

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c9d7b76..f5092c5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4109,7 +4109,7 @@ if Pythonista:
                             env._t = env.animation_start_time
                         else:
                             env._t = env.animation_start_time + ((time.time() - env.animation_start_clocktime) * env._speed)
-                    while (env.peek() < env._t) and env.running and env._animate:
+                    while (env.peek() < env._t - env._offset) and env.running and env._animate:
                         env.step()
 
                 else:
@@ -13134,13 +13134,13 @@ class Environment:
         Only for advance use with animation / GUI event loops
         """
         if len(self.env._pendingstandbylist) > 0:
-            return self.env._now
+            return self.env._now - self._offset
         else:
             if self._event_list:
-                return self._event_list[0][0]
+                return self._event_list[0][0] - self._offset
             else:
                 if self.end_on_empty_eventlist:
-                    return self._now
+                    return self._now - self._offset
                 else:
                     return inf
 
@@ -13498,7 +13498,7 @@ class Environment:
                         self._t = self.animation_start_time
                     else:
                         self._t = self.animation_start_time + ((time.time() - self.animation_start_clocktime) * self._speed)
-                while self.peek() < self._t:
+                while self.peek() < self._t - self._offset:
                     self.step()
                     if not (self.running and self._animate):
                         if self.root is not None:
-- 
2.43.0


From 107662eac368a9ce21879177c17d342a43e02c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 033/115] fix: peek before the first run with no events returns
 inf

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f5092c5..6aefab3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10692,6 +10692,7 @@ class Environment:
         self._video_out = None
         self._video_repeat = 1
         self._video_pingpong = False
+        self.end_on_empty_eventlist = False
         if self.env._yieldless:
             global greenlet
             import greenlet
-- 
2.43.0


From 8011bbc9ae63465ec4539db8d6017919ed14a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 034/115] fix: the scheduled time of a component held
 interrupted by another component is inf

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6aefab3..c3a710d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7857,6 +7857,7 @@ by adding:
             self._remaining_duration = scheduled_time - self.env._now
             self._interrupted_status = scheduled
             self._interrupt_level = int(interrupted)
+            self._scheduled_time = inf
             self.status._value = "interrupted"
             if self.env._trace:
                 caller = "hold-interrupt"
-- 
2.43.0


From ce178176c6cc724312aafdcd6864a5fc0a65c876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 035/115] fix: Resource.release does not release claims that
 are honored by that release

---
 salabim/salabim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c3a710d..ffa1295 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24438,10 +24438,7 @@ class Resource:
             if quantity is not None:
                 raise ValueError("no quantity allowed for non-anonymous resource")
 
-            mx = self._claimers._head.successor
-            while mx != self._claimers._tail:
-                c = mx.component
-                mx = mx.successor
+            for c in list(self._claimers):  # not the ones that get the resource because of this release
                 c.release(self)
 
     def requesters(self) -> Queue:
-- 
2.43.0


From 00cde7f4fa86133633e7279c3fb45c92acfb74ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 036/115] fix: the occupancy of an anonymous resource starts
 with its initial claimed quantity

---
 salabim/salabim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ffa1295..747aba0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24099,7 +24099,14 @@ class Resource:
             "Available quantity of " + self.name(), level=True, initial_tally=capacity - initial_claimed_quantity, monitor=monitor, type="float", env=self.env
         )
 
-        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=0, monitor=monitor, type="float", env=self.env)
+        self.occupancy = _SystemMonitor(
+            "Occupancy of " + self.name(),
+            level=True,
+            initial_tally=0 if capacity <= 0 else initial_claimed_quantity / capacity,
+            monitor=monitor,
+            type="float",
+            env=self.env,
+        )
         if self.env._trace:
             self.env.print_trace("", "", self.name() + " create", "capacity=" + str(self._capacity) + (" anonymous" if self._anonymous else ""))
         self.setup(**kwargs)
-- 
2.43.0


From f7979e8b23e25fa3474fb02464ca717c18effa73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:38 +0000
Subject: [PATCH 037/115] fix: the blind video maker belongs to its own
 environment

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 747aba0..d8561d2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10650,7 +10650,7 @@ class Environment:
 
         if self._blind_animation:
             with self.suppress_trace():
-                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True)
+                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True, env=self)
 
         if Pythonista:
             self._width, self._height = ui.get_screen_size()
-- 
2.43.0


From cadd028a0b5bd99f42ab3951bc0dc3f10b10591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:49 +0000
Subject: [PATCH 038/115] fix: Queue.copy with copy_capacity also sets the
 available quantity and accepts an overfull queue

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d8561d2..7bee605 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5672,12 +5672,12 @@ class Queue:
             if name is None:
                 name = "copy of " + self.name()
             q1 = type(self)(name=name, monitor=monitor, env=self.env)
-            if copy_capacity:
-                q1.capacity._tally = self.capacity._tally
             mx = self._head.successor
             while mx != self._tail:
                 Qmember().insert_in_front_of(q1._tail, mx.component, q1, mx.priority)
                 mx = mx.successor
+            if copy_capacity:
+                q1.set_capacity(self.capacity._tally)
         return q1
 
     def move(self, name: str = None, monitor: bool = False, copy_capacity=False):
-- 
2.43.0


From e73aa4f3d287d218d31b95447778e355eb509e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:49 +0000
Subject: [PATCH 039/115] fix: Queue.register and deregister do not mix up
 queues with the same contents

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7bee605..14eed58 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4663,7 +4663,7 @@ class Queue:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is r for r in registry):  # not 'in', as queues compare on their contents
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -4683,9 +4683,9 @@ class Queue:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is r for r in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [r for r in registry if r is not self]
         return self
 
     def __repr__(self):
-- 
2.43.0


From 0cadc8116aa60615849a2c4086d533354404589d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 040/115] fix: stats_only level monitors are up to date for
 duration, minimum and maximum and can be printed

---
 salabim/salabim.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 14eed58..bd4d2ca 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1179,7 +1179,7 @@ class Monitor:
             self._maximum = [-inf] * 2
             if self._level:
                 self._ttally_monitored = self.env._now
-            self._weight = False
+            self._weight = self._level
 
         else:
             if self.xtypecode:
@@ -1766,6 +1766,8 @@ class Monitor:
         """
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._minimum[ex0]
             else:
@@ -1792,6 +1794,9 @@ class Monitor:
         """
 
         if self._stats_only:
+            ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._maximum[ex0]
             else:
@@ -2235,6 +2240,8 @@ class Monitor:
     def sys_weight(self, ex0: bool = False):
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             return self.sumw[ex0]
         else:
             _, weight = self._xweight(ex0=ex0)
@@ -2547,7 +2554,7 @@ class Monitor:
             graph_scale = 80
 
         if self._stats_only:
-            weight_total = self.sumw[bool(ex0)]
+            weight_total = self.sys_weight(ex0=ex0)
         else:
             x, weight = self._xweight(ex0=ex0, force_numeric=not values)
             weight_total = sum(weight)
@@ -2643,7 +2650,7 @@ class Monitor:
             else:
                 auto_scale = False
 
-            if auto_scale:
+            if auto_scale and not self._stats_only:
                 bin_width, lowerbound, number_of_bins = self.histogram_autoscale()
             result.append(self.print_statistics(show_header=False, show_legend=True, do_indent=False, as_str=True))
             if not self._stats_only and number_of_bins >= 0:
-- 
2.43.0


From 4d507e7cdf316b6a7a5bf619b91df5a270fe8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 041/115] fix: print_histogram with ex0 excludes the zeroes
 from the bins

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bd4d2ca..1048e24 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2055,8 +2055,8 @@ class Monitor:
             raise TypeError("bin_duration not available for non level monitors")
         return self.sys_bin_weight(lowerbound, upperbound)
 
-    def sys_bin_weight(self, lowerbound, upperbound):
-        x, weight = self._xweight()
+    def sys_bin_weight(self, lowerbound, upperbound, ex0=False):
+        x, weight = self._xweight(ex0=ex0)
         return sum((vweight for vx, vweight in zip(x, weight) if (vx > lowerbound) and (vx <= upperbound)))
 
     def value_number_of_entries(self, value: Any) -> int:
@@ -2651,7 +2651,7 @@ class Monitor:
                 auto_scale = False
 
             if auto_scale and not self._stats_only:
-                bin_width, lowerbound, number_of_bins = self.histogram_autoscale()
+                bin_width, lowerbound, number_of_bins = self.histogram_autoscale(ex0=ex0)
             result.append(self.print_statistics(show_header=False, show_legend=True, do_indent=False, as_str=True))
             if not self._stats_only and number_of_bins >= 0:
                 result.append("")
@@ -2671,9 +2671,9 @@ class Monitor:
                     else:
                         ub = lowerbound + (i + 1) * bin_width
                     if self._weight:
-                        count = self.sys_bin_weight(lb, ub)
+                        count = self.sys_bin_weight(lb, ub, ex0=ex0)
                     else:
-                        count = self.bin_number_of_entries(lb, ub)
+                        count = self.bin_number_of_entries(lb, ub, ex0=ex0)
 
                     perc = count / (weight_total if weight_total else 1)
                     if weight_total == inf:
-- 
2.43.0


From 3859dc55409ffaa3d067062284a50d58db4c9134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 042/115] fix: sliced, merged, mapped and multiplied monitors
 keep the start of their source, so that they can be sliced

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1048e24..6388169 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -618,6 +618,7 @@ class Monitor:
                     new._x.append(sum)
             new.start = new._t[0]
         else:
+            new.start = min(m.start for m in merge)
             for t, _, x, weight in heapq.merge(
                 *[
                     zip(
@@ -728,6 +729,7 @@ class Monitor:
                     new._x.append(result)
             new.start = new._t[0]
         else:
+            new.start = self.start
             new._x = []
             new._t = array.array("d")
 
@@ -826,6 +828,7 @@ class Monitor:
         if name is None:
             name = self.name() + ".sliced"
         new = _SystemMonitor(level=self._level, type=self.xtype, name=name, env=self.env)
+        new.start = self.start
         actions = []
         now = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
         if modulo is None:
@@ -1607,6 +1610,7 @@ class Monitor:
             if name is None:
                 name = self.name()
             new = _SystemMonitor(name=name, monitor=False, type="float", level=False, env=self.env)
+            new.start = self.start
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
-- 
2.43.0


From 1077cc7640c4750db8ee5d7ec114d48febdf79de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 043/115] fix: merging level monitors with an integer type does
 not overflow that type

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6388169..886866a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -573,6 +573,8 @@ class Monitor:
                 raise TypeError("not possible to mix environments")
             if m.xtype != new_xtype:
                 new_xtype = "any"  # to allow mixed xtypes
+        if self._level and new_xtype in ("bool", "int8", "uint8", "int16", "uint16", "int32", "uint32"):
+            new_xtype = "int64"  # as the sum might not fit in the original type
 
         if name is None:
             if self.name().endswith(".merged"):
@@ -587,7 +589,7 @@ class Monitor:
 
         if new._level:
             if new.xtypecode:
-                new._x = array.array(self.xtypecode)
+                new._x = array.array(new.xtypecode)
             else:
                 new._x = []
 
-- 
2.43.0


From 594d346ecbfe8d5bad9b296773e87722eb43e080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 044/115] fix: slicing a weighted monitor during animation does
 not raise an exception

---
 salabim/salabim.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 886866a..28e1b2c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -898,14 +898,6 @@ class Monitor:
             _t = self._t
             _weight = self._weight
 
-        if self.env._animate:
-            if self._x:
-                _x.append(_x[-1])
-                _t.append(self.env._t)
-            try:
-                _weight.append(self.weight[-1])
-            except AttributeError:
-                ...  # ignore if bool
         for t, type, x, weight in heapq.merge(actions, zip(self._t, itertools.repeat("c"), _x, _weight if (_weight and not self._level) else (1,) * len(_x))):
             if new._level:
                 if type == "a":
-- 
2.43.0


From ff661bc1951a32da19bbdcf21de2a869866d7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:21 +0000
Subject: [PATCH 045/115] fix: switching a monitor off invalidates its cached
 values

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 28e1b2c..5eefe68 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1336,6 +1336,7 @@ class Monitor:
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
+        self.cached_xweight.clear()  # invalidate cache
         t = self.env._now
         if self._t[-1] == t:
             self._x[-1] = self.off
-- 
2.43.0


From 6606cb27e0407b0fdb281c45cb4d95af4cdbe9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:41 +0000
Subject: [PATCH 046/115] fix: a tally with weight zero is also an entry for a
 stats_only monitor

---
 salabim/salabim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5eefe68..d3f0ee7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1275,7 +1275,7 @@ class Monitor:
             else:
                 value_num = value
 
-            if self._monitor and weight != 0:
+            if self._monitor and (weight != 0 or not self._level):
                 if not isinstance(value_num, numbers.Number):
                     try:
                         if int(value_num) == float(value_num):
@@ -1290,7 +1290,8 @@ class Monitor:
                     # algorithm based on https://fanf2.user.srcf.net/hermes/doc/antiforgery/stats.pdf
                     self.sumw[ex0] += weight
                     mun1 = self.mun[ex0]
-                    self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
+                    if weight != 0:
+                        self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
                     self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])
                     self._minimum[ex0] = min(self._minimum[ex0], value_num)
                     self._maximum[ex0] = max(self._maximum[ex0], value_num)
-- 
2.43.0


From 93eea61f91d82b3b08172c9f00f651021ef065d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:22 +0000
Subject: [PATCH 047/115] fix: a percentile that corresponds exactly to a data
 point is that data point

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d3f0ee7..8ccfce7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1962,6 +1962,9 @@ class Monitor:
                 if weight_cum[k + 1] > q:
                     break
 
+            if weight_cum[k] == q:  # exactly at a data point, so nothing to interpolate
+                return x_sorted[k]
+
             if interpolation == "linear":
                 return interpolate(q, weight_cum[k], weight_cum[k + 1], x_sorted[k], x_sorted[k + 1])
             if interpolation == "lower":
-- 
2.43.0


From e602745154659baba2bf972a690372b003a4beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:18 +0000
Subject: [PATCH 048/115] fix: PeriodMonitor includes what is tallied before
 its process is started

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8ccfce7..d2db4d0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24648,6 +24648,7 @@ class PeriodMonitor:
             self.perperiod = [Monitor(name=period_monitor_name, level=True, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
         else:
             self.perperiod = [Monitor(name=period_monitor_name, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
+            self.perperiod[self.iperiod].monitor(True)  # to include tallies at this moment, before the process is started
 
 
 class AudioClip:
-- 
2.43.0


From 9eef087f6bb12b61efddaa8e15c25804ec81aa1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:14 +0000
Subject: [PATCH 049/115] fix: as_resampled_dataframe recognizes the off value
 of extra monitors

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d2db4d0..303b18c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3345,7 +3345,7 @@ class Monitor:
                         x_next, t_next = next(xt_iter)
                     except StopIteration:
                         t_next = inf
-                new_x.append(pd.NA if x_last == self.off else x_last)
+                new_x.append(pd.NA if x_last == mon.off else x_last)
             df[f"{mon.name()}.x"] = new_x
         return df
 
-- 
2.43.0


From ebd0be9615dad6b136a6a14d2ee0d7104a4afa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:57 +0000
Subject: [PATCH 050/115] fix: slicing a level monitor that is switched off
 does not extend the value before that

---
 salabim/salabim.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 303b18c..8423f26 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -904,22 +904,16 @@ class Monitor:
                     enabled = True
                     if new._t[-1] == t:
                         new._x[-1] = curx
-                    else:
-                        if new._x[-1] == curx:
-                            new._t[-1] = t
-                        else:
-                            new._t.append(t)
-                            new._x.append(curx)
+                    elif new._x[-1] != curx:
+                        new._t.append(t)
+                        new._x.append(curx)
                 elif type in ("b", "z"):
                     enabled = False
                     if new._t[-1] == t:
                         new._x[-1] = self.off
-                    else:
-                        if new._x[-1] == self.off:
-                            new._t[-1] = t
-                        else:
-                            new._t.append(t)
-                            new._x.append(self.off)
+                    elif new._x[-1] != self.off:
+                        new._t.append(t)
+                        new._x.append(self.off)
                 else:
                     if enabled:
                         if curx != x:
-- 
2.43.0


From 88ab01234c51a594c9ce22022ee4cf91d073dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:21 +0000
Subject: [PATCH 051/115] fix: arange without numpy does not accumulate
 rounding errors

---
 salabim/salabim.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8423f26..8c77a18 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25092,13 +25092,7 @@ def arange(start: float, stop: float, step: float = 1) -> Iterable:
     if has_numpy():
         return numpy.arange(start, stop, step)
 
-    result = []
-    value = start
-    while True:
-        if (step > 0 and value >= stop) or (step < 0 and value <= stop):
-            return result
-        result.append(value)
-        value += step
+    return [start + i * step for i in range(max(0, math.ceil((stop - start) / step)))]
 
 
 def linspace(start: float, stop: float, num: int = 50, endpoint: bool = True) -> Iterable:
-- 
2.43.0


From d5abad5840a969195d064ac1f42083adfdc5c69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:33 +0000
Subject: [PATCH 052/115] fix: CumPdf accepts equal successive cumulative
 probabilities irrespective of rounding

---
 salabim/salabim.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8c77a18..773b7a4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23046,10 +23046,9 @@ class CumPdf(_Distribution):
                 except (ValueError, TypeError):
                     raise TypeError("time_unit can't be combined with non numeric value")
             self._x.append(x)
-            p = p - sump
+            sump, p = p, p - sump
             if p < 0:
                 raise ValueError("non increasing cumulative probabilities")
-            sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
                 x = x.mean()
-- 
2.43.0


From 846b85ebf47e2b146f16b61fda94e815a12f4359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:33 +0000
Subject: [PATCH 053/115] fix: Poisson is accurate for a mean just below 745

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 773b7a4..04cc08c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22016,6 +22016,8 @@ class Poisson(_Distribution):
         k = 0
 
         u = self.randomstream.random()
+        if t < sys.float_info.min:  # not accurate enough
+            return self.sample_fallback()
         last_s = inf
         while s < u:
             k += 1
-- 
2.43.0


From b85ebb26948cec09493f6b85cdbb1ef526d3aa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:33 +0000
Subject: [PATCH 054/115] fix: External takes positional arguments into account
 for the mean of a scipy distribution

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 04cc08c..f3bb034 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23289,7 +23289,7 @@ class External(_Distribution):
         self.register_time_unit(time_unit, env)
         self.samples = []
         if self.dis_is_scipy:
-            self._mean = self.dis.mean(**{k: v for k, v in self.kwargs.items() if k not in ("size", "random_state")})
+            self._mean = self.dis.mean(*self.args[: self.dis.numargs + 2], **{k: v for k, v in self.kwargs.items() if k not in ("size", "random_state")})
         else:
             self._mean = nan
 
-- 
2.43.0


From 812221b7a1e4a88adcf65f439413b4177207e3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:07 +0000
Subject: [PATCH 055/115] fix: ComponentGenerator that has nothing to generate
 before till is accepted in yield mode

---
 salabim/salabim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f3bb034..7a46708 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20615,7 +20615,7 @@ class ComponentGenerator(Component):
                             at += self.iat
                 if at > self.till:
                     at = self.till
-                    process = "do_finalize"
+                    process = "do_finalize" if env._yieldless else "do_finalize_yield"
                 else:
                     if self.disturbance:
                         process = "do_iat_disturbance_yieldless" if env._yieldless else "do_iat_disturbance"
@@ -20783,6 +20783,11 @@ class ComponentGenerator(Component):
         self.env.print_trace("", "", "till reached")
         self.at_end()
 
+    def do_finalize_yield(self):
+        self.do_finalize()
+        return
+        yield  # just to make this a generator
+
     def print_info(self, as_str: bool = False, file: TextIO = None) -> str:
         """
         prints information about the component generator
-- 
2.43.0


From 76e86bcb73f7f4a7ea369b337ca5622bb7ee0d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:36 +0000
Subject: [PATCH 056/115] fix: duration_to_str does not lose a second by
 rounding

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7a46708..0d1acce 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -14821,7 +14821,7 @@ class Environment:
         if self._datetime0:
             if duration == inf:
                 return "inf"
-            duration = self.to_seconds(duration)
+            duration = round(self.to_seconds(duration), 6)  # same resolution as datetime.timedelta
             days, rem = divmod(duration, 86400)
             hours, rem = divmod(rem, 3600)
             minutes, seconds = divmod(rem, 60)
-- 
2.43.0


From a89a708198caab2cd6494fc22ee1e71bc2642796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:31 +0000
Subject: [PATCH 057/115] fix: a yieldless environment can be run from a
 process of another environment

---
 salabim/salabim.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0d1acce..f48238d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13429,6 +13429,8 @@ class Environment:
             else:
                 raise ValueError("both duration and till specified")
         if self._yieldless:
+            saved_parent = self._glet.parent
+            self._glet.parent = greenlet.getcurrent()  # this might be a process of another environment
             self._main.status._value = scheduled
             self._main._reschedule(scheduled_time, priority, urgent, "run", cap_now, extra=extra)
             self.running = False
@@ -13446,6 +13448,8 @@ class Environment:
                 self.do_simulate_and_animate()
             else:
                 self.do_simulate()
+        if self._yieldless:
+            self._glet.parent = saved_parent
         if self.stopped:
             self.quit()
             if self._video:
-- 
2.43.0


From 555cec9e048d9f16dc5bbaed5b5b41a7f26688f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:24 +0000
Subject: [PATCH 058/115] fix: activate and hold with a time in the past are
 rejected before anything is changed

---
 salabim/salabim.py | 47 +++++++++++++++++++++++-----------------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f48238d..2e14013 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7548,7 +7548,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
+    def _capped_now(self, scheduled_time, cap_now):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7556,6 +7556,10 @@ by adding at the end:
                 scheduled_time = self.env._now
             else:
                 raise ValueError(f"scheduled time ({scheduled_time:0.3f}) before now ({self.env._now:0.3f})")
+        return scheduled_time
+
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
+        scheduled_time = self._capped_now(scheduled_time, cap_now)
         self._scheduled_time = scheduled_time
         if self.env._trace:
             if extra == "*":
@@ -7672,6 +7676,15 @@ by adding at the end:
         if both at and delay are specified, the component becomes current at the sum
         of the two values.
         """
+        delay = self.env.spec_to_duration(delay)
+
+        if at is None:
+            scheduled_time = self.env._now + delay
+        else:
+            at = self.env.spec_to_time(at)
+            scheduled_time = at + self.env._offset + delay
+        scheduled_time = self._capped_now(scheduled_time, cap_now)
+
         p = None
         if process is None:
             if self.status.value == data:
@@ -7738,14 +7751,6 @@ by adding:
 
         self.set_mode(mode)
 
-        delay = self.env.spec_to_duration(delay)
-
-        if at is None:
-            scheduled_time = self.env._now + delay
-        else:
-            at = self.env.spec_to_time(at)
-            scheduled_time = at + self.env._offset + delay
-
         self.status._value = scheduled
         self._reschedule(scheduled_time, priority, urgent, "activate", cap_now, extra=extra)
 
@@ -7829,14 +7834,6 @@ by adding:
         if both duration and till are specified, the component will become current at the sum of
         these two.
         """
-        if self.status.value != passive:
-            if self.status.value != current:
-                self._checkisnotdata()
-                self._remove()
-                self._check_fail()
-
-        self.set_mode(mode)
-
         if till is None:
             if duration is None:
                 scheduled_time = self.env._now
@@ -7849,13 +7846,15 @@ by adding:
                 scheduled_time = till + self.env._offset
             else:
                 raise ValueError("both duration and till specified")
-        if scheduled_time < self.env._now:
-            if cap_now is None:
-                cap_now = g._default_cap_now
-            if cap_now:
-                scheduled_time = self.env._now
-            else:
-                raise ValueError(f"scheduled time ({scheduled_time:0.3f}) before now ({self.env._now:0.3f})")
+        scheduled_time = self._capped_now(scheduled_time, cap_now)
+
+        if self.status.value != passive:
+            if self.status.value != current:
+                self._checkisnotdata()
+                self._remove()
+                self._check_fail()
+
+        self.set_mode(mode)
 
         if interrupted:
             self._remaining_duration = scheduled_time - self.env._now
-- 
2.43.0


From f2987251ebee3569219d16799fdb9928f96cc334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 059/115] fix: setting a negative remaining_duration is
 rejected before anything is changed

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2e14013..e62c6af 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10024,6 +10024,7 @@ by adding:
             elif self.status.value == standby:
                 raise ValueError("setting remaining_duration not allowed for standby component (" + self.name() + ")")
             else:
+                self._capped_now(value + self.env._now, False)
                 self._remove()
                 self._reschedule(value + self.env._now, priority, urgent, "set remaining_duration", False, extra="")
 
-- 
2.43.0


From 7a25c583e1861a60009799f3c9ff4b9939b54e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 060/115] fix: a run till a time in the past is rejected before
 anything is changed

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e62c6af..c0f881b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13428,6 +13428,7 @@ class Environment:
                 scheduled_time = till + self.env._offset
             else:
                 raise ValueError("both duration and till specified")
+        self._main._capped_now(scheduled_time, cap_now)
         if self._yieldless:
             saved_parent = self._glet.parent
             self._glet.parent = greenlet.getcurrent()  # this might be a process of another environment
-- 
2.43.0


From c17da5a89f65060481e63069c315e071bd9fb64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:25 +0000
Subject: [PATCH 061/115] fix: a rejected release of several resources does not
 release some of them

---
 salabim/salabim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c0f881b..cf2ff88 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8899,6 +8899,7 @@ by adding:
         --> releases 2 from r2,and 3 from r3
         """
         if args:
+            releases = []
             for arg in args:
                 q = None
                 if isinstance(arg, Resource):
@@ -8908,9 +8909,13 @@ by adding:
                     if len(arg) >= 2:
                         q = arg[1]
                 else:
-                    raise TypeError("incorrect specifier" + arg)
+                    raise TypeError("incorrect specifier", arg)
                 if r._anonymous:
                     raise ValueError("not possible to release anonymous resources " + r.name())
+                if r not in self._claims:
+                    raise ValueError(self.name() + " not claiming from resource " + r.name())
+                releases.append((r, q))
+            for r, q in releases:
                 self._release(r, q)
         else:
             for r in list(self._claims):
-- 
2.43.0


From 53f3bbb7d9099c5b9976a95dbcc9bd67cb674638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 062/115] fix: a from_store or to_store with both fail_at and
 fail_delay is rejected before anything is changed

---
 salabim/salabim.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cf2ff88..e997612 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8222,12 +8222,6 @@ by adding:
             if len(from_stores) == 0:
                 raise ValueError("no stores specified")
 
-        if self.status.value != current:
-            self._checkisnotdata()
-            self._checkisnotmain()
-            self._remove()
-            self._check_fail()
-
         if fail_at is None:
             if fail_delay is None:
                 scheduled_time = inf
@@ -8244,6 +8238,12 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
 
+        if self.status.value != current:
+            self._checkisnotdata()
+            self._checkisnotmain()
+            self._remove()
+            self._check_fail()
+
         self.set_mode(mode)
 
         self._failed = False
@@ -8395,12 +8395,6 @@ by adding:
             if len(to_stores) == 0:
                 raise ValueError("no stores specified")
 
-        if self.status.value != current:
-            self._checkisnotdata()
-            self._checkisnotmain()
-            self._remove()
-            self._check_fail()
-
         if fail_at is None:
             if fail_delay is None:
                 scheduled_time = inf
@@ -8417,6 +8411,12 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
 
+        if self.status.value != current:
+            self._checkisnotdata()
+            self._checkisnotmain()
+            self._remove()
+            self._check_fail()
+
         self.set_mode(mode)
 
         self._failed = False
-- 
2.43.0


From 0c3225fbd9029274b0ab9be605ba78e3365bd283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 063/115] fix: a rejected request leaves everything unchanged

---
 salabim/salabim.py | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e997612..ec9aa11 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8592,13 +8592,6 @@ by adding:
         --> requests 1 from r1, r2 or r3
 
         """
-        self.oneof_request = oneof
-
-        if self.status.value != current:
-            self._checkisnotdata()
-            self._checkisnotmain()
-            self._remove()
-            self._check_fail()
         if fail_at is None:
             if fail_delay is None:
                 scheduled_time = inf
@@ -8615,15 +8608,8 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
         schedule_priority = priority
-        self.set_mode(mode)
 
-        self._failed = False
-
-        if not args:
-            honoredstr = "-"
-            self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
-            return
+        requests = []
         for arg in args:
             q = 1
             priority = request_priority
@@ -8647,6 +8633,24 @@ by adding:
 
             if q < 0 and not r._anonymous:
                 raise ValueError("quantity " + str(q) + " <0")
+            requests.append((r, q, priority))
+
+        if self.status.value != current:
+            self._checkisnotdata()
+            self._checkisnotmain()
+            self._remove()
+            self._check_fail()
+        self.oneof_request = oneof
+        self.set_mode(mode)
+
+        self._failed = False
+
+        if not args:
+            honoredstr = "-"
+            self.status._value = scheduled
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
+            return
+        for r, q, priority in requests:
             if r in self._requests:
                 self._requests[r] += q  # is same resource is specified several times, just add them up
             else:
-- 
2.43.0


From 78c5862b131cc5f83a592c0973694e546d06b71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 064/115] fix: the quantities of a resource that is specified
 more than once in a request are summed

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ec9aa11..7be441e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8668,7 +8668,8 @@ by adding:
             if self.oneof_request:
                 addstring += " (oneof)"
 
-            self.enter(r._requesters, priority)
+            if self not in r._requesters:  # the same resource might be specified several times
+                self.enter(r._requesters, priority)
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), req_text + r.name() + addstring)
 
-- 
2.43.0


From 2268660e704fac567c6262f906fc41957c3d17ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 065/115] fix: a rejected wait leaves everything unchanged

---
 salabim/salabim.py | 55 ++++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 26 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7be441e..f299a9d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9004,14 +9004,6 @@ by adding:
         use ``yield self.wait(...)``.
 
         """
-        if self.status.value != current:
-            self._checkisnotdata()
-            self._checkisnotmain()
-            self._remove()
-            self._check_fail()
-
-        self._failed = False
-
         if fail_at is None:
             if fail_delay is None:
                 scheduled_time = inf
@@ -9028,6 +9020,18 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
 
+        states = list(states)
+        if not states:
+            raise TypeError("no states specified")
+
+        if self.status.value != current:
+            self._checkisnotdata()
+            self._checkisnotmain()
+            self._remove()
+            self._check_fail()
+
+        self._failed = False
+
         self.set_mode(mode)
         schedule_priority = priority
 
@@ -9039,9 +9043,6 @@ by adding:
             else:
                 self.enter_sorted(state._waiters, priority)
 
-        if not self._waits:
-            raise TypeError("no states specified")
-
         self._remaining_duration = scheduled_time - self.env._now
 
         self._trywait()
@@ -9206,17 +9207,6 @@ by adding:
         --> waits for s1.value()==True and s2.value==True
 
         """
-        self._cond = None
-
-        if self.status.value != current:
-            self._checkisnotdata()
-            self._checkisnotmain()
-            self._remove()
-            self._check_fail()
-
-        self._wait_all = all
-        self._failed = False
-
         if fail_at is None:
             if fail_delay is None:
                 scheduled_time = inf
@@ -9233,8 +9223,8 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
         schedule_priority = priority
-        self.set_mode(mode)
 
+        waits = []
         for arg in args:
             value = True
             priority = request_priority
@@ -9252,7 +9242,23 @@ by adding:
                     raise TypeError("incorrect specifier", arg)
             else:
                 raise TypeError("incorrect specifier", arg)
+            waits.append((state, value, priority))
+
+        if not waits:
+            raise TypeError("no states specified")
 
+        if self.status.value != current:
+            self._checkisnotdata()
+            self._checkisnotmain()
+            self._remove()
+            self._check_fail()
+
+        self._cond = None
+        self._wait_all = all
+        self._failed = False
+        self.set_mode(mode)
+
+        for state, value, priority in waits:
             for statex, _, _ in self._waits:
                 if statex == state:
                     break
@@ -9268,9 +9274,6 @@ by adding:
             else:
                 self._waits.append((state, value, 0))
 
-        if not self._waits:
-            raise TypeError("no states specified")
-
         self._remaining_duration = scheduled_time - self.env._now
 
         self._trywait()
-- 
2.43.0


From 24651c19eb1b5c9f38eb0e6525b47ef0ca52a6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:44 +0000
Subject: [PATCH 066/115] fix: mode, state and capacity monitors can be frozen

---
 salabim/salabim.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f299a9d..9829071 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -780,8 +780,15 @@ class Monitor:
         self._block_stats_only()
         self_env = self.env
         self.env = Environment(to_freeze=True, name=self.env.name() + ".copy.", time_unit=self.env.get_time_unit())
-        m = copy.deepcopy(self)
-        self.env = self_env
+        parent = self.__dict__.pop("parent", None)
+        try:
+            m = copy.deepcopy(self)
+        finally:
+            self.env = self_env
+            if parent is not None:
+                self.parent = parent
+        if parent is not None:
+            m.__class__ = Monitor  # a frozen monitor does not follow the parent
         m.isgenerated = True
         m._name = self.name() + ".frozen" if name is None else name
         m.env._animate = False
-- 
2.43.0


From 399bc571cac8a78c68cc8ecfdc21427393c17783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:38:44 +0000
Subject: [PATCH 067/115] fix: random_seed accepts any seed that is accepted by
 random.seed, also if numpy is installed

---
 salabim/salabim.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9829071..0bb30ce 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25533,7 +25533,10 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = None
         randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
-            numpy.random.seed(seed)
+            try:
+                numpy.random.seed(seed)
+            except (TypeError, ValueError):  # numpy accepts only 32 bits unsigned integers
+                numpy.random.seed(random.Random(seed).getrandbits(32))
 
 
 _random_seed = random_seed  # used by Environment.__init__
-- 
2.43.0


From 92e2c0b97e89cee96b86456e18b017850a597e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:10 +0000
Subject: [PATCH 068/115] fix: standby components are not resumed by the frames
 of a blind video

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0bb30ce..8b531e7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10674,7 +10674,7 @@ class Environment:
 
         if self._blind_animation:
             with self.suppress_trace():
-                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True, env=self)
+                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True, skip_standby=True, env=self)
 
         if Pythonista:
             self._width, self._height = ui.get_screen_size()
-- 
2.43.0


From 4cea651111f482d411c9afdfcc5d0ebd413d5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:19 +0000
Subject: [PATCH 069/115] fix: t0 of a trajectory is respected also if there is
 no environment

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8b531e7..f14395d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6248,7 +6248,7 @@ class TrajectoryStandstill(_Trajectory):
 
     def __init__(self, xy: Iterable, duration: float, orientation: Union[Callable, float] = 0, t0: float = None, env: "Environment" = None):
         env = g.default_env if env is None else env
-        self._t0 = 0 if env is None else (env.now() if t0 is None else t0)
+        self._t0 = (0 if env is None else env.now()) if t0 is None else t0
 
         self._x, self._y = xy
         self._duration = duration
@@ -6560,7 +6560,7 @@ class TrajectoryPolygon(_Trajectory):
                 raise ValueError(f"spline {spline} not recognized")
 
         env = g.default_env if env is None else env
-        self._t0 = 0 if env is None else (env.now() if t0 is None else t0)
+        self._t0 = (0 if env is None else env.now()) if t0 is None else t0
 
         cum_length = 0.0
         self.cum_length = []
@@ -6832,7 +6832,7 @@ class TrajectoryCircle(_Trajectory):
         env: "Environment" = None,
     ):
         env = g.default_env if env is None else env
-        self._t0 = 0 if env is None else (env.now() if t0 is None else t0)
+        self._t0 = (0 if env is None else env.now()) if t0 is None else t0
 
         self.radius = radius
         self.angle0 = angle0
-- 
2.43.0


From 01480a1a2b93e7e8e128204167d801410bcb4a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:45 +0000
Subject: [PATCH 070/115] fix: store actions that are honored because of
 another honored store action are traced

---
 salabim/salabim.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f14395d..eff12b3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5802,8 +5802,7 @@ class Store(Queue):
                 if c._from_store_filter(item):
                     for store in c._from_stores:
                         c.leave(store._from_store_requesters)
-                    with self.env.suppress_trace():
-                        self.remove(item)
+                    self.remove(item)
                     c._from_stores = []
                     c._from_store_item = item
                     c._from_store_store = self
@@ -5820,8 +5819,7 @@ class Store(Queue):
             if self.available_quantity() > 0:
                 for store in c._to_stores:
                     c.leave(store._to_store_requesters)
-                with self.env.suppress_trace():
-                    c._to_store_item.enter_sorted(self, c._to_store_priority)
+                c._to_store_item.enter_sorted(self, c._to_store_priority)
                 c._to_stores = []
                 c._remove()
                 c.status._value = scheduled
@@ -9846,8 +9844,8 @@ by adding:
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
-                    with self.env.suppress_trace():  # only now, as this may honor a from_store request, that should not see this requester again
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
+                    # only now, as this may honor a from_store request, that should not see this requester again
+                    requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-- 
2.43.0


From fba50331c98e7d2fe0f30095b6c1c1fa591a5e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:28 +0000
Subject: [PATCH 071/115] fix: to_store on a store with a fractional capacity
 waits until there is room for a complete item

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index eff12b3..4b70e27 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5816,7 +5816,7 @@ class Store(Queue):
         Rescan for any components to be allowed to.
         """
         for c in self._to_store_requesters:
-            if self.available_quantity() > 0:
+            if self.available_quantity() >= 1:
                 for store in c._to_stores:
                     c.leave(store._to_store_requesters)
                 c._to_store_item.enter_sorted(self, c._to_store_priority)
@@ -8430,7 +8430,7 @@ by adding:
             self.env.print_trace("", "", self.name(), f"{item._name} to_store ({', '.join(store._name for store in to_stores)})")
         for store in to_stores:
             q = store
-            if q.available_quantity() > 0:
+            if q.available_quantity() >= 1:
                 item.enter_sorted(q, priority)
                 self._to_store_item = None
                 self._to_store_store = store
@@ -9838,7 +9838,7 @@ by adding:
         if isinstance(q, Store):
             store = q
             available_quantity = q.capacity._tally - q._length
-            if available_quantity > 0:
+            if available_quantity >= 1:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
                     for store0 in requester._to_stores:
-- 
2.43.0


From 035fb96c884544e77de02b11a5cff5318d76c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:46 +0000
Subject: [PATCH 072/115] fix: activate with keep_request/keep_wait keeps the
 status requesting/waiting and affects only requests/waits, as documented

---
 salabim/salabim.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4b70e27..22dd22e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7746,17 +7746,16 @@ by adding:
             if self.env._yieldless:
                 self._glet = greenlet.greenlet(lambda: self._process(**kwargs), parent=self.env._glet)
 
+        keep = p is None and ((keep_request and self.status.value == requesting) or (keep_wait and self.status.value == waiting))
         if self.status.value != current:
             self._remove()
-            if p is None:
-                if not (keep_request or keep_wait):
-                    self._check_fail()
-            else:
+            if not keep:
                 self._check_fail()
 
         self.set_mode(mode)
 
-        self.status._value = scheduled
+        if not keep:
+            self.status._value = scheduled
         self._reschedule(scheduled_time, priority, urgent, "activate", cap_now, extra=extra)
 
     def hold(
-- 
2.43.0


From 663750d5ade836a298769b077a287ae51fba36c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:10 +0000
Subject: [PATCH 073/115] fix: wait_for puts the component in the waiters
 queues according to request_priority, as documented

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 22dd22e..161767c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9042,10 +9042,10 @@ by adding:
         self._cond = cond  # add test ***
         for state in states:
             self._waits.append((state, None, None))
-            if priority is None:
+            if request_priority is None:
                 self.enter(state._waiters)
             else:
-                self.enter_sorted(state._waiters, priority)
+                self.enter_sorted(state._waiters, request_priority)
 
         self._remaining_duration = scheduled_time - self.env._now
 
-- 
2.43.0


From 132b262522f0f90573296fc0e36c4d0f2b6d807a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:10 +0000
Subject: [PATCH 074/115] fix: wait_for with a state specified more than once
 waits, like wait, instead of raising halfway

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 161767c..2aecd63 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9024,7 +9024,7 @@ by adding:
             else:
                 raise ValueError("both fail_at and fail_delay specified")
 
-        states = list(states)
+        states = list(dict.fromkeys(states))  # the same state might be specified several times
         if not states:
             raise TypeError("no states specified")
 
-- 
2.43.0


From a462e95096bfe3f19c11dd87f26c3c125f0dc394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 075/115] fix: renaming a queue or resource updates all derived
 names, and correctly

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2aecd63..5d4cca6 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4834,7 +4834,9 @@ class Queue:
         if value is not None:
             self._name = value
             self.length.name("Length of " + self.name())
-            self.length_of_stay.name("Length of stay of " + self.name())
+            self.length_of_stay.name("Length of stay in " + self.name())
+            self.capacity.name("Capacity of " + self.name())
+            self.available_quantity.name("Available quantity of " + self.name())
         return self._name
 
     def rename(self, value: str = None) -> "Queue":
@@ -24537,7 +24539,7 @@ class Resource:
             self._requesters.name("requesters of " + value)
             self._claimers.name("claimers of " + value)
             self.capacity.name("Capacity of " + value)
-            self.claimed_quantity.name("Clamed quantity of " + value)
+            self.claimed_quantity.name("Claimed quantity of " + value)
             self.available_quantity.name("Available quantity of " + value)
             self.occupancy.name("Occupancy of " + value)
 
-- 
2.43.0


From d4cca0b5fffdc082824194020b92ccb419a34f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 076/115] fix: Queue.append honours the priority parameter, as
 documented (and like add)

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5d4cca6..a555f51 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4935,7 +4935,7 @@ class Queue:
 
         This method is equivalent to add()
         """
-        component.enter(self)
+        component.enter(self, priority)
         return self
 
     def add_at_head(self, component: "Component") -> "Queue":
-- 
2.43.0


From 2883c9163557f376d70c28c9fca9b3cf31829b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 077/115] fix: turning on a level monitor does not change the
 time of the last tally

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a555f51..3d34fea 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1232,7 +1232,7 @@ class Monitor:
                 self._monitor = value
                 if self._level:
                     if self._monitor:
-                        self.tally(self._tally)
+                        self._tally_add_now()  # not tally(), as this is not a new value
                     else:
                         self._tally_off()  # can't use tally() here because self._tally should be untouched
         return self._monitor
@@ -1330,7 +1330,7 @@ class Monitor:
                     self._t.append(self.env._now)
 
     def _tally_add_now(self):
-        # used by stats_only level monitors
+        # tallies the current value again, without changing the time of the last tally
         save_ttally = self._ttally
         self.tally(self._tally)
         self._ttally = save_ttally
-- 
2.43.0


From 04fd77807acdaf244f5b48f7e5c9177fbbac4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 078/115] fix: requesters queues of a store without an explicit
 name get the name of the store

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3d34fea..d24740b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5748,9 +5748,9 @@ class Store(Queue):
         super().__init__(name=name, monitor=monitor, fill=None, capacity=capacity, env=env, *args, **kwargs)
 
         with self.env.suppress_trace():
-            self._to_store_requesters = Queue(f"{name}.to_store_requesters", env=env)
+            self._to_store_requesters = Queue(f"{self.name()}.to_store_requesters", env=env)
             self._to_store_requesters._isinternal = True
-            self._from_store_requesters = Queue(f"{name}.from_store_requesters", env=env)
+            self._from_store_requesters = Queue(f"{self.name()}.from_store_requesters", env=env)
             self._from_store_requesters._isinternal = True
 
             if fill is not None:  # this cannot be done by Queue.__init__ as the requesters are not defined at that time
-- 
2.43.0


From 5812f3b14f8da5152d6147e8aa0ebb006ebddf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:26 +0000
Subject: [PATCH 079/115] fix: print_info of a component in wait_for shows it
 is waiting for a condition, instead of raising

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d24740b..caa0ba8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7478,7 +7478,9 @@ by adding at the end:
             for r in sorted(list(self._claims), key=lambda obj: obj.name().lower()):
                 result.append("    " + pad(r.name(), 20) + " quantity=" + str(self._claims[r]))
         if len(self._waits) > 0:
-            if self._wait_all:
+            if self._cond:
+                result.append("  waiting for a condition on state(s):")
+            elif self._wait_all:
                 result.append("  waiting for all of state(s):")
             else:
                 result.append("  waiting for any of state(s):")
-- 
2.43.0


From 9f79719f74e5a6424544f42f3dc8516ed40c6c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:00 +0000
Subject: [PATCH 080/115] fix: register and deregister of components, states,
 resources and monitors use identity, so registries may contain queues and
 monitors

---
 salabim/salabim.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index caa0ba8..1735110 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -982,7 +982,7 @@ class Monitor:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is r for r in registry):  # not 'in', as queues and monitors redefine comparison
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -1002,9 +1002,9 @@ class Monitor:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is r for r in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [r for r in registry if r is not self]
         return self
 
     def __repr__(self):
@@ -7401,7 +7401,7 @@ by adding at the end:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is r for r in registry):  # not 'in', as queues and monitors redefine comparison
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -7421,9 +7421,9 @@ by adding at the end:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is r for r in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [r for r in registry if r is not self]
         return self
 
     def print_info(self, as_str: "bool" = False, file: TextIO = None) -> str:
@@ -23669,7 +23669,7 @@ class State:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is r for r in registry):  # not 'in', as queues and monitors redefine comparison
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -23689,9 +23689,9 @@ class State:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is r for r in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [r for r in registry if r is not self]
         return self
 
     def __repr__(self):
@@ -24334,7 +24334,7 @@ class Resource:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self in registry:
+        if any(self is r for r in registry):  # not 'in', as queues and monitors redefine comparison
             raise ValueError(self.name() + " already in registry")
         registry.append(self)
         return self
@@ -24354,9 +24354,9 @@ class Resource:
         """
         if not isinstance(registry, list):
             raise TypeError("registry not list")
-        if self not in registry:
+        if not any(self is r for r in registry):
             raise ValueError(self.name() + " not in registry")
-        registry.remove(self)
+        registry[:] = [r for r in registry if r is not self]
         return self
 
     def __repr__(self):
-- 
2.43.0


From 19c61d30ca5c417bd5dbe4bd5ff285013ddf331f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:01 +0000
Subject: [PATCH 081/115] fix: print_histograms with exclude compares by
 identity instead of raising or excluding queues with the same contents

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1735110..1ae41f4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4798,7 +4798,7 @@ class Queue:
         """
         result = []
         for m in (self.length, self.length_of_stay):
-            if m not in exclude:
+            if not any(m is e for e in exclude):
                 result.append(m.print_histogram(as_str=True, graph_scale=graph_scale))
         return return_or_print(result, as_str, file)
 
@@ -23725,9 +23725,9 @@ class State:
         histograms (if as_str is True) : str
         """
         result = []
-        if self.waiters() not in exclude:
+        if not any(self.waiters() is e for e in exclude):  # not 'in', as queues and monitors redefine comparison
             result.append(self.waiters().print_histograms(exclude=exclude, as_str=True, graph_scale=graph_scale))
-        if self.value not in exclude:
+        if not any(self.value is e for e in exclude):
             result.append(self.value.print_histogram(as_str=True, graph_scale=graph_scale))
         return return_or_print(result, as_str, file)
 
@@ -24285,10 +24285,10 @@ class Resource:
         """
         result = []
         for q in (self.requesters(), self.claimers()):
-            if q not in exclude:
+            if not any(q is e for e in exclude):  # not 'in', as queues and monitors redefine comparison
                 result.append(q.print_histograms(exclude=exclude, as_str=True, graph_scale=graph_scale))
         for m in (self.capacity, self.available_quantity, self.claimed_quantity, self.occupancy):
-            if m not in exclude:
+            if not any(m is e for e in exclude):
                 result.append(m.print_histogram(as_str=True, graph_scale=graph_scale))
         return return_or_print(result, as_str, file)
 
-- 
2.43.0


From dcd3fbd32542550db355c67ce74c46efee54dc33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:01 +0000
Subject: [PATCH 082/115] fix: histogram autoscale ignores infinite values
 instead of raising OverflowError

---
 salabim/salabim.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1ae41f4..ccdd284 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2371,6 +2371,11 @@ class Monitor:
 
         xmax = self.maximum(ex0=ex0)
         xmin = self.minimum(ex0=ex0)
+        if math.isinf(xmax) or math.isinf(xmin):
+            finite = [x for x in self._xweight(ex0=ex0)[0] if not math.isinf(x)]
+            if not finite:
+                return 1, 0, 0
+            xmax, xmin = max(finite), min(finite)
 
         done = False
         for i in range(10):
-- 
2.43.0


From 7c7b58dffb2f1849a7d5fc6c577ee8f3a1e91714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:01 +0000
Subject: [PATCH 083/115] fix: print_histogram with given values of a weighted
 monitor without entries does not divide by zero

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ccdd284..20a0deb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2640,7 +2640,7 @@ class Monitor:
                             + fn(count, 14, 3)
                             + fn(perc * 100, 6, 1)
                             + rpad(str(count_entries), 8)
-                            + fn(count_entries * 100 / nentries, 6, 1)
+                            + fn(count_entries * 100 / (nentries if nentries else 1), 6, 1)
                         )
                     else:
                         result.append(pad(str(value_label), 20) + rpad(str(count), 7) + fn(perc * 100, 6, 1) + " " + s)
-- 
2.43.0


From c775654ce5de9ebc339b0a24967333ec224cf46a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:01 +0000
Subject: [PATCH 084/115] fix: sorting values on weight or duration handles
 values that are tuples or lists themselves

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 20a0deb..acd70a2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2742,9 +2742,9 @@ class Monitor:
 
         def key(x):
             if sort_on_weight:
-                weight = -self.value_weight(x)
+                weight = -self.value_weight([x])
             elif sort_on_duration:
-                weight = -self.value_duration(x)
+                weight = -self.value_duration([x])
             else:
                 weight = 1
 
-- 
2.43.0


From f695a5e735c668486ff3c1fee19775dd4573c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:01 +0000
Subject: [PATCH 085/115] fix: a TypeError raised by a process that comes out
 of standby is not masked in yield mode

---
 salabim/salabim.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index acd70a2..1a9d84f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11238,16 +11238,17 @@ class Environment:
                                 self._terminate(c)
                             return
                         else:
-                            try:
-                                next(c._process)
-                                return
-                            except TypeError:
+                            if c._process_isgenerator:
+                                try:
+                                    next(c._process)
+                                    return
+                                except StopIteration:
+                                    self._terminate(c)
+                                    return
+                            else:
                                 c._process(**c._process_kwargs)
                                 self._terminate(c)
                                 return
-                            except StopIteration:
-                                self._terminate(c)
-                                return
 
             if len(self.env._standbylist) > 0:
                 self._pendingstandbylist.extend(self.env._standbylist)  # there might be pending ones left, because of skip_standby
-- 
2.43.0


From 32415908ff48c0f2b2cef078e2b79cc0a037628a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:01 +0000
Subject: [PATCH 086/115] fix: run after a run that was ended by an exception
 is not ended by the previous run's event

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1a9d84f..7f10570 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13456,6 +13456,7 @@ class Environment:
             else:
                 raise ValueError("both duration and till specified")
         self._main._capped_now(scheduled_time, cap_now)
+        self._main._remove()  # main is still scheduled if the previous run was ended by an exception
         if self._yieldless:
             saved_parent = self._glet.parent
             self._glet.parent = greenlet.getcurrent()  # this might be a process of another environment
-- 
2.43.0


From 4c5a03d1f64c38c88c73edfa169f1ba01e22fcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 087/115] fix: a snapshot updates queues and monitor plots, and
 x/y anchors are available without the animation loop

---
 salabim/salabim.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7f10570..e5bec45 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10834,6 +10834,15 @@ class Environment:
         self._scale = self._scale_org
         self._last_scalez = self._scalez
 
+    def _prepare_frame(self):
+        # prepares for a frame that is not made in the animation loop
+        self._t = self._now
+        self._x0_org = self._x0
+        self._x1_org = self._x1
+        self._y0_org = self._y0
+        self._y1_org = self._y1
+        self.animation_pre_tick_sys(self.t())  # required to update sys objects, like AnimateQueue
+
     def animation_pre_tick_sys(self, t: float) -> None:
         for ao in self.sys_objects.copy():  # copy required as ao's may be removed due to keep
             ao.update(t)
@@ -13699,7 +13708,7 @@ class Environment:
         else:
             raise ValueError("extension " + extension + "  not supported")
         filename_path.parent.mkdir(parents=True, exist_ok=True)
-        self._t = self._now
+        self._prepare_frame()
         self._capture_image(mode, video_mode).save(str(filename))
         self._t = self.t()
 
@@ -20858,8 +20867,7 @@ class ComponentGenerator(Component):
 
 class _BlindVideoMaker(Component):
     def handle(self):
-        self.env._t = self.env._now
-        self.env.animation_pre_tick_sys(self.env.t())  # required to update sys objects, like AnimateQueue
+        self.env._prepare_frame()
         if self.env._animate3d:
             if not self.env._gl_initialized:
                 self.env.animation3d_init()
-- 
2.43.0


From 99d8f7b8b207a033f233d77c9036086d405f6a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 088/115] fix: frames of snapshots and blind videos are made
 for the time after reset_now

---
 salabim/salabim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index e5bec45..5904c61 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -12143,10 +12143,11 @@ class Environment:
         elif video_mode == "screen":
             image = ImageGrab.grab()
         else:
-            an_objects = sorted(self.an_objects, key=lambda obj: (-obj.layer(self._t), obj.sequence))
+            t = self._t - self._offset
+            an_objects = sorted(self.an_objects, key=lambda obj: (-obj.layer(t), obj.sequence))
             image = Image.new("RGBA", (self._width, self._height), self.colorspec_to_tuple("bg"))
             for ao in an_objects:
-                ao.make_pil_image(self._t)
+                ao.make_pil_image(t)
                 if ao._image_visible and (include_topleft or not ao.getattr("in_topleft", False)):
                     image.paste(ao._image, (int(ao._image_x), int(self._height - ao._image_y - ao._image.size[1])), ao._image.convert("RGBA"))
         return image.convert(mode)
-- 
2.43.0


From 11c2edf8a57d9d7bb62554c0121ccfa6d01d33cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 089/115] fix: animation objects in model coordinates are
 rendered again when the scale of the view changes

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5904c61..f0db262 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15613,6 +15613,9 @@ class Animate2dBase(DynamicClass):
                             self.screen_coordinates,
                         )
 
+                    if not self.screen_coordinates:
+                        self._image_ident += (self.env._scale,)
+
                     if self._image_ident != self._image_ident_prev:
                         if self.type == "rectangle":
                             px = [rectangle[0], rectangle[2]]
-- 
2.43.0


From 06f55638d4cb2dd7690b766b46e4d2b7b8821717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 090/115] fix: the offset of an animated image is not scaled
 twice

---
 salabim/salabim.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f0db262..3b1936f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15824,8 +15824,6 @@ class Animate2dBase(DynamicClass):
                     else:
                         qx = (x - self.env._x0) * self.env._scale
                         qy = (y - self.env._y0) * self.env._scale
-                        offsetx = offsetx * self.env._scale
-                        offsety = offsety * self.env._scale
 
                     alpha = int(self.alpha(t))
                     image, id = image_container.get_image(
-- 
2.43.0


From 33621904167e0566f16115cde50ee2132fbead98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 091/115] fix: the radius of a rounded rectangle is not scaled
 twice

---
 salabim/salabim.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3b1936f..c72dc79 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15628,9 +15628,6 @@ class Animate2dBase(DynamicClass):
                             if r == 0:
                                 p = [px[0], py[0], px[1], py[0], px[1], py[1], px[0], py[1], px[0], py[0]]
                             else:
-                                if not self.screen_coordinates:
-                                    r *= self.env._scale
-
                                 r = min(r, abs(px[0] - px[1]) / 2, abs(py[0] - py[1]) / 2)  # make sure the arc fits
 
                                 if self.screen_coordinates:
-- 
2.43.0


From f9be8b7962bcbc41ad9ace37d0741bcecede208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 092/115] fix: is_removed of an animation object that is shown
 over3d

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c72dc79..5524921 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15517,7 +15517,7 @@ class Animate2dBase(DynamicClass):
 
     def is_removed(self):
         if self.over3d:
-            return self not in self.env.an_over3d_objects
+            return self not in self.env.an_objects_over3d
         else:
             return self not in self.env.an_objects
 
-- 
2.43.0


From a9e820219f269548b81147431d054afc0df25c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 093/115] fix: AnimateQueue with a null xy_anchor uses the
 coordinates untranslated

---
 salabim/salabim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5524921..fd1221a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -18408,8 +18408,9 @@ class AnimateQueue(DynamicClass):
         titleoffsetx = self.titleoffsetx(t)
         titleoffsety = self.titleoffsety(t)
 
-        x += self._queue.env.xy_anchor_to_x(xy_anchor, screen_coordinates=screen_coordinates, over3d=self.over3d)
-        y += self._queue.env.xy_anchor_to_y(xy_anchor, screen_coordinates=screen_coordinates, over3d=self.over3d)
+        if xy_anchor:
+            x += self._queue.env.xy_anchor_to_x(xy_anchor, screen_coordinates=screen_coordinates, over3d=self.over3d)
+            y += self._queue.env.xy_anchor_to_y(xy_anchor, screen_coordinates=screen_coordinates, over3d=self.over3d)
 
         if direction == "e":
             self.x_t = x + (-25 if titleoffsetx is None else titleoffsetx)
-- 
2.43.0


From 9f6d81902e1b5232950eebe4987df020718ac3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 094/115] fix: AnimateMonitor.is_removed was reversed

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fd1221a..1546082 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4079,7 +4079,7 @@ class AnimateMonitor(DynamicClass):
         self.env.sys_objects.discard(self)
 
     def is_removed(self) -> bool:
-        return self in self.env.sys_objects
+        return self not in self.env.sys_objects
 
 
 if Pythonista:
-- 
2.43.0


From 1a403da5a9d57fb4b8a5c1e4f5bccb779fac812c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 095/115] fix: AnimateMonitor scrolls correctly after reset_now

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1546082..d3ea129 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3978,7 +3978,7 @@ class AnimateMonitor(DynamicClass):
         self.linewidth_t = self.linewidth(t)
         self.t_start = self._monitor.start
         self.width_div_horizontal_scale_t = self.width_t / self.horizontal_scale_t
-        self.displacement_t = self.width_div_horizontal_scale_t - (t - self.t_start)
+        self.displacement_t = self.width_div_horizontal_scale_t - (t + self._monitor.env._offset - self.t_start)
 
         labels = []
         label_ys = []
-- 
2.43.0


From 60778b81213028bc9c113389917f037e2d2fdf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 096/115] fix: AnimateMonitor accepts functions for offsetx,
 offsety and xy_anchor

---
 salabim/salabim.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d3ea129..17ddebf 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3768,9 +3768,6 @@ class AnimateMonitor(DynamicClass):
         if over3d is None:
             over3d = default_over3d()
 
-        offsetx += monitor.env.xy_anchor_to_x(xy_anchor, screen_coordinates=True, over3d=over3d)
-        offsety += monitor.env.xy_anchor_to_y(xy_anchor, screen_coordinates=True, over3d=over3d)
-
         self.linecolor = linecolor
         self.linewidth = linewidth
         self.fillcolor = fillcolor
@@ -3967,8 +3964,9 @@ class AnimateMonitor(DynamicClass):
         self.height_t = self.height(t)
         self.x_t = self.x(t)
         self.y_t = self.y(t)
-        self.offsetx_t = self.offsetx(t)
-        self.offsety_t = self.offsety(t)
+        xy_anchor = self.xy_anchor(t)
+        self.offsetx_t = self.offsetx(t) + self.env.xy_anchor_to_x(xy_anchor, screen_coordinates=True, over3d=self.over3d)
+        self.offsety_t = self.offsety(t) + self.env.xy_anchor_to_y(xy_anchor, screen_coordinates=True, over3d=self.over3d)
         self.angle_t = self.angle(t)
         self.layer_t = self.layer(t)
         self.visible_t = self.visible(t)
-- 
2.43.0


From 037b623a8d886f52096c933c3b37d2c28805158c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:33 +0000
Subject: [PATCH 097/115] fix: the parts of AnimateMonitor, AnimateQueue and
 animated components belong to their own environment

---
 salabim/salabim.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 17ddebf..96f4d4b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3835,6 +3835,7 @@ class AnimateMonitor(DynamicClass):
             layer=lambda: self.layer_t + 0.2,  # to make it appear behind label lines and plot line/points
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.ao_frame_line = AnimateRectangle(
             spec=lambda: (0, 0, self.width_t, self.height_t),
@@ -3850,6 +3851,7 @@ class AnimateMonitor(DynamicClass):
             layer=lambda: self.layer_t,
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.ao_text = AnimateText(
             text=lambda t: self.title(t),
@@ -3866,6 +3868,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_line = AnimateLine(
@@ -3882,6 +3885,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_now_line = AnimateLine(
@@ -3896,6 +3900,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_label_texts = []
@@ -4005,8 +4010,8 @@ class AnimateMonitor(DynamicClass):
                 ao_label_line.remove()
             else:
                 if ao_label_text is None:
-                    ao_label_text = AnimateText(screen_coordinates=self.screen_coordinates)
-                    ao_label_line = AnimateLine(screen_coordinates=self.screen_coordinates)
+                    ao_label_text = AnimateText(screen_coordinates=self.screen_coordinates, env=self.env)
+                    ao_label_line = AnimateLine(screen_coordinates=self.screen_coordinates, env=self.env)
                     self.ao_label_texts.append(ao_label_text)
                     self.ao_label_lines.append(ao_label_line)
                 ao_label_text.text = str(label)
@@ -7285,7 +7290,7 @@ by adding at the end:
         size_x = 50
         size_y = 50
         ao0 = AnimateRectangle(
-            text=str(self.sequence_number()), textcolor="bg", spec=(-20, -20, 20, 20), linewidth=0, fillcolor="fg", screen_coordinates=screen_coordinates
+            text=str(self.sequence_number()), textcolor="bg", spec=(-20, -20, 20, 20), linewidth=0, fillcolor="fg", screen_coordinates=screen_coordinates, env=self.env
         )
         return (size_x, size_y, ao0)
 
@@ -18377,6 +18382,7 @@ class AnimateQueue(DynamicClass):
             layer=lambda t: self.layer(t),
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.show()
 
-- 
2.43.0


From f43afb66f64bb87a02c0a0d805ccbc2b4d14b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 098/115] fix: an animated text may be a tuple or list

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 96f4d4b..6e07fd1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15537,6 +15537,8 @@ class Animate2dBase(DynamicClass):
             if visible:
                 if self.type == "text":  # checked so early as to avoid evaluation of x, y, angle, ...
                     text = self.text(t)
+                    if text is not None:
+                        text = "\n".join(str(item) for item in deep_flatten(text))
                     if (text is None) or (text.strip() == ""):
                         self._image_visible = False
                         return
-- 
2.43.0


From 252c3f037ac11a32fda7bea9b8e0a52fc53a20a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 099/115] fix: animated circles and rounded rectangles may be
 very small

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6e07fd1..a706ca4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15639,7 +15639,7 @@ class Animate2dBase(DynamicClass):
                                     nsteps = int(math.sqrt(r) * 6)
                                 else:
                                     nsteps = int(math.sqrt(r * self.env._scale) * 6)
-                                tarc_angle = 360 / nsteps
+                                tarc_angle = 360 / max(nsteps, 1)
 
                                 p = []
 
@@ -15687,7 +15687,7 @@ class Animate2dBase(DynamicClass):
                                 nsteps = int(math.sqrt(max(radius0, radius1)) * 6)
                             else:
                                 nsteps = int(math.sqrt(max(radius0 * self.env._scale, radius1 * self.env._scale)) * 6)
-                            tarc_angle = 360 / nsteps
+                            tarc_angle = 360 / max(nsteps, 1)
                             p = [0, 0]
 
                             arc_angle = arc_angle0
-- 
2.43.0


From 0e7c081c8da5d7ed76a0d1061865eb8c3ff9953a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 100/115] fix: the text of an animated circle in model
 coordinates is placed according to the scaled radius

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a706ca4..8e79f34 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15783,8 +15783,8 @@ class Animate2dBase(DynamicClass):
                     if self.type == "circle":
                         self.env._centerx = qx
                         self.env._centery = qy
-                        self.env._dimx = 2 * radius0
-                        self.env._dimy = 2 * radius1
+                        self.env._dimx = 2 * radius0 * (1 if self.screen_coordinates else self.env._scale)
+                        self.env._dimy = 2 * radius1 * (1 if self.screen_coordinates else self.env._scale)
                     else:
                         self.env._centerx = qx + (self.minrx + self.maxrx) / 2
                         self.env._centery = qy + (self.minry + self.maxry) / 2
-- 
2.43.0


From 2f81c10f6c8b915e837ef02648c053d7f222f66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 101/115] fix: the text of an animated image is not offset
 twice

---
 salabim/salabim.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8e79f34..fde9965 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15883,8 +15883,9 @@ class Animate2dBase(DynamicClass):
                     ey = dx * sina + dy * cosa
                     imrwidth, imrheight = self._image.size
 
-                    self.env._centerx = qx + ex
-                    self.env._centery = qy + ey
+                    # the offsets are not included here, because the text applies these itself
+                    self.env._centerx = qx + ex - (offsetx * cosa - offsety * sina)
+                    self.env._centery = qy + ey - (offsetx * sina + offsety * cosa)
                     self.env._dimx = width
                     self.env._dimy = height
 
-- 
2.43.0


From a9515459b95a5bbc332761728e37c0af989f8c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 102/115] fix: the times of Animate objects and animated images
 are times after reset_now

---
 salabim/salabim.py | 48 +++++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fde9965..03311af 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -16666,7 +16666,7 @@ class Animate:
         self.alpha0 = alpha0
         self.fontsize0 = fontsize0
 
-        self.t0 = self.env._now if t0 is None else t0
+        self.t0 = self.env.now() if t0 is None else t0
 
         self.circle1 = self.circle0 if circle1 is None else circle1
         self.line1 = self.line0 if line1 is None else de_none(line1)
@@ -16704,7 +16704,7 @@ class Animate:
         self.flip_horizontal0 = flip_horizontal
         self.flip_vertical0 = flip_vertical
         if animation_start is None:
-            self.animation_start0 = self.env._now
+            self.animation_start0 = self.env.now()
         else:
             self.animation_start0 = animation_start
         self.animation_speed0 = animation_speed
@@ -17000,7 +17000,7 @@ class Animate:
         The default value of most of the parameters is the current value (at time now)
         """
 
-        t = self.env._now
+        t = self.env.now()
         type0 = self.settype(circle0, line0, polygon0, rectangle0, points0, image, text)
         if (type0 != "") and (type0 != self.type):
             raise TypeError("incorrect type " + type0 + " (should be " + self.type)
@@ -17054,7 +17054,7 @@ class Animate:
         self.angle0 = self.angle(t) if angle0 is None else angle0
         self.alpha0 = self.alpha(t) if alpha0 is None else alpha0
         self.fontsize0 = self.fontsize(t) if fontsize0 is None else fontsize0
-        self.t0 = self.env._now if t0 is None else t0
+        self.t0 = self.env.now() if t0 is None else t0
         self.xy_anchor0 = self.xy_anchor(t) if xy_anchor0 is None else xy_anchor0
 
         self.circle1 = self.circle0 if circle1 is None else circle1
@@ -17127,7 +17127,7 @@ class Animate:
         x : float
             default behaviour: linear interpolation between self.x0 and self.x1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.x0, self.x1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.x0, self.x1)
 
     def y(self, t=None):
         """
@@ -17143,7 +17143,7 @@ class Animate:
         y : float
             default behaviour: linear interpolation between self.y0 and self.y1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.y0, self.y1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.y0, self.y1)
 
     def offsetx(self, t=None):
         """
@@ -17159,7 +17159,7 @@ class Animate:
         offsetx : float
             default behaviour: linear interpolation between self.offsetx0 and self.offsetx1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.offsetx0, self.offsetx1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.offsetx0, self.offsetx1)
 
     def offsety(self, t=None):
         """
@@ -17175,7 +17175,7 @@ class Animate:
         offsety : float
             default behaviour: linear interpolation between self.offsety0 and self.offsety1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.offsety0, self.offsety1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.offsety0, self.offsety1)
 
     def angle(self, t=None):
         """
@@ -17191,7 +17191,7 @@ class Animate:
         angle : float
             default behaviour: linear interpolation between self.angle0 and self.angle1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.angle0, self.angle1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.angle0, self.angle1)
 
     def alpha(self, t=None):
         """
@@ -17207,7 +17207,7 @@ class Animate:
         alpha : float
             default behaviour: linear interpolation between self.alpha0 and self.alpha1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.alpha0, self.alpha1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.alpha0, self.alpha1)
 
     def linewidth(self, t=None):
         """
@@ -17223,7 +17223,7 @@ class Animate:
         linewidth : float
             default behaviour: linear interpolation between self.linewidth0 and self.linewidth1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.linewidth0, self.linewidth1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.linewidth0, self.linewidth1)
 
     def linecolor(self, t=None):
         """
@@ -17239,7 +17239,7 @@ class Animate:
         linecolor : colorspec
             default behaviour: linear interpolation between self.linecolor0 and self.linecolor1
         """
-        return self.env.colorinterpolate((self.env._now if t is None else t), self.t0, self.t1, self.linecolor0, self.linecolor1)
+        return self.env.colorinterpolate((self.env.now() if t is None else t), self.t0, self.t1, self.linecolor0, self.linecolor1)
 
     def fillcolor(self, t=None):
         """
@@ -17255,7 +17255,7 @@ class Animate:
         fillcolor : colorspec
             default behaviour: linear interpolation between self.fillcolor0 and self.fillcolor1
         """
-        return self.env.colorinterpolate((self.env._now if t is None else t), self.t0, self.t1, self.fillcolor0, self.fillcolor1)
+        return self.env.colorinterpolate((self.env.now() if t is None else t), self.t0, self.t1, self.fillcolor0, self.fillcolor1)
 
     def circle(self, t=None):
         """
@@ -17281,7 +17281,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.circle0 and self.circle1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.circle0, self.circle1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.circle0, self.circle1)
 
     def textcolor(self, t=None):
         """
@@ -17297,7 +17297,7 @@ class Animate:
         textcolor : colorspec
             default behaviour: linear interpolation between self.textcolor0 and self.textcolor1
         """
-        return self.env.colorinterpolate((self.env._now if t is None else t), self.t0, self.t1, self.textcolor0, self.textcolor1)
+        return self.env.colorinterpolate((self.env.now() if t is None else t), self.t0, self.t1, self.textcolor0, self.textcolor1)
 
     def line(self, t=None):
         """
@@ -17315,7 +17315,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.line0 and self.line1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.line0, self.line1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.line0, self.line1)
 
     def polygon(self, t=None):
         """
@@ -17333,7 +17333,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.polygon0 and self.polygon1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.polygon0, self.polygon1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.polygon0, self.polygon1)
 
     def rectangle(self, t=None):
         """
@@ -17351,7 +17351,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.rectangle0 and self.rectangle1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.rectangle0, self.rectangle1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.rectangle0, self.rectangle1)
 
     def points(self, t=None):
         """
@@ -17369,7 +17369,7 @@ class Animate:
 
             default behaviour: linear interpolation between self.points0 and self.points1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.points0, self.points1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.points0, self.points1)
 
     def width(self, t=None):
         """
@@ -17396,7 +17396,7 @@ class Animate:
         if width1 is None:
             width1 = ImageContainer(self.image1).images[0].size[0]
 
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, width0, width1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, width0, width1)
 
     def height(self, t=None):
         """
@@ -17423,7 +17423,7 @@ class Animate:
         if height1 is None:
             height1 = ImageContainer(self.image1).images[0].size[0]
 
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, height0, height1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, height0, height1)
 
     def fontsize(self, t=None):
         """
@@ -17439,7 +17439,7 @@ class Animate:
         fontsize : float
             default behaviour: linear interpolation between self.fontsize0 and self.fontsize1
         """
-        return interpolate((self.env._now if t is None else t), self.t0, self.t1, self.fontsize0, self.fontsize1)
+        return interpolate((self.env.now() if t is None else t), self.t0, self.t1, self.fontsize0, self.fontsize1)
 
     def as_points(self, t=None):
         """
@@ -17594,7 +17594,7 @@ class Animate:
         return self.flip_vertical0
 
     def animation_start(self, t=None):
-        return self.env._now
+        return self.env.now()
 
     def animation_repeat(self, t=None):
         return False
@@ -20326,7 +20326,7 @@ class AnimateImage(Animate2dBase):
                 text_offsetx=0,
                 text_offsety=0,
                 anchor="sw",
-                animation_start=env._now,
+                animation_start=env.now(),
                 animation_repeat=False,
                 animation_pingpong=False,
                 animation_speed=1,
-- 
2.43.0


From ed1dda20a7131eabc1d3fb4e5d64c8d0172f0588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 103/115] fix: Animate honours the animation parameters of
 animated images

---
 salabim/salabim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 03311af..f58f436 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -17594,22 +17594,22 @@ class Animate:
         return self.flip_vertical0
 
     def animation_start(self, t=None):
-        return self.env.now()
+        return self.animation_start0
 
     def animation_repeat(self, t=None):
-        return False
+        return self.animation_repeat0
 
     def animation_pingpong(self, t=None):
-        return False
+        return self.animation_pingpong0
 
     def animation_speed(self, t=None):
-        return 1
+        return self.animation_speed0
 
     def animation_from(self, t=None):
-        return 0
+        return self.animation_from0
 
     def animation_to(self, t=None):
-        return inf
+        return self.animation_to0
 
     def keep(self, t):
         """
-- 
2.43.0


From 0d7ad3e74bcab931a52b2f75068dc18fd1f81d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 104/115] fix: Animate interpolates from the original height of
 an image

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f58f436..b3666b3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -17394,7 +17394,7 @@ class Animate:
         if width0 is None:
             width0 = ImageContainer(self.image0).images[0].size[0]
         if width1 is None:
-            width1 = ImageContainer(self.image1).images[0].size[0]
+            width1 = ImageContainer(self.image0).images[0].size[0]
 
         return interpolate((self.env.now() if t is None else t), self.t0, self.t1, width0, width1)
 
@@ -17419,9 +17419,9 @@ class Animate:
         if height0 is None and height1 is None:
             return None
         if height0 is None:
-            height0 = ImageContainer(self.image0).images[0].size[0]
+            height0 = ImageContainer(self.image0).images[0].size[1]
         if height1 is None:
-            height1 = ImageContainer(self.image1).images[0].size[0]
+            height1 = ImageContainer(self.image0).images[0].size[1]
 
         return interpolate((self.env.now() if t is None else t), self.t0, self.t1, height0, height1)
 
-- 
2.43.0


From 2cbbf2423ec62d4400e3b431cf62c2136003c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 105/115] fix: Animate accepts a tuple of one element for a
 circle

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b3666b3..2bd4edb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -16184,7 +16184,7 @@ class AnimateClassic(Animate2dBase):
         try:
             return circle[1]
         except (TypeError, IndexError):
-            return circle
+            return self.radius(t)
 
     def arc_angle0(self, t):
         circle = self.master.circle(t)
-- 
2.43.0


From c8a240eb8948f2f1ad2a2dd051fd324bef9dd24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 106/115] fix: Animate accepts points

---
 salabim/salabim.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2bd4edb..5c31138 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -16065,7 +16065,7 @@ class Animate2dBase(DynamicClass):
 
 class AnimateClassic(Animate2dBase):
     def __init__(self, master, locals_):
-        super().__init__(locals_=locals_, type=master.type, argument_default={}, attach_text=False)
+        super().__init__(locals_=locals_, type="line" if master.type == "points" else master.type, argument_default={}, attach_text=False)
         self.master = master
 
     def text(self, t):
@@ -16162,9 +16162,11 @@ class AnimateClassic(Animate2dBase):
         return self.master.fillcolor(t)
 
     def as_points(self, t):
-        return self.master.as_points(t)
+        return self.master.type == "points" or self.master.as_points(t)
 
     def spec(self, t):
+        if self.master.type == "points":
+            return self.master.points(t)
         if self.type == "line":
             return self.master.line(t)
         if self.type == "rectangle":
@@ -16653,7 +16655,7 @@ class Animate:
         self.linecolor0 = linecolor0
         self.textcolor0 = textcolor0
         if linewidth0 is None:
-            if self.as_points0:
+            if self.as_points0 or self.type == "points":
                 self.linewidth0 = 3
             else:
                 if self.type == "line":
-- 
2.43.0


From 7a50cfd15ddb8c846ffbcc0d0702812ef2e7bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 107/115] fix: the first frame of animated images is shown, and
 .webp frame durations are found

---
 salabim/salabim.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5c31138..730e7f9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27815,16 +27815,17 @@ class ImageContainer:
             self._duration = 0
 
         else:  # >1
-            im.convert("RGBA")  # without this .webp does not work!
+            im.seek(0)
+            first_image = im.convert("RGBA")  # without this .webp does not work!
             end_time = im.info["duration"] / 1000
-            self.images = [im]
+            self.images = [first_image]
             self.images[-1].end_time = end_time
 
             while True:
                 try:
                     im.seek(im.tell() + 1)
+                    self.images.append(im.convert("RGBA"))  # this is also required to get the duration of .webp frames
                     end_time += im.info["duration"] / 1000
-                    self.images.append(im.convert("RGBA"))
                     self.images[-1].end_time = end_time
                 except EOFError:
                     break
-- 
2.43.0


From 1a6b0bc5d60b4e881fb8a505595beff6a59bc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:34 +0000
Subject: [PATCH 108/115] fix: an animated image that has ended after its first
 frame is not shown any more

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 730e7f9..82bf7f0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27856,7 +27856,7 @@ class ImageContainer:
 
         if not repeat:
             if t > interval:
-                return g.dummy_image, 0
+                return g.dummy_image, -1
         t = t % interval
         if pingpong:
             if t <= interval / 2:
-- 
2.43.0


From 33497a3a02108df152ded77376bd9d7b1037a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 109/115] fix: cap_now and over3d context managers restore the
 default when left by an exception

---
 salabim/salabim.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 82bf7f0..7972ee5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -27901,8 +27901,10 @@ def over3d(val: bool = True):
     """
     save_default_over3d = default_over3d()
     default_over3d(val)
-    yield
-    default_over3d(save_default_over3d)
+    try:
+        yield
+    finally:
+        default_over3d(save_default_over3d)
 
 
 _default_over3d = False
@@ -27948,8 +27950,10 @@ def cap_now(val: bool = True):
     """
     save_default_cap_now = default_cap_now()
     default_cap_now(val)
-    yield
-    default_cap_now(save_default_cap_now)
+    try:
+        yield
+    finally:
+        default_cap_now(save_default_cap_now)
 
 
 def default_cap_now(val: bool = None) -> bool:
-- 
2.43.0


From 0804c9ed3aa39abbbbf7edf5ea373c73b5068739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:33 +0000
Subject: [PATCH 110/115] fix: flushing captured stdout does not add a newline
 to the captured text

---
 salabim/salabim.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7972ee5..1542337 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -28162,7 +28162,6 @@ class capture_stdout:
     def flush(self):
         if self.include_print:
             self.stdout.flush()
-        g._captured_stdout.append("\n")
 
 
 class redirect_stdout:
-- 
2.43.0


From 1e443f24cc2e611c9aada76f1d48302ce87040a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:12 +0000
Subject: [PATCH 111/115] fix: ANSI codes do not count for the width of an
 animated text

---
 salabim/salabim.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1542337..b957417 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15955,7 +15955,14 @@ class Animate2dBase(DynamicClass):
                             else:
                                 lines = lines[:max_lines]
 
-                            widths = [(font.getbbox(line)[2] if line else 0) for line in lines]
+                            widths = []
+                            for line in lines:
+                                if "\033[" in line:  # ANSI codes are not shown and the characters are drawn one by one
+                                    for ansi in _ANSI_to_rgb:
+                                        line = line.replace(ansi, "")
+                                    widths.append(sum(font.getbbox(c)[2] for c in line))
+                                else:
+                                    widths.append(font.getbbox(line)[2] if line else 0)
                             if widths:
                                 totwidth = max(widths)
                             else:
-- 
2.43.0


From 371cdbf5a3a4f463b6826debf8bebbd42508b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 112/115] fix: a component generator that fails does not change
 the default environment

---
 salabim/salabim.py | 84 +++++++++++++++++++++++++++-------------------
 1 file changed, 50 insertions(+), 34 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b957417..9801a07 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20690,11 +20690,13 @@ class ComponentGenerator(Component):
             yield self.hold(interval)
             save_default_env = g.default_env
             g.default_env = self.env
-            if isinstance(self.component_class, _Distribution):
-                self.component_class()(**self.kwargs)
-            else:
-                self.component_class(**self.kwargs)
-            g.default_env = save_default_env
+            try:
+                if isinstance(self.component_class, _Distribution):
+                    self.component_class()(**self.kwargs)
+                else:
+                    self.component_class(**self.kwargs)
+            finally:
+                g.default_env = save_default_env
 
         self.env.print_trace("", "", "all components generated")
         self.at_end()
@@ -20704,11 +20706,13 @@ class ComponentGenerator(Component):
         while True:
             save_default_env = g.default_env
             g.default_env = self.env
-            if isinstance(self.component_class, _Distribution):
-                self.component_class()(**self.kwargs)
-            else:
-                self.component_class(**self.kwargs)
-            g.default_env = save_default_env
+            try:
+                if isinstance(self.component_class, _Distribution):
+                    self.component_class()(**self.kwargs)
+                else:
+                    self.component_class(**self.kwargs)
+            finally:
+                g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", f"{n} components generated")
@@ -20728,11 +20732,13 @@ class ComponentGenerator(Component):
         while True:
             save_default_env = g.default_env
             g.default_env = self.env
-            if callable(self.iat):
-                iat = self.iat()
-            else:
-                iat = self.iat
-            g.default_env = save_default_env
+            try:
+                if callable(self.iat):
+                    iat = self.iat()
+                else:
+                    iat = self.iat
+            finally:
+                g.default_env = save_default_env
 
             if callable(self.disturbance):
                 disturbance = self.disturbance()
@@ -20750,8 +20756,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class
             save_default_env = g.default_env
             g.default_env = self.env
-            component_class(at=at - self.env._offset, **self.kwargs)
-            g.default_env = save_default_env
+            try:
+                component_class(at=at - self.env._offset, **self.kwargs)
+            finally:
+                g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
@@ -20766,11 +20774,13 @@ class ComponentGenerator(Component):
             self.hold(interval)
             save_default_env = g.default_env
             g.default_env = self.env
-            if isinstance(self.component_class, _Distribution):
-                self.component_class()(**self.kwargs)
-            else:
-                self.component_class(**self.kwargs)
-            g.default_env = save_default_env
+            try:
+                if isinstance(self.component_class, _Distribution):
+                    self.component_class()(**self.kwargs)
+                else:
+                    self.component_class(**self.kwargs)
+            finally:
+                g.default_env = save_default_env
 
         self.env.print_trace("", "", "all components generated")
         self.at_end()
@@ -20780,11 +20790,13 @@ class ComponentGenerator(Component):
         while True:
             save_default_env = g.default_env
             g.default_env = self.env
-            if isinstance(self.component_class, _Distribution):
-                self.component_class()(**self.kwargs)
-            else:
-                self.component_class(**self.kwargs)
-            g.default_env = save_default_env
+            try:
+                if isinstance(self.component_class, _Distribution):
+                    self.component_class()(**self.kwargs)
+                else:
+                    self.component_class(**self.kwargs)
+            finally:
+                g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", f"{n} components generated")
@@ -20804,11 +20816,13 @@ class ComponentGenerator(Component):
         while True:
             save_default_env = g.default_env
             g.default_env = self.env
-            if callable(self.iat):
-                iat = self.iat()
-            else:
-                iat = self.iat
-            g.default_env = save_default_env
+            try:
+                if callable(self.iat):
+                    iat = self.iat()
+                else:
+                    iat = self.iat
+            finally:
+                g.default_env = save_default_env
 
             if callable(self.disturbance):
                 disturbance = self.disturbance()
@@ -20826,8 +20840,10 @@ class ComponentGenerator(Component):
                 component_class = self.component_class
             save_default_env = g.default_env
             g.default_env = self.env
-            component_class(at=at - self.env._offset, **self.kwargs)
-            g.default_env = save_default_env
+            try:
+                component_class(at=at - self.env._offset, **self.kwargs)
+            finally:
+                g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
-- 
2.43.0


From 466b9e53a080743611362eed1d4b0efcadbfb684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 113/115] fix: print_info of a component generator shows mode=
 once

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9801a07..713be47 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20890,7 +20890,7 @@ class ComponentGenerator(Component):
         result.append("  suppress_trace=" + str(self._suppress_trace))
         result.append("  suppress_pause_at_step=" + str(self._suppress_pause_at_step))
         result.append("  status=" + self.status.value)
-        result.append("  mode=" + self._modetxt().strip())
+        result.append("  mode=" + str(self.mode.value))
         result.append("  mode_time=" + self.env.time_to_str(self.mode_time()))
         result.append("  creation_time=" + self.env.time_to_str(self.creation_time()))
         result.append("  scheduled_time=" + self.env.time_to_str(self.scheduled_time()))
-- 
2.43.0


From cc100191402fb0d0da9249a9b0515e96e29c2125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 114/115] fix: print_info of a component with a mode that is
 not a str

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 713be47..198031d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7460,7 +7460,7 @@ by adding at the end:
         result.append("  suppress_trace=" + str(self._suppress_trace))
         result.append("  suppress_pause_at_step=" + str(self._suppress_pause_at_step))
         result.append("  status=" + self.status())
-        result.append("  mode=" + self.mode())
+        result.append("  mode=" + str(self.mode()))
         result.append("  mode_time=" + self.env.time_to_str(self.mode_time()))
         result.append("  creation_time=" + self.env.time_to_str(self.creation_time()))
         result.append("  scheduled_time=" + self.env.time_to_str(self.scheduled_time()))
-- 
2.43.0


From fe52534283b34dd518f313d9ea4efaed8d97e768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:15 +0000
Subject: [PATCH 115/115] fix: AnimateGrid draws the lines over the whole of
 the animation if x0 or y0 is not 0

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 198031d..0dfaa7c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20383,10 +20383,10 @@ def AnimateGrid(spacing: float = 100, env: "Environment" = None, **kwargs):
         env = g.default_env
 
     for y in arange(env.y0(), env.y1() + 1, spacing):
-        AnimateLine(spec=(0, 0, env.x1() - env.x0(), 0), x=0, y=y, text=str(y), text_anchor="sw", env=env, **kwargs)
+        AnimateLine(spec=(0, 0, env.x1() - env.x0(), 0), x=env.x0(), y=y, text=str(y), text_anchor="sw", env=env, **kwargs)
 
     for x in arange(env.x0(), env.x1() + 1, spacing):
-        AnimateLine(spec=(0, 0, 0, env.y1() - env.y0()), x=x, y=0, text=str(x), text_anchor="se", env=env, **kwargs)
+        AnimateLine(spec=(0, 0, 0, env.y1() - env.y0()), x=x, y=env.y0(), text=str(x), text_anchor="se", env=env, **kwargs)
 
 
 class ComponentGenerator(Component):
-- 
2.43.0

