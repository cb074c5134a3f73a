From 113be1f2514da5530487d995c9008e2cd5f40605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:02 +0000
Subject: [PATCH 01/62] fix: do not forget components in standby after an event
 of a skip_standby component

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4641412..43a9b2d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11186,7 +11186,7 @@ class Environment:
                                 return
 
             if len(self.env._standbylist) > 0:
-                self._pendingstandbylist = list(self.env._standbylist)
+                self._pendingstandbylist.extend(self.env._standbylist)
                 self.env._standbylist = []
 
             if self._event_list:
-- 
2.43.0


From 3b089e2573ddba77c6b9dbf87ab6e30fb1d2f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:51 +0000
Subject: [PATCH 02/62] fix: Queue.append honours its priority argument, as
 documented

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 43a9b2d..d3ba4f0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4911,7 +4911,7 @@ class Queue:
 
         This method is equivalent to add()
         """
-        component.enter(self)
+        component.enter(self, priority)
         return self
 
     def add_at_head(self, component: "Component") -> "Queue":
-- 
2.43.0


From c074d18e2f66667276391a07a77028c3cccdfbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:09 +0000
Subject: [PATCH 03/62] fix: Queue.insert at the end of a queue takes the
 priority of the tail, so that the queue stays sorted

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d3ba4f0..4c4580f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4989,7 +4989,7 @@ class Queue:
                 break
             count = count + 1
             mx = mx.successor
-        priority = mx.priority
+        priority = (mx.predecessor if mx == self._tail else mx).priority
         Qmember().insert_in_front_of(mx, component, self, priority)
         return self
 
-- 
2.43.0


From 7f807f99ab4ab3860f17471887caa2071ba692b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:40 +0000
Subject: [PATCH 04/62] fix: Queue.copy/move with copy_capacity gives the copy
 the right available quantity

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4c4580f..5ae1fbb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5662,7 +5662,7 @@ class Queue:
                 name = "copy of " + self.name()
             q1 = type(self)(name=name, monitor=monitor, env=self.env)
             if copy_capacity:
-                q1.capacity._tally = self.capacity._tally
+                q1.set_capacity(self.capacity._tally)
             mx = self._head.successor
             while mx != self._tail:
                 Qmember().insert_in_front_of(q1._tail, mx.component, q1, mx.priority)
-- 
2.43.0


From 521952c7666d26c4ca7ed150016f9bd9ac2be4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:07 +0000
Subject: [PATCH 05/62] fix: requesting the same resource more than once in one
 request sums the quantities, as documented

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5ae1fbb..d4a7c23 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8631,7 +8631,8 @@ by adding:
             if self.oneof_request:
                 addstring += " (oneof)"
 
-            self.enter(r._requesters, priority)
+            if self not in r._requesters:
+                self.enter(r._requesters, priority)
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), req_text + r.name() + addstring)
 
-- 
2.43.0


From 0e49ec79fda82195226fbed458f50a8bd8ecef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:29 +0000
Subject: [PATCH 06/62] fix: Resource.release releases the claims at that
 moment only, not those honored meanwhile

---
 salabim/salabim.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d4a7c23..a008659 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24389,11 +24389,8 @@ class Resource:
             if quantity is not None:
                 raise ValueError("no quantity allowed for non-anonymous resource")
 
-            mx = self._claimers._head.successor
-            while mx != self._claimers._tail:
-                c = mx.component
-                mx = mx.successor
-                c.release(self)
+            for c, q in [(c, c._claims[self]) for c in self._claimers]:
+                c.release((self, q))
 
     def requesters(self) -> Queue:
         """
-- 
2.43.0


From bbbec263c1b3d0f45c9bb56317bf49de325f1d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:51 +0000
Subject: [PATCH 07/62] fix: no lost wake-ups with honor_only_first and
 honor_only_highest_priority

---
 salabim/salabim.py | 48 ++++++++++++++++++----------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a008659..370d6e7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7489,12 +7489,16 @@ by adding at the end:
         if self._requests:
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), "request failed")
-            for r in list(self._requests):
+            requested = list(self._requests)
+            for r in requested:
                 self.leave(r._requesters)
                 if r._requesters._length == 0:
                     r._minq = inf
             self._requests = collections.OrderedDict()
             self._failed = True
+            for r in requested:
+                if r._honor_only_first or r._honor_only_highest_priority:
+                    r._tryrequest()  # there may be another component first in line now
 
         if self._waits:
             if self.env._trace:
@@ -8757,10 +8761,10 @@ by adding:
             r_honor = self.honor_all()
 
         if r_honor:
-            anonymous_resources = []
+            retry_resources = []
             for r in list(self._requests):
-                if r._anonymous:
-                    anonymous_resources.append(r)
+                if r._anonymous or r._honor_only_first or r._honor_only_highest_priority:
+                    retry_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
                     this_prio = self.priority(r._requesters)
@@ -8789,7 +8793,7 @@ by adding:
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
-            for r in anonymous_resources:
+            for r in retry_resources:
                 r._tryrequest()
             return True
         else:
@@ -24319,38 +24323,24 @@ class Resource:
         return return_or_print(result, as_str, file)
 
     def _tryrequest(self):
-        # this is Resource._tryrequest
-        if self._anonymous:
-            if not self._trying:
-                self._trying = True
-                mx = mx_first = self._requesters._head.successor
-                mx_first_priority = mx_first.priority
-                while mx != self._requesters._tail:
-                    if self._honor_only_first and mx != mx_first:
-                        break
-                    if self._honor_only_highest_priority and mx.priority != mx_first_priority:
-                        break
-                    c = mx.component
-                    mx = mx.successor
-                    c._tryrequest()
-                    if c not in self._requesters:
-                        mx = self._requesters._head.successor  # start again
-
-                self._trying = False
-        else:
-            mx = mx_first = self._requesters._head.successor
-            mx_first_priority = mx_first.priority
-
+        if not self._trying:
+            self._trying = True
+            mx = self._requesters._head.successor
             while mx != self._requesters._tail:
+                mx_first = self._requesters._head.successor
                 if self._honor_only_first and mx != mx_first:
                     break
-                if self._honor_only_highest_priority and mx.priority != mx_first_priority:
+                if self._honor_only_highest_priority and mx.priority != mx_first.priority:
                     break
-                if self._minq > (self._capacity - self._claimed_quantity + 1e-8):
+                if not self._anonymous and self._minq > (self._capacity - self._claimed_quantity + 1e-8):
                     break  # inpossible to honor any more requests
                 c = mx.component
                 mx = mx.successor
                 c._tryrequest()
+                if c not in self._requesters:
+                    mx = self._requesters._head.successor  # start again
+
+            self._trying = False
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From 934aef1ef7a05ca0e10721cfb3aea88782b63232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:52 +0000
Subject: [PATCH 08/62] fix: yieldless get/put retry waiting requests right
 away, not after the component resumes

---
 salabim/salabim.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 370d6e7..0583c38 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7465,6 +7465,10 @@ by adding at the end:
                 seq = self.env._seq
             self._on_event_list = True
             heapq.heappush(self.env._event_list, (t, priority, seq, self, return_value))
+        if switch:
+            self._switch()
+
+    def _switch(self):
         if self.env._yieldless:
             if self is self.env._current_component:
                 self.env._glet.switch()
@@ -7525,7 +7529,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7552,7 +7556,7 @@ by adding at the end:
                 merge_blanks(scheduled_time_str + _prioritytxt(priority) + _urgenttxt(urgent) + lineno, self._modetxt(), extra),
                 s0=s0,
             )
-        self._push(scheduled_time, priority, urgent, return_value)
+        self._push(scheduled_time, priority, urgent, return_value, switch)
 
     def activate(
         self,
@@ -8792,9 +8796,10 @@ by adding:
             self._remove()
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0, switch=False)
             for r in retry_resources:
                 r._tryrequest()
+            self._switch()
             return True
         else:
             return False
-- 
2.43.0


From ec907e0f1a47c9cdeaa8303533f22d4325207cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 09/62] fix: preemptive resources bump no more claimers than
 needed, and none if that would not be enough

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0583c38..3bfe4e4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8653,9 +8653,9 @@ by adding:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-                    av += c.claimed_quantity(this_claimers)
+                    av += c.claimed_quantity(r)
                     bump_candidates.append(c)
-                if av >= 0:
+                if av >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
@@ -8767,7 +8767,7 @@ by adding:
         if r_honor:
             retry_resources = []
             for r in list(self._requests):
-                if r._anonymous or r._honor_only_first or r._honor_only_highest_priority:
+                if r._anonymous or r._preemptive or r._honor_only_first or r._honor_only_highest_priority:
                     retry_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
-- 
2.43.0


From c060d9a76c275a82d2789460b220c0e5b49eea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 10/62] fix: wait_for honours its request_priority

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3bfe4e4..c9b880d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8998,10 +8998,10 @@ by adding:
         self._cond = cond  # add test ***
         for state in states:
             self._waits.append((state, None, None))
-            if priority is None:
+            if request_priority is None:
                 self.enter(state._waiters)
             else:
-                self.enter_sorted(state._waiters, priority)
+                self.enter_sorted(state._waiters, request_priority)
 
         if not self._waits:
             raise TypeError("no states specified")
-- 
2.43.0


From 3b630813a5af8a91809446a60367f589722e6db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:35 +0000
Subject: [PATCH 11/62] fix: a $-expression in a wait for any state also works
 for states that are not numeric

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c9b880d..7013b06 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9275,7 +9275,7 @@ by adding:
                             honored = True
                             break
                     elif valuetype == 1:
-                        if eval(value.replace("$", str(state._value))):
+                        if eval(value.replace("$", "state._value")):
                             honored = True
                             break
                     elif valuetype == 2:
-- 
2.43.0


From f2ef52ea2a25b891464c5444fcda97853f74428a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:49 +0000
Subject: [PATCH 12/62] fix: State.trigger with max=0 honors no components

---
 salabim/salabim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7013b06..4f94115 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23806,13 +23806,11 @@ class State:
 
     def _trywait(self, max=inf):  # this _trywait of a state
         mx = self._waiters._head.successor
-        while mx != self._waiters._tail:
+        while mx != self._waiters._tail and max > 0:
             c = mx.component
             mx = mx.successor
             if c._trywait():
                 max -= 1
-                if max == 0:
-                    return
 
     def monitor(self, value: bool = None) -> None:
         """
-- 
2.43.0


From f259383bac342a81c41ee987d27ac414e2977681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:51 +0000
Subject: [PATCH 13/62] fix: from_store with a key and several stores takes the
 item from the store it is in

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4f94115..9f27aa3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8240,14 +8240,17 @@ by adding:
                         this_key = key(c)
                         if found_key is None or this_key < found_key:
                             found_c = c
+                            found_store = store
                             found_key = this_key
                     else:
                         found_c = c
+                        found_store = store
                         done = True
                         break
             if done:
                 break
         if found_c:
+            store = found_store
             found_c.leave(store)
             self._from_store_item = found_c
             self._from_store_store = store
-- 
2.43.0


From f41b9cc5405ef2d042d6edf5d87695db442325b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:51 +0000
Subject: [PATCH 14/62] fix: Store.rescan takes one item per honored from_store
 request

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9f27aa3..572c17b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5788,6 +5788,7 @@ class Store(Queue):
                     c._remove()
                     c.status._value = scheduled
                     c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    break
 
     def _rescan_to(self):
         """
-- 
2.43.0


From 1ea2bf309aa2195ce94f8816892f8279fb526496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:51 +0000
Subject: [PATCH 15/62] fix: honor a store request only once, also if honoring
 it makes room for other store requests

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 572c17b..293b669 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4247,10 +4247,10 @@ class Qmember:
             store = q
             for requester in store._from_store_requesters:
                 if requester._from_store_filter(c):
-                    c.leave(store)
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
+                    c.leave(store)
                     requester._from_store_item = c
                     requester._from_store_store = store
                     requester._remove()
@@ -9801,11 +9801,11 @@ by adding:
             if available_quantity > 0:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
+                    with self.env.suppress_trace():
+                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-- 
2.43.0


From b507f8267d5c404e35ca9b30425637e19eff436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:58 +0000
Subject: [PATCH 16/62] fix: switching a level monitor off invalidates its
 cached statistics

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 293b669..2e3d193 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1330,6 +1330,7 @@ class Monitor:
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
+        self.cached_xweight.clear()
         t = self.env._now
         if self._t[-1] == t:
             self._x[-1] = self.off
-- 
2.43.0


From e673100a8a9b461ab976681d22e9eade944cc0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:55 +0000
Subject: [PATCH 17/62] fix: values with zero duration or weight do not
 influence percentiles

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2e3d193..342bd3d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1917,7 +1917,7 @@ class Monitor:
         if not sum_weight:
             return nan
 
-        x_sorted, weight_sorted = zip(*sorted(zip(x, weight), key=lambda v: v[0]))
+        x_sorted, weight_sorted = zip(*sorted((v for v in zip(x, weight) if v[1] != 0), key=lambda v: v[0]))
         n = len(x_sorted)
 
         if self._weight:
-- 
2.43.0


From 5fb9e5ba1b6cd9f28826bbda8dd2a5014343bb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:57:00 +0000
Subject: [PATCH 18/62] fix: print_histogram with ex0 does not count the zeroes
 in the bins

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 342bd3d..55a1e2b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2040,8 +2040,8 @@ class Monitor:
             raise TypeError("bin_duration not available for non level monitors")
         return self.sys_bin_weight(lowerbound, upperbound)
 
-    def sys_bin_weight(self, lowerbound, upperbound):
-        x, weight = self._xweight()
+    def sys_bin_weight(self, lowerbound, upperbound, ex0=False):
+        x, weight = self._xweight(ex0=ex0)
         return sum((vweight for vx, vweight in zip(x, weight) if (vx > lowerbound) and (vx <= upperbound)))
 
     def value_number_of_entries(self, value: Any) -> int:
@@ -2634,7 +2634,7 @@ class Monitor:
                 auto_scale = False
 
             if auto_scale:
-                bin_width, lowerbound, number_of_bins = self.histogram_autoscale()
+                bin_width, lowerbound, number_of_bins = self.histogram_autoscale(ex0)
             result.append(self.print_statistics(show_header=False, show_legend=True, do_indent=False, as_str=True))
             if not self._stats_only and number_of_bins >= 0:
                 result.append("")
@@ -2654,9 +2654,9 @@ class Monitor:
                     else:
                         ub = lowerbound + (i + 1) * bin_width
                     if self._weight:
-                        count = self.sys_bin_weight(lb, ub)
+                        count = self.sys_bin_weight(lb, ub, ex0)
                     else:
-                        count = self.bin_number_of_entries(lb, ub)
+                        count = self.bin_number_of_entries(lb, ub, ex0)
 
                     perc = count / (weight_total if weight_total else 1)
                     if weight_total == inf:
-- 
2.43.0


From 102649263777e514545b96b9866b93e45c370a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:15 +0000
Subject: [PATCH 19/62] fix: minimum, maximum and duration of stats_only level
 monitors include the time up to now

---
 salabim/salabim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 55a1e2b..3b57942 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1756,6 +1756,8 @@ class Monitor:
         """
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._minimum[ex0]
             else:
@@ -1782,6 +1784,9 @@ class Monitor:
         """
 
         if self._stats_only:
+            ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._maximum[ex0]
             else:
@@ -2225,6 +2230,8 @@ class Monitor:
     def sys_weight(self, ex0: bool = False):
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             return self.sumw[ex0]
         else:
             _, weight = self._xweight(ex0=ex0)
-- 
2.43.0


From 15c704278da4f91419e8982f81a9d716466664f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:15 +0000
Subject: [PATCH 20/62] fix: a tally with weight 0 counts as an entry for
 stats_only monitors, too

---
 salabim/salabim.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3b57942..0f5cc68 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1269,7 +1269,7 @@ class Monitor:
             else:
                 value_num = value
 
-            if self._monitor and weight != 0:
+            if self._monitor and (weight != 0 or not self._level):
                 if not isinstance(value_num, numbers.Number):
                     try:
                         if int(value_num) == float(value_num):
@@ -1282,10 +1282,11 @@ class Monitor:
                 for ex0 in [False, True] if value_num else [False]:
                     self.n[ex0] += 1
                     # algorithm based on https://fanf2.user.srcf.net/hermes/doc/antiforgery/stats.pdf
-                    self.sumw[ex0] += weight
-                    mun1 = self.mun[ex0]
-                    self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
-                    self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])
+                    if weight != 0:
+                        self.sumw[ex0] += weight
+                        mun1 = self.mun[ex0]
+                        self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
+                        self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])
                     self._minimum[ex0] = min(self._minimum[ex0], value_num)
                     self._maximum[ex0] = max(self._maximum[ex0], value_num)
                 if weight != 1:
-- 
2.43.0


From 912c42d0273eda2a1bd72c14ef4c096f22194833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:16 +0000
Subject: [PATCH 21/62] fix: print_statistics of a stats_only level monitor
 without durations other than 1

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0f5cc68..5c8d679 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1170,7 +1170,7 @@ class Monitor:
             self._maximum = [-inf] * 2
             if self._level:
                 self._ttally_monitored = self.env._now
-            self._weight = False
+            self._weight = self._level
 
         else:
             if self.xtypecode:
-- 
2.43.0


From 1368c94213077ebe0eebd855215f5dbec2d6f642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:53 +0000
Subject: [PATCH 22/62] fix: tallied strings like '1.5' are converted to a
 number, as documented

---
 salabim/salabim.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5c8d679..b7b62f5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1272,11 +1272,11 @@ class Monitor:
             if self._monitor and (weight != 0 or not self._level):
                 if not isinstance(value_num, numbers.Number):
                     try:
-                        if int(value_num) == float(value_num):
-                            value_num = int(value_num)
+                        if int(float(value_num)) == float(value_num):
+                            value_num = int(float(value_num))
                         else:
                             value_num = float(value_num)
-                    except (ValueError, TypeError):
+                    except (ValueError, TypeError, OverflowError):
                         value_num = 0
 
                 for ex0 in [False, True] if value_num else [False]:
@@ -25279,11 +25279,11 @@ def do_force_numeric(arg):
             result.append(v)
         else:
             try:
-                if int(v) == float(v):
-                    result.append(int(v))
+                if int(float(v)) == float(v):
+                    result.append(int(float(v)))
                 else:
                     result.append(float(v))
-            except (ValueError, TypeError):
+            except (ValueError, TypeError, OverflowError):
                 result.append(0)
 
     return result
-- 
2.43.0


From cb827370bc113bc4fe0bc606250d497312c3f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:04 +0000
Subject: [PATCH 23/62] fix: Monitor.slice gives exactly the data of the
 period(s) asked for

---
 salabim/salabim.py | 57 +++++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 34 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b7b62f5..303c7b9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -821,24 +821,11 @@ class Monitor:
             name = self.name() + ".sliced"
         new = _SystemMonitor(level=self._level, type=self.xtype, name=name, env=self.env)
         actions = []
+        t_now = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
         if modulo is None:
-            if start is None:
-                start_ = -inf
-            else:
-                start_ = start + self.env._offset
-            start_ = max(start_, self.start)
-            if stop is None:
-                stop = inf
-                stop_action = "z"  # inclusive
-            else:
-                stop += self.env._offset
-                stop_action = "b"  # non inclusive
-            if self.env._animate:
-                stop = min(stop, self.env._t)
-            else:
-                stop = min(stop, self.env._now - self.env._offset)  # not self.now() in order to support frozen monitors
-            actions.append((start, "a", 0, 0))
-            actions.append((stop, stop_action, 0, 0))
+            start_ = -inf if start is None else start + self.env._offset
+            stop_ = inf if stop is None else stop + self.env._offset
+            periods = [(start_, stop_)]
         else:
             if start is None:
                 raise TypeError("modulo specified, but no start specified. ")
@@ -848,15 +835,23 @@ class Monitor:
                 raise ValueError("stop must be > start")
             if stop - start >= modulo:
                 raise ValueError("stop must be < start + modulo")
-            start_ = start % modulo
-            stop = stop % modulo
-            start1 = self._t[0] - (self._t[0] % modulo) + start_
-            len1 = (stop - start_) % modulo
-            while start1 < self.env._now:
-                actions.append((start1, "a", 0, 0))
-                actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+            start1 = self.start - (self.start - self.env._offset - start) % modulo  # the last period that starts at or before self.start
+            len1 = stop - start
+            periods = []
+            while start1 <= t_now:
+                periods.append((start1, start1 + len1))
                 start1 += modulo
 
+        for start_, stop_ in periods:
+            start_ = max(start_, self.start)
+            if start_ < stop_ and start_ <= t_now:
+                actions.append((start_, "a", 0, 0))
+                if stop_ > t_now:
+                    actions.append((t_now, "z", 0, 0))  # inclusive
+                else:
+                    actions.append((stop_, "b", 0, 0))  # non inclusive
+
+        new.start = self.start
         if new._level:
             if new.xtypecode:
                 new._x = array.array(self.xtypecode)
@@ -899,21 +894,15 @@ class Monitor:
                     if new._t[-1] == t:
                         new._x[-1] = curx
                     else:
-                        if new._x[-1] == curx:
-                            new._t[-1] = t
-                        else:
-                            new._t.append(t)
-                            new._x.append(curx)
+                        new._t.append(t)
+                        new._x.append(curx)
                 elif type in ("b", "z"):
                     enabled = False
                     if new._t[-1] == t:
                         new._x[-1] = self.off
                     else:
-                        if new._x[-1] == self.off:
-                            new._t[-1] = t
-                        else:
-                            new._t.append(t)
-                            new._x.append(self.off)
+                        new._t.append(t)
+                        new._x.append(self.off)
                 else:
                     if enabled:
                         if curx != x:
-- 
2.43.0


From cbdc9744ace432c88d177f6b6178a842928cec3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:04 +0000
Subject: [PATCH 24/62] fix: Monitor.t_multiply also if a multiplied moment
 coincides with now, or after reset_now

---
 salabim/salabim.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 303c7b9..14a235f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -652,12 +652,14 @@ class Monitor:
         new._t = []
         for x in self._x:
             new._x.append(x)
+        offset = self.env._offset
         for t in self._t:
-            new._t.append(t * factor)
+            new._t.append((t - offset) * factor + offset)
 
-        new.start = self.start * factor
-        new.monitor(False)
-        new._t[-1] = new._t[-1] * factor
+        new.start = (self.start - offset) * factor + offset
+        new._x.append(new.off)
+        new._t.append((self.env._now - offset) * factor + offset)
+        new._monitor = False
         new.isgenerated = True
         return new
 
-- 
2.43.0


From f409fd82922147a594ad7457da89e8a39e8ff03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:04 +0000
Subject: [PATCH 25/62] fix: Monitor.multiply and Monitor.x_map keep the
 weights

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 14a235f..0352eb9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -735,6 +735,7 @@ class Monitor:
                 else:
                     new._x.append(func(x))
                 new._t.append(t)
+            new._weight = self._weight[:] if self._weight else False
 
         for m in monitors:
             del m._x_any
@@ -1594,6 +1595,7 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            new._weight = self._weight[:] if self._weight else False
             return new
 
         else:
-- 
2.43.0


From fbe954c286544f52f9bde277ada343c5255ad692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:04 +0000
Subject: [PATCH 26/62] fix: merging level monitors of different types takes
 into account when they are off

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0352eb9..1c3ab0e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -594,7 +594,9 @@ class Monitor:
             curx = [new.off] * len(merge)
             new._t = array.array("d")
             for t, index, x in heapq.merge(*[zip(merge[index]._t, itertools.repeat(index), merge[index]._x) for index in range(len(merge))]):
-                if new.xtypecode:
+                if x == merge[index].off:
+                    curx[index] = new.off
+                elif new.xtypecode:
                     curx[index] = x
                 else:
                     try:
-- 
2.43.0


From bc2949d85d37d36e821e66b1ea0746d0008a46c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:38 +0000
Subject: [PATCH 27/62] fix: merged, mapped and multiplied non level monitors
 start when their source(s) start

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1c3ab0e..fe41bc1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -584,6 +584,7 @@ class Monitor:
         new = _SystemMonitor(name=name, type=new_xtype, level=self._level, env=self.env)
 
         merge = [self] + list(monitors)
+        new.start = min(m.start for m in merge)
 
         if new._level:
             if new.xtypecode:
@@ -730,6 +731,7 @@ class Monitor:
         else:
             new._x = []
             new._t = array.array("d")
+            new.start = self.start
 
             for x, t in zip(monitors[0]._x_any, monitors[0]._t):
                 if x == new.off:
@@ -1597,6 +1599,7 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            new.start = self.start
             new._weight = self._weight[:] if self._weight else False
             return new
 
-- 
2.43.0


From 134841b4beeacf6b072a2593e773a254b65f73c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:23 +0000
Subject: [PATCH 28/62] fix: Pdf, Pmf, CumPdf and CumPmf do not return 0 when
 the random number is 0

---
 salabim/salabim.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index fe41bc1..424251f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22752,8 +22752,8 @@ class Pdf(_Distribution):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -22894,8 +22894,8 @@ class Pmf(Pdf):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -23068,8 +23068,8 @@ class CumPdf(_Distribution):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
@@ -23178,8 +23178,8 @@ class CumPmf(CumPdf):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
-- 
2.43.0


From 1093dfb8dc4c1a9f44a5e20bcba7a32392b1cd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:23 +0000
Subject: [PATCH 29/62] fix: Pdf and Pmf with equal probabilities sample from a
 value that is a distribution

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 424251f..c6aa178 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22742,7 +22742,8 @@ class Pdf(_Distribution):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22884,7 +22885,8 @@ class Pmf(Pdf):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                return x.sample() if isinstance(x, _Distribution) else x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
-- 
2.43.0


From 1dddddf2edde1586879432f7b12679febcf3c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:24 +0000
Subject: [PATCH 30/62] fix: random_seed seeds the given randomstream

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c6aa178..bdc0ba1 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25441,7 +25441,7 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = 1234567
         elif seed == "*":
             seed = None
-        random.seed(seed)
+        randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
             numpy.random.seed(seed)
 
-- 
2.43.0


From 56434dc6269d5b9bf15034e7789fec39873a6ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 31/62] fix: Constant.mean applies the time unit once

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index bdc0ba1..c4bff98 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21892,7 +21892,7 @@ class Constant(_Distribution):
         -------
         mean of the distribution (= the specified constant) : float
         """
-        return self._mean * self.time_unit_factor
+        return self._mean
 
 
 class Poisson(_Distribution):
-- 
2.43.0


From 1f1e06fe7e7899d7165dfebac109121af437f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 32/62] fix: Erlang multiplies by the time unit factor

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c4bff98..48a5d46 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22427,7 +22427,7 @@ class Erlang(_Distribution):
         -------
         Sample of the distribution : float
         """
-        return self.randomstream.gammavariate(self._shape, 1 / self._rate) / self.time_unit_factor
+        return self.randomstream.gammavariate(self._shape, 1 / self._rate) * self.time_unit_factor
 
     def mean(self) -> float:
         """
@@ -22435,7 +22435,7 @@ class Erlang(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean / self.time_unit_factor
+        return self._mean * self.time_unit_factor
 
 
 class Cdf(_Distribution):
-- 
2.43.0


From 32cee9681e783ae7aa43da1ffb7849e6f103077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 33/62] fix: the mean of Pdf, Pmf, CumPdf and CumPmf uses the
 mean of values that are distributions

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 48a5d46..25a0a27 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22677,7 +22677,7 @@ class Pdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23021,7 +23021,7 @@ class CumPdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
-- 
2.43.0


From b16fe4863824a86dcadcbc601a698cdb78821791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:40 +0000
Subject: [PATCH 34/62] fix: the mean of Distribution takes the time unit into
 account

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 25a0a27..32b15b9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23463,7 +23463,7 @@ class Distribution(_Distribution):
             self.randomstream = randomstream
         self._distribution = d
         try:
-            self._mean = d._mean
+            self._mean = d.mean()
         except AttributeError:
             self._mean = nan
 
-- 
2.43.0


From cba71ce386247ac9c249562fcd93ed9316e3a068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:06 +0000
Subject: [PATCH 35/62] fix: ComponentGenerator spreads over the interval if
 duration is given

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 32b15b9..9a76640 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20545,20 +20545,20 @@ class ComponentGenerator(Component):
         else:
             if (self.iat is None and not equidistant) or moments:
                 if not moments:
-                    if till == inf or self.number == inf:
+                    if self.till == inf or self.number == inf:
                         raise ValueError("iat not specified --> till and number need to be specified")
                     if disturbance is not None:
                         raise ValueError("iat not specified --> disturbance not allowed")
 
-                    moments = sorted([Uniform(at, till)() for _ in range(self.number)])
+                    moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
                     if force_at or force_till:
-                        if number == 1:
+                        if self.number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
-                            moments = [at] if force_at else [till]
+                            moments = [at] if force_at else [self.till]
                         else:
                             v_at = at if force_at else moments[0]
-                            v_till = till if force_till else moments[-1]
+                            v_till = self.till if force_till else moments[-1]
                             min_moment = moments[0]
                             max_moment = moments[-1]
                             moments = [interpolate(moment, min_moment, max_moment, v_at, v_till) for moment in moments]
-- 
2.43.0


From 2bb3583557210bdd527aaf90d5b7183ad73a1b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:06 +0000
Subject: [PATCH 36/62] fix: ComponentGenerator calls at_end also with a
 disturbance

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9a76640..05edc32 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20670,6 +20670,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
@@ -20742,6 +20743,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
-- 
2.43.0


From 7ded7dd783ea7e28c143d62cc39f7c7c55e93f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:06 +0000
Subject: [PATCH 37/62] fix: ComponentGenerator generates at the right moments
 after reset_now

---
 salabim/salabim.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 05edc32..b4ec384 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20499,7 +20499,7 @@ class ComponentGenerator(Component):
                 )
             if callable(moments):
                 moments = moments()
-            moments = sorted([env.spec_to_time(moment) for moment in moments])
+            moments = sorted([env.spec_to_time(moment) + env._offset for moment in moments])
 
         self.component_class = component_class
         self.iat = iat
@@ -20600,7 +20600,8 @@ class ComponentGenerator(Component):
                     else:
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
-
+        if at is not None:
+            at = None if at == env._now else at - env._offset
         super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
 
     def do_spread(self):
@@ -20633,13 +20634,13 @@ class ComponentGenerator(Component):
                 self.at_end()
                 return
             if callable(self.iat):
-                t = self.env._now + self.iat()
+                iat = self.iat()
             else:
-                t = self.env._now + self.iat
-            if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                iat = self.iat
+            if self.env._now + iat > self.till:
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
 
-            yield self.hold(till=t)
+            yield self.hold(iat)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20661,20 +20662,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 self.at_end()
                 return
-            t = self.env._now + iat
 
-            yield self.hold(till=t)
+            yield self.hold(iat)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20706,13 +20706,13 @@ class ComponentGenerator(Component):
                 self.at_end()
                 return
             if callable(self.iat):
-                t = self.env._now + self.iat()
+                iat = self.iat()
             else:
-                t = self.env._now + self.iat
-            if t > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                iat = self.iat
+            if self.env._now + iat > self.till:
+                self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
 
-            self.hold(till=t)
+            self.hold(iat)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20734,20 +20734,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 self.at_end()
                 return
-            t = self.env._now + iat
 
-            self.hold(till=t)
+            self.hold(iat)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From 032b2c5dfc259920417e2c3ecd7f29f2a5191653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:01 +0000
Subject: [PATCH 38/62] fix: ComponentGenerator whose first arrival is after
 till can be used in a model with yields

---
 salabim/salabim.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b4ec384..0c50936 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20593,7 +20593,7 @@ class ComponentGenerator(Component):
                             at += self.iat
                 if at > self.till:
                     at = self.till
-                    process = "do_finalize"
+                    process = "do_finalize" if env._yieldless else "do_finalize_yield"
                 else:
                     if self.disturbance:
                         process = "do_iat_disturbance_yieldless" if env._yieldless else "do_iat_disturbance"
@@ -20752,6 +20752,11 @@ class ComponentGenerator(Component):
         self.env.print_trace("", "", "till reached")
         self.at_end()
 
+    def do_finalize_yield(self):
+        self.do_finalize()
+        return
+        yield  # just to make this a generator
+
     def print_info(self, as_str: bool = False, file: TextIO = None) -> str:
         """
         prints information about the component generator
-- 
2.43.0


From cae6259a1fff89a0e0c472f435b9057d425fc2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:46 +0000
Subject: [PATCH 39/62] fix: TrajectoryPolygon.length(t) gives the traversed
 length

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0c50936..1c78769 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6702,7 +6702,7 @@ class TrajectoryPolygon(_Trajectory):
             total length if t omitted
         """
         length, i, j = self.indexes(t, _t0=_t0)
-        return self.cum_length[i] + length
+        return self.cum_length[i] if i == j else length
 
     def rendered_polygon(self, time_step: float = 1) -> List[Tuple[float, float]]:
         """
-- 
2.43.0


From 1593bf49618e67e381152f71abff1e33f9212f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:46 +0000
Subject: [PATCH 40/62] fix: TrajectoryCircle.length() gives the total length

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 1c78769..9ed7b8d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6950,6 +6950,8 @@ class TrajectoryCircle(_Trajectory):
         """
         t0 = self._t0 if _t0 is None else _t0
         t1 = t0 + self._duration
+        if t is None:
+            t = t1
         if t < t0:
             t = t0
         elif t > t1:
-- 
2.43.0


From ddbb8c66863834e978eae13d8a1c70949157010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:46 +0000
Subject: [PATCH 41/62] fix: a merged trajectory that is not the first in a
 merged trajectory or in an AnimateQueue starts at the right time

---
 salabim/salabim.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9ed7b8d..9308c4d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -6066,6 +6066,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated x : float
         """
+        if _t0 is not None:
+            t = t - _t0 + self._t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6084,6 +6086,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated y : float
         """
+        if _t0 is not None:
+            t = t - _t0 + self._t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6102,6 +6106,8 @@ class TrajectoryMerged(_Trajectory):
         -------
         evaluated angle (in degrees) : float
         """
+        if _t0 is not None:
+            t = t - _t0 + self._t0
         i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
@@ -6171,6 +6177,8 @@ class TrajectoryMerged(_Trajectory):
         if t is None:
             i = len(self._trajectories) - 1
         else:
+            if _t0 is not None:
+                t = t - _t0 + self._t0
             i = self.index(t)
         trajectory = self._trajectories[i]
         t0 = self._t0s[i]
-- 
2.43.0


From f160d6c43bacfa333c14178b8b28f1a319d2c7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:59 +0000
Subject: [PATCH 42/62] fix: PeriodMonitor can be used in a yieldless model

---
 salabim/salabim.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9308c4d..447f3c2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24504,13 +24504,21 @@ class _PeriodComponent(Component):
     def setup(self, pm):
         self.pm = pm
 
+    def start_period(self, iperiod):
+        self.pm.perperiod[self.pm.iperiod].monitor(False)
+        self.pm.iperiod = iperiod
+        if self.pm.m._level:
+            self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
+        self.pm.perperiod[self.pm.iperiod].monitor(True)
+
     def process(self):
         for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
-            self.pm.perperiod[self.pm.iperiod].monitor(False)
-            self.pm.iperiod = iperiod
-            if self.pm.m._level:
-                self.pm.perperiod[self.pm.iperiod].tally(self.pm.m())
-            self.pm.perperiod[self.pm.iperiod].monitor(True)
+            self.start_period(iperiod)
+            self.hold(duration)
+
+    def process_yield(self):
+        for iperiod, duration in itertools.cycle(enumerate(self.pm.periods)):
+            self.start_period(iperiod)
             yield self.hold(duration)
 
 
@@ -24567,8 +24575,10 @@ class PeriodMonitor:
         self.m.period_monitors.remove(self)
 
     def __init__(self, parent_monitor: "Monitor", periods: Iterable = None, period_monitor_names: Iterable = None, env: "Environment" = None):
-        self.pc = _PeriodComponent(pm=self, skip_standby=True, suppress_trace=True)
         self.env = _set_env(env)
+        self.pc = _PeriodComponent(
+            pm=self, skip_standby=True, suppress_trace=True, process="process" if self.env._yieldless else "process_yield", env=self.env
+        )
 
         if periods is None:
             periods = 24 * [1]
-- 
2.43.0


From abfff02401554d3b2978151d33e0aba14561b425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:59 +0000
Subject: [PATCH 43/62] fix: more than one PeriodMonitor for the same monitor

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 447f3c2..7e7dda0 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24591,13 +24591,13 @@ class PeriodMonitor:
                 cum += duration
 
         self.m = parent_monitor
-        if not hasattr(self, "period_monitors"):
+        if not hasattr(self.m, "period_monitors"):
             self.m.period_monitors = []
             self.m.org_tally = self.m.tally
             self.m.tally = types.MethodType(self.new_tally, self.m)
             self.m.org_reset = self.m.reset
             self.m.reset = types.MethodType(self.new_reset, self.m)
-            self.m.period_monitors.append(self)
+        self.m.period_monitors.append(self)
 
         self.iperiod = 0
         if self.m._level:
-- 
2.43.0


From 0791885c22898c0d8700f78ee8ab5e0f149058ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:25 +0000
Subject: [PATCH 44/62] fix: a monitor with a PeriodMonitor accepts
 tally(value=...)

---
 salabim/salabim.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7e7dda0..d3ffd01 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24549,10 +24549,10 @@ class PeriodMonitor:
     """
 
     @staticmethod
-    def new_tally(self, x, weight=1):
+    def new_tally(self, value, weight=1):
         for m in self.period_monitors:
-            m.perperiod[m.iperiod].tally(x, weight)
-        self.org_tally(x, weight)
+            m.perperiod[m.iperiod].tally(value, weight)
+        self.org_tally(value, weight)
 
     @staticmethod
     def new_reset(self, monitor=None, stats_only=None):
-- 
2.43.0


From f1d7ef963a47de81bbe85bdb1cd770ae440a6d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:58:25 +0000
Subject: [PATCH 45/62] fix: PeriodMonitor registers from the moment it is made

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d3ffd01..9ff5e7b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24604,6 +24604,7 @@ class PeriodMonitor:
             self.perperiod = [Monitor(name=period_monitor_name, level=True, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
         else:
             self.perperiod = [Monitor(name=period_monitor_name, monitor=False, env=self.env) for period_monitor_name in period_monitor_names]
+        self.pc.start_period(0)
 
 
 class AudioClip:
-- 
2.43.0


From cd7250e3e34835cf63045b9e1d9c608e0aa912ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 46/62] fix: is_removed() of an animation object over 3d raised
 AttributeError

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9ff5e7b..02cbe63 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -15465,7 +15465,7 @@ class Animate2dBase(DynamicClass):
 
     def is_removed(self):
         if self.over3d:
-            return self not in self.env.an_over3d_objects
+            return self not in self.env.an_objects_over3d
         else:
             return self not in self.env.an_objects
 
-- 
2.43.0


From 54d297feb1501aad484e66309a6dbaf22fc38023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:44 +0000
Subject: [PATCH 47/62] fix: AnimateMonitor.is_removed() was inverted

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 02cbe63..0876a5b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4059,7 +4059,7 @@ class AnimateMonitor(DynamicClass):
         self.env.sys_objects.discard(self)
 
     def is_removed(self) -> bool:
-        return self in self.env.sys_objects
+        return self not in self.env.sys_objects
 
 
 if Pythonista:
-- 
2.43.0


From 0195359f353b3d0ecf85701fbdfe2f99385b6580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:59 +0000
Subject: [PATCH 48/62] fix: AnimateMonitor and AnimateQueue draw in the
 environment of their monitor or queue

---
 salabim/salabim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 0876a5b..300bafe 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3818,6 +3818,7 @@ class AnimateMonitor(DynamicClass):
             layer=lambda: self.layer_t + 0.2,  # to make it appear behind label lines and plot line/points
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.ao_frame_line = AnimateRectangle(
             spec=lambda: (0, 0, self.width_t, self.height_t),
@@ -3833,6 +3834,7 @@ class AnimateMonitor(DynamicClass):
             layer=lambda: self.layer_t,
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.ao_text = AnimateText(
             text=lambda t: self.title(t),
@@ -3849,6 +3851,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_line = AnimateLine(
@@ -3865,6 +3868,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_now_line = AnimateLine(
@@ -3879,6 +3883,7 @@ class AnimateMonitor(DynamicClass):
             over3d=self.over3d,
             visible=lambda: self.visible_t,
             screen_coordinates=self.screen_coordinates,
+            env=self.env,
         )
 
         self.ao_label_texts = []
@@ -3987,8 +3992,8 @@ class AnimateMonitor(DynamicClass):
                 ao_label_line.remove()
             else:
                 if ao_label_text is None:
-                    ao_label_text = AnimateText(screen_coordinates=self.screen_coordinates)
-                    ao_label_line = AnimateLine(screen_coordinates=self.screen_coordinates)
+                    ao_label_text = AnimateText(screen_coordinates=self.screen_coordinates, over3d=self.over3d, env=self.env)
+                    ao_label_line = AnimateLine(screen_coordinates=self.screen_coordinates, over3d=self.over3d, env=self.env)
                     self.ao_label_texts.append(ao_label_text)
                     self.ao_label_lines.append(ao_label_line)
                 ao_label_text.text = str(label)
@@ -18329,6 +18334,7 @@ class AnimateQueue(DynamicClass):
             layer=lambda t: self.layer(t),
             over3d=self.over3d,
             visible=lambda: self.visible_t,
+            env=self.env,
         )
         self.show()
 
-- 
2.43.0


From af21c87af740bd57ceae1732a10df77d0a5ab108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:22 +0000
Subject: [PATCH 49/62] fix: default object in a function shared by several
 animation objects refers to each of them

---
 salabim/salabim.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 300bafe..9d8244a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3461,8 +3461,10 @@ class DynamicClass:
             if inspect.isfunction(c):
                 nargs = c.__code__.co_argcount
                 if c.__defaults__ is not None:
-                    c.__defaults__ = tuple(self if x is object else x for x in c.__defaults__)  # indicate that object refers to animation object itself
                     nargs -= len(c.__defaults__)
+                    if any(x is object for x in c.__defaults__):  # indicate that object refers to animation object itself
+                        defaults = tuple(self if x is object else x for x in c.__defaults__)
+                        c = types.FunctionType(c.__code__, c.__globals__, c.__name__, defaults, c.__closure__)
 
                 if nargs == 0:
                     return lambda t: c()
@@ -3490,8 +3492,10 @@ class DynamicClass:
             if inspect.isfunction(c):
                 nargs = c.__code__.co_argcount
                 if c.__defaults__ is not None:
-                    c.__defaults__ = tuple(self if x is object else x for x in c.__defaults__)  # indicate that object refers to animation object itself
                     nargs -= len(c.__defaults__)
+                    if any(x is object for x in c.__defaults__):  # indicate that object refers to animation object itself
+                        defaults = tuple(self if x is object else x for x in c.__defaults__)
+                        c = types.FunctionType(c.__code__, c.__globals__, c.__name__, defaults, c.__closure__)
                 if nargs == 0:
                     return c()
                 if nargs == 1:
-- 
2.43.0


From cf4f09c2f53dfe7303679a28e07399150e123475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:22 +0000
Subject: [PATCH 50/62] fix: AnimateMonitor scrolls correctly after reset_now

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9d8244a..3c096ee 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3967,7 +3967,7 @@ class AnimateMonitor(DynamicClass):
         self.linewidth_t = self.linewidth(t)
         self.t_start = self._monitor.start
         self.width_div_horizontal_scale_t = self.width_t / self.horizontal_scale_t
-        self.displacement_t = self.width_div_horizontal_scale_t - (t - self.t_start)
+        self.displacement_t = self.width_div_horizontal_scale_t - (t + self._monitor.env._offset - self.t_start)
 
         labels = []
         label_ys = []
-- 
2.43.0


From fb388c3c033e3599ae37949476fde9b080777956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:12 +0000
Subject: [PATCH 51/62] fix: Animate3dBase.is_removed() was inverted

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3c096ee..452c899 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5918,7 +5918,7 @@ class Animate3dBase(DynamicClass):
         self.env.an_objects3d.discard(self)
 
     def is_removed(self) -> bool:
-        return self in self.env.an_objects3d
+        return self not in self.env.an_objects3d
 
 
 class _Movement:
-- 
2.43.0


From b510473ec27d2b328ea270d577de16e9d5639978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:12 +0000
Subject: [PATCH 52/62] fix: Animate3dQueue honors visible

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 452c899..b3cb46a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -18619,11 +18619,12 @@ class Animate3dQueue(DynamicClass):
         if direction not in ("x+ x- y+ y- z+ z-").split():
             raise ValueError(f"direction {direction} not recognized")
 
+        visible = self.visible(t)
         reverse = self.reverse(t)
 
         n = 0
         for c in reversed(self._queue) if reverse else self._queue:
-            if (max_length is not None) and n >= max_length:
+            if ((max_length is not None) and n >= max_length) or not visible:
                 break
             if c not in prev_aos:
                 nargs = c.animation3d_objects.__code__.co_argcount
-- 
2.43.0


From 251fd3700c671badaa720c5bb9d17b5a11aac122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:32 +0000
Subject: [PATCH 53/62] fix: Animate3dQueue can be shown again after remove

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b3cb46a..16570e7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -18684,6 +18684,7 @@ class Animate3dQueue(DynamicClass):
         for animation_objects in self.current_aos.values():
             for ao in animation_objects[3:]:
                 ao.remove()
+        self.current_aos = {}
         self.env.sys_objects.discard(self)
 
     def is_removed(self):
-- 
2.43.0


From 5c1e0ecc33e8fcbd167fc3a4dc5e7450be0deaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:57 +0000
Subject: [PATCH 54/62] fix: AnimateQueue.show() on a shown queue duplicated
 its members

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 16570e7..4556474 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -18457,7 +18457,6 @@ class AnimateQueue(DynamicClass):
         """
         self.ao_title.show()
         self.env.sys_objects.add(self)
-        self.current_aos = {}
 
     def remove(self):
         self.env.sys_objects.discard(self)
@@ -18465,6 +18464,7 @@ class AnimateQueue(DynamicClass):
         for animation_objects in self.current_aos.values():
             for ao in animation_objects[2:]:
                 ao.remove()
+        self.current_aos = {}
 
     def is_removed(self):
         return self not in self.env.sys_objects
-- 
2.43.0


From 79dbc9e9556434d91d1aefaeddba868f8ab9d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:49:53 +0000
Subject: [PATCH 55/62] fix: print_histogram of given values for a weighted
 monitor without (non zero) entries

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4556474..d7f3a6f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2620,7 +2620,7 @@ class Monitor:
                             + fn(count, 14, 3)
                             + fn(perc * 100, 6, 1)
                             + rpad(str(count_entries), 8)
-                            + fn(count_entries * 100 / nentries, 6, 1)
+                            + fn(count_entries * 100 / (nentries if nentries else 1), 6, 1)
                         )
                     else:
                         result.append(pad(str(value_label), 20) + rpad(str(count), 7) + fn(perc * 100, 6, 1) + " " + s)
-- 
2.43.0


From f695f68c2589525e28bc10339ff15215529ec011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:53 +0000
Subject: [PATCH 56/62] fix: print_histogram of given values with ex0 excludes
 zeros

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d7f3a6f..33c1494 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2597,6 +2597,8 @@ class Monitor:
                 values_label.append("<rest>")
 
             for value_condition, value_label in zip(values_condition, values_label):
+                if ex0:
+                    value_condition = [v for v in value_condition if v != 0]
                 if self._level:
                     count = self.value_duration(value_condition)
                 else:
-- 
2.43.0


From 206aba32abb63c339254ccd032b71db2e0ab36c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:47 +0000
Subject: [PATCH 57/62] fix: Monitor.t() takes a reset of the clock into
 account

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 33c1494..497a4cd 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1102,7 +1102,7 @@ class Monitor:
         t is available even if the monitor is turned off
         """
         if self._level:
-            return self._ttally
+            return self._ttally - self.env._offset
         raise TypeError("non level monitors are not supported")
 
     def reset_monitors(self, monitor: bool = None, stats_only: bool = None) -> None:
-- 
2.43.0


From 432b3c2d779f25c8c7d9877e5304a209f61e7a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:14 +0000
Subject: [PATCH 58/62] fix: suppress_trace() restores the trace when its block
 raises an exception

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 497a4cd..5d0862f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13257,8 +13257,10 @@ class Environment:
         """
         save_trace = self._trace
         self._trace = False
-        yield
-        self._trace = save_trace
+        try:
+            yield
+        finally:
+            self._trace = save_trace
 
     def suppress_trace_linenumbers(self, value: bool = None) -> bool:
         """
-- 
2.43.0


From 432118a410d277c59ad73336402ece3d64e8d93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:44 +0000
Subject: [PATCH 59/62] fix: base_name() of an object with a name that is not
 serialized is not affected by a rename

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5d0862f..ea53066 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25183,6 +25183,7 @@ def _set_name(name, _nameserialize, object):
         object._sequence_number = sequence_number
     else:
         object._name = name
+        object._base_name = name
 
 
 def _check_overlapping_parameters(obj, method_name0, method_name1, process=None):
-- 
2.43.0


From 1c0275756a070c1bbf62310a2624709010ca4f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:44 +0000
Subject: [PATCH 60/62] fix: renaming a queue renames all its monitors, to the
 names they have at creation

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index ea53066..d4a84e2 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4830,7 +4830,9 @@ class Queue:
         if value is not None:
             self._name = value
             self.length.name("Length of " + self.name())
-            self.length_of_stay.name("Length of stay of " + self.name())
+            self.length_of_stay.name("Length of stay in " + self.name())
+            self.capacity.name("Capacity of " + self.name())
+            self.available_quantity.name("Available quantity of " + self.name())
         return self._name
 
     def rename(self, value: str = None) -> "Queue":
-- 
2.43.0


From 82c298a39563c01b3e45f43fa4869d2e47e7d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:47 +0000
Subject: [PATCH 61/62] fix: name of the claimed quantity monitor after
 renaming a resource

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d4a84e2..dde8af3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24489,7 +24489,7 @@ class Resource:
             self._requesters.name("requesters of " + value)
             self._claimers.name("claimers of " + value)
             self.capacity.name("Capacity of " + value)
-            self.claimed_quantity.name("Clamed quantity of " + value)
+            self.claimed_quantity.name("Claimed quantity of " + value)
             self.available_quantity.name("Available quantity of " + value)
             self.occupancy.name("Occupancy of " + value)
 
-- 
2.43.0


From 7d25cd2b6067110c4076399148af62fbe25993bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:47 +0000
Subject: [PATCH 62/62] fix: names of the requester queues of a store with a
 serialized or default name

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index dde8af3..218f721 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5744,9 +5744,9 @@ class Store(Queue):
         super().__init__(name=name, monitor=monitor, fill=None, capacity=capacity, env=env, *args, **kwargs)
 
         with self.env.suppress_trace():
-            self._to_store_requesters = Queue(f"{name}.to_store_requesters", env=env)
+            self._to_store_requesters = Queue(f"{self.name()}.to_store_requesters", env=env)
             self._to_store_requesters._isinternal = True
-            self._from_store_requesters = Queue(f"{name}.from_store_requesters", env=env)
+            self._from_store_requesters = Queue(f"{self.name()}.from_store_requesters", env=env)
             self._from_store_requesters._isinternal = True
 
             if fill is not None:  # this cannot be done by Queue.__init__ as the requesters are not defined at that time
-- 
2.43.0

