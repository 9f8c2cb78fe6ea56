From cf80cc6bc03e1d08ada9e14f2fed644db31a36e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 01/53] fix: store requesters leave their queues before items
 move (endless recursion)

---
 salabim/salabim.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4641412..f26e6bc 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4247,10 +4247,10 @@ class Qmember:
             store = q
             for requester in store._from_store_requesters:
                 if requester._from_store_filter(c):
-                    c.leave(store)
                     for store0 in requester._from_stores:
                         requester.leave(store0._from_store_requesters)
                     requester._from_stores = []
+                    c.leave(store)
                     requester._from_store_item = c
                     requester._from_store_store = store
                     requester._remove()
@@ -9787,16 +9787,17 @@ by adding:
             if available_quantity > 0:
                 if len(store._to_store_requesters) > 0:
                     requester = store._to_store_requesters[0]
-                    with self.env.suppress_trace():
-                        requester._to_store_item.enter_sorted(q, requester._to_store_priority)
+                    item = requester._to_store_item
                     for store0 in requester._to_stores:
                         requester.leave(store0._to_store_requesters)
                     requester._to_stores = []
+                    requester._to_store_item = None
+                    requester._to_store_store = store
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-                    requester._to_store_item = None
-                    requester._to_store_store = store
+                    with self.env.suppress_trace():
+                        item.enter_sorted(q, requester._to_store_priority)
         return self
 
     def priority(self, q: "Queue", priority: float = None) -> float:
-- 
2.43.0


From 1e13870a325c68a85348339b9d143ecb3b3c66b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 02/53] fix: from_store with key takes the item out of the
 store it was found in

---
 salabim/salabim.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f26e6bc..5f334e4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8232,14 +8232,17 @@ by adding:
                         this_key = key(c)
                         if found_key is None or this_key < found_key:
                             found_c = c
+                            found_store = store
                             found_key = this_key
                     else:
                         found_c = c
+                        found_store = store
                         done = True
                         break
             if done:
                 break
         if found_c:
+            store = found_store
             found_c.leave(store)
             self._from_store_item = found_c
             self._from_store_store = store
-- 
2.43.0


From 9efdf64d9dcf7ef7d47ba7cedf72fd985d2d99f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 03/53] fix: Store.rescan hands out only one item per requester

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 5f334e4..2846fbb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5788,6 +5788,7 @@ class Store(Queue):
                     c._remove()
                     c.status._value = scheduled
                     c._reschedule(c.env._now, 0, False, f"from_store ({self.name()}) honor with {item.name()}", False, s0=c.env.last_s0, return_value=item)
+                    break
 
     def _rescan_to(self):
         """
-- 
2.43.0


From c087d0e264133cf631c7fb3de5c3a88b5ea40084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 04/53] fix: preemptive request only bumps when it can be
 honored

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2846fbb..55e7f74 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8650,7 +8650,7 @@ by adding:
                         break
                     av += c.claimed_quantity(this_claimers)
                     bump_candidates.append(c)
-                if av >= 0:
+                if av >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
-- 
2.43.0


From a35463e62ee37c680787fc026c3fb0f08e81e83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 05/53] fix: wait (any) evaluates $ expressions on the state's
 value

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 55e7f74..8228795 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9269,7 +9269,7 @@ by adding:
                             honored = True
                             break
                     elif valuetype == 1:
-                        if eval(value.replace("$", str(state._value))):
+                        if eval(value.replace("$", "state._value")):
                             honored = True
                             break
                     elif valuetype == 2:
-- 
2.43.0


From 8eaa7d5c7c91ede6c4c396a8fa3f4695316037b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 06/53] fix: pending standby components are not lost when
 standby is skipped

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8228795..57d7e8e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11191,7 +11191,7 @@ class Environment:
                                 return
 
             if len(self.env._standbylist) > 0:
-                self._pendingstandbylist = list(self.env._standbylist)
+                self._pendingstandbylist = self.env._pendingstandbylist + self.env._standbylist
                 self.env._standbylist = []
 
             if self._event_list:
-- 
2.43.0


From fd8e9c2fdc7544523e14848a42d2203dc36a5ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:41 +0000
Subject: [PATCH 07/53] fix: initial occupancy reflects
 initial_claimed_quantity

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 57d7e8e..656b517 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24056,7 +24056,8 @@ class Resource:
             "Available quantity of " + self.name(), level=True, initial_tally=capacity - initial_claimed_quantity, monitor=monitor, type="float", env=self.env
         )
 
-        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=0, monitor=monitor, type="float", env=self.env)
+        initial_occupancy = 0 if capacity <= 0 else initial_claimed_quantity / capacity
+        self.occupancy = _SystemMonitor("Occupancy of " + self.name(), level=True, initial_tally=initial_occupancy, monitor=monitor, type="float", env=self.env)
         if self.env._trace:
             self.env.print_trace("", "", self.name() + " create", "capacity=" + str(self._capacity) + (" anonymous" if self._anonymous else ""))
         self.setup(**kwargs)
-- 
2.43.0


From 4c4d53dd36ece1dae863b8675b2fd2d641bf4eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 08/53] fix: peek honors reset_now

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 656b517..7873254 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4098,7 +4098,7 @@ if Pythonista:
                             env._t = env.animation_start_time
                         else:
                             env._t = env.animation_start_time + ((time.time() - env.animation_start_clocktime) * env._speed)
-                    while (env.peek() < env._t) and env.running and env._animate:
+                    while (env.peek() + env._offset < env._t) and env.running and env._animate:
                         env.step()
 
                 else:
@@ -13107,13 +13107,13 @@ class Environment:
         Only for advance use with animation / GUI event loops
         """
         if len(self.env._pendingstandbylist) > 0:
-            return self.env._now
+            return self.env._now - self._offset
         else:
             if self._event_list:
-                return self._event_list[0][0]
+                return self._event_list[0][0] - self._offset
             else:
                 if self.end_on_empty_eventlist:
-                    return self._now
+                    return self._now - self._offset
                 else:
                     return inf
 
@@ -13469,7 +13469,7 @@ class Environment:
                         self._t = self.animation_start_time
                     else:
                         self._t = self.animation_start_time + ((time.time() - self.animation_start_clocktime) * self._speed)
-                while self.peek() < self._t:
+                while self.peek() + self._offset < self._t:
                     self.step()
                     if not (self.running and self._animate):
                         if self.root is not None:
-- 
2.43.0


From da47c6b707429ba472a3ababd9ab6cac422134c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 09/53] fix: trigger with max=0 does not honor any component

---
 salabim/salabim.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7873254..b2165bb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23801,13 +23801,11 @@ class State:
 
     def _trywait(self, max=inf):  # this _trywait of a state
         mx = self._waiters._head.successor
-        while mx != self._waiters._tail:
+        while mx != self._waiters._tail and max > 0:
             c = mx.component
             mx = mx.successor
             if c._trywait():
                 max -= 1
-                if max == 0:
-                    return
 
     def monitor(self, value: bool = None) -> None:
         """
-- 
2.43.0


From a39ec710a78bc6c07f8d773bfa1d5d3150e7ec3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:19 +0000
Subject: [PATCH 10/53] fix: requesters are retried when another requester
 leaves (lost honors)

---
 salabim/salabim.py | 51 ++++++++++++++++++++--------------------------
 1 file changed, 22 insertions(+), 29 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b2165bb..6886f0d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -7466,7 +7466,7 @@ by adding at the end:
                 seq = self.env._seq
             self._on_event_list = True
             heapq.heappush(self.env._event_list, (t, priority, seq, self, return_value))
-        if self.env._yieldless:
+        if self.env._yieldless and switch:
             if self is self.env._current_component:
                 self.env._glet.switch()
 
@@ -7490,12 +7490,16 @@ by adding at the end:
         if self._requests:
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), "request failed")
-            for r in list(self._requests):
+            resources = list(self._requests)
+            for r in resources:
                 self.leave(r._requesters)
                 if r._requesters._length == 0:
                     r._minq = inf
             self._requests = collections.OrderedDict()
             self._failed = True
+            for r in resources:
+                if r._honor_only_first or r._honor_only_highest_priority:
+                    r._tryrequest()  # another requester may now be the first (or have the highest priority)
 
         if self._waits:
             if self.env._trace:
@@ -7522,7 +7526,7 @@ by adding at the end:
             self._to_stores = []
             self._failed = True
 
-    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None):
+    def _reschedule(self, scheduled_time, priority, urgent, caller, cap_now, extra="", s0=None, return_value=None, switch=True):
         if scheduled_time < self.env._now:
             if cap_now is None:
                 cap_now = g._default_cap_now
@@ -7549,7 +7553,7 @@ by adding at the end:
                 merge_blanks(scheduled_time_str + _prioritytxt(priority) + _urgenttxt(urgent) + lineno, self._modetxt(), extra),
                 s0=s0,
             )
-        self._push(scheduled_time, priority, urgent, return_value)
+        self._push(scheduled_time, priority, urgent, return_value, switch)
 
     def activate(
         self,
@@ -8760,10 +8764,10 @@ by adding:
             r_honor = self.honor_all()
 
         if r_honor:
-            anonymous_resources = []
+            retry_resources = []
             for r in list(self._requests):
-                if r._anonymous:
-                    anonymous_resources.append(r)
+                if r._anonymous or r._preemptive or r._honor_only_first or r._honor_only_highest_priority:
+                    retry_resources.append(r)
                 if r in r_honor:
                     r._claimed_quantity += self._requests[r]
                     this_prio = self.priority(r._requesters)
@@ -8791,9 +8795,11 @@ by adding:
             self._remove()
             honoredstr = r_honor[0].name() + (len(r_honor) > 1) * " ++"
             self.status._value = scheduled
-            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
-            for r in anonymous_resources:
+            self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0, switch=False)
+            for r in retry_resources:
                 r._tryrequest()
+            if self.env._yieldless and self is self.env._current_component:
+                self.env._glet.switch()
             return True
         else:
             return False
@@ -24323,37 +24329,24 @@ class Resource:
 
     def _tryrequest(self):
         # this is Resource._tryrequest
-        if self._anonymous:
-            if not self._trying:
-                self._trying = True
-                mx = mx_first = self._requesters._head.successor
-                mx_first_priority = mx_first.priority
-                while mx != self._requesters._tail:
-                    if self._honor_only_first and mx != mx_first:
-                        break
-                    if self._honor_only_highest_priority and mx.priority != mx_first_priority:
-                        break
-                    c = mx.component
-                    mx = mx.successor
-                    c._tryrequest()
-                    if c not in self._requesters:
-                        mx = self._requesters._head.successor  # start again
-
-                self._trying = False
-        else:
+        if not self._trying:
+            self._trying = True
             mx = mx_first = self._requesters._head.successor
             mx_first_priority = mx_first.priority
-
             while mx != self._requesters._tail:
                 if self._honor_only_first and mx != mx_first:
                     break
                 if self._honor_only_highest_priority and mx.priority != mx_first_priority:
                     break
-                if self._minq > (self._capacity - self._claimed_quantity + 1e-8):
+                if not self._anonymous and self._minq > (self._capacity - self._claimed_quantity + 1e-8):
                     break  # inpossible to honor any more requests
                 c = mx.component
                 mx = mx.successor
                 c._tryrequest()
+                if c not in self._requesters:
+                    mx = mx_first = self._requesters._head.successor  # start again
+                    mx_first_priority = mx_first.priority
+            self._trying = False
 
     def release(self, quantity: float = None) -> None:
         """
-- 
2.43.0


From ccabc9c686d337f35acfe67247ddf794aa5aea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 11/53] fix: a resource specified more than once in a request
 is summed

---
 salabim/salabim.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6886f0d..d7b1d30 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8639,7 +8639,8 @@ by adding:
             if self.oneof_request:
                 addstring += " (oneof)"
 
-            self.enter(r._requesters, priority)
+            if self._member(r._requesters) is None:
+                self.enter(r._requesters, priority)
             if self.env._trace:
                 self.env.print_trace("", "", self.name(), req_text + r.name() + addstring)
 
-- 
2.43.0


From 62b4ce9cb584fa72f1fa50d82cb132e8b2bd374c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 12/53] fix: preemptive request takes the quantities of bumped
 claimers into account

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d7b1d30..9280039 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8653,7 +8653,7 @@ by adding:
                         break
                     if priority >= c.priority(this_claimers):
                         break
-                    av += c.claimed_quantity(this_claimers)
+                    av += c.claimed_quantity(r)
                     bump_candidates.append(c)
                 if av >= q:
                     for c in bump_candidates:
-- 
2.43.0


From be79eaf4d8f166fd68e4f627d1191f3fa12250a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 13/53] fix: Resource.release does not release components
 honored by that very release

---
 salabim/salabim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9280039..10a8eff 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -24386,10 +24386,7 @@ class Resource:
             if quantity is not None:
                 raise ValueError("no quantity allowed for non-anonymous resource")
 
-            mx = self._claimers._head.successor
-            while mx != self._claimers._tail:
-                c = mx.component
-                mx = mx.successor
+            for c in list(self._claimers):
                 c.release(self)
 
     def requesters(self) -> Queue:
-- 
2.43.0


From b1efa7c43e5163135c82f869af383a87872dd8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:29 +0000
Subject: [PATCH 14/53] fix: request/wait on an interrupted component can be
 honored immediately

---
 salabim/salabim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 10a8eff..19427a3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8575,6 +8575,8 @@ by adding:
             self._checkisnotmain()
             self._remove()
             self._check_fail()
+            if self.status.value == interrupted:
+                self.status._value = requesting
         if fail_at is None:
             if fail_delay is None:
                 scheduled_time = inf
@@ -8974,6 +8976,8 @@ by adding:
             self._checkisnotmain()
             self._remove()
             self._check_fail()
+            if self.status.value == interrupted:
+                self.status._value = waiting
 
         self._failed = False
 
@@ -9178,6 +9182,8 @@ by adding:
             self._checkisnotmain()
             self._remove()
             self._check_fail()
+            if self.status.value == interrupted:
+                self.status._value = waiting
 
         self._wait_all = all
         self._failed = False
-- 
2.43.0


From e2258e064eba9ba75da962ba56d3611d1fdb030d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:36 +0000
Subject: [PATCH 15/53] fix: wait_for enters the waiters queues with
 request_priority (as documented)

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 19427a3..b52c1f3 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -9003,10 +9003,10 @@ by adding:
         self._cond = cond  # add test ***
         for state in states:
             self._waits.append((state, None, None))
-            if priority is None:
+            if request_priority is None:
                 self.enter(state._waiters)
             else:
-                self.enter_sorted(state._waiters, priority)
+                self.enter_sorted(state._waiters, request_priority)
 
         if not self._waits:
             raise TypeError("no states specified")
-- 
2.43.0


From 42d499ba621dfba0e7bfe51ac987dd41333f8f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:44 +0000
Subject: [PATCH 16/53] fix: peek can be called before the first run (no events
 left)

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b52c1f3..a981244 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10590,6 +10590,7 @@ class Environment:
         self._event_list = []
         self._standbylist = []
         self._pendingstandbylist = []
+        self.end_on_empty_eventlist = False
 
         self.an_objects = set()
         self.an_objects_over3d = set()
-- 
2.43.0


From bc4770317f1c2519e134f2edcb5668e34164dd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:27 +0000
Subject: [PATCH 17/53] fix: slices of monitors: open start, reset_now, end
 beyond now and periods around the start

---
 salabim/salabim.py | 39 +++++++++++++++++----------------------
 1 file changed, 17 insertions(+), 22 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index a981244..6bcd71b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -821,24 +821,22 @@ class Monitor:
             name = self.name() + ".sliced"
         new = _SystemMonitor(level=self._level, type=self.xtype, name=name, env=self.env)
         actions = []
-        if modulo is None:
-            if start is None:
-                start_ = -inf
-            else:
-                start_ = start + self.env._offset
-            start_ = max(start_, self.start)
-            if stop is None:
-                stop = inf
+        t_first = self._t[0] if self._t else self.start
+        t_last = self.env._t if self.env._animate else self.env._now  # not self.now() in order to support frozen monitors
+
+        def add_period(start, stop):
+            start = max(start, t_first)
+            if stop > t_last:
+                stop = t_last
                 stop_action = "z"  # inclusive
             else:
-                stop += self.env._offset
                 stop_action = "b"  # non inclusive
-            if self.env._animate:
-                stop = min(stop, self.env._t)
-            else:
-                stop = min(stop, self.env._now - self.env._offset)  # not self.now() in order to support frozen monitors
-            actions.append((start, "a", 0, 0))
-            actions.append((stop, stop_action, 0, 0))
+            if start <= stop:
+                actions.append((start, "a", 0, 0))
+                actions.append((stop, stop_action, 0, 0))
+
+        if modulo is None:
+            add_period(-inf if start is None else start + self.env._offset, inf if stop is None else stop + self.env._offset)
         else:
             if start is None:
                 raise TypeError("modulo specified, but no start specified. ")
@@ -848,13 +846,10 @@ class Monitor:
                 raise ValueError("stop must be > start")
             if stop - start >= modulo:
                 raise ValueError("stop must be < start + modulo")
-            start_ = start % modulo
-            stop = stop % modulo
-            start1 = self._t[0] - (self._t[0] % modulo) + start_
-            len1 = (stop - start_) % modulo
-            while start1 < self.env._now:
-                actions.append((start1, "a", 0, 0))
-                actions.append((start1 + len1, "b", 0, 0))  # non inclusive
+            len1 = stop - start
+            start1 = t_first - (t_first - (start + self.env._offset)) % modulo
+            while start1 <= t_last:
+                add_period(start1, start1 + len1)
                 start1 += modulo
 
         if new._level:
-- 
2.43.0


From bf5f944bc065a74a73212076e677984046cd3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:27 +0000
Subject: [PATCH 18/53] fix: multiply and x_map keep the weights of non level
 monitors

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6bcd71b..3e2bd5d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -733,6 +733,7 @@ class Monitor:
                 else:
                     new._x.append(func(x))
                 new._t.append(t)
+            new._weight = self._weight[:] if self._weight else False
 
         for m in monitors:
             del m._x_any
@@ -1596,6 +1597,7 @@ class Monitor:
             new.isgenerated = True
             new._x = [x * scale for x in self._x]
             new._t = [t for t in self._t]
+            new._weight = self._weight[:] if self._weight else False
             return new
 
         else:
-- 
2.43.0


From a92a433164ccc35898aacce15da7d9d279dc0699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:27 +0000
Subject: [PATCH 19/53] fix: level monitors of different types can be merged
 when (partly) off

---
 salabim/salabim.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3e2bd5d..44a10e8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -594,7 +594,9 @@ class Monitor:
             curx = [new.off] * len(merge)
             new._t = array.array("d")
             for t, index, x in heapq.merge(*[zip(merge[index]._t, itertools.repeat(index), merge[index]._x) for index in range(len(merge))]):
-                if new.xtypecode:
+                if x == merge[index].off:
+                    curx[index] = new.off
+                elif new.xtypecode:
                     curx[index] = x
                 else:
                     try:
-- 
2.43.0


From c8f0a0eebf0b7c74d57634dec342881bf083dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:27 +0000
Subject: [PATCH 20/53] fix: duration, minimum and maximum of stats_only level
 monitors are up to date

---
 salabim/salabim.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 44a10e8..09bc6eb 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1754,6 +1754,8 @@ class Monitor:
         """
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._minimum[ex0]
             else:
@@ -1780,6 +1782,9 @@ class Monitor:
         """
 
         if self._stats_only:
+            ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             if self.n[ex0]:
                 return self._maximum[ex0]
             else:
@@ -2223,6 +2228,8 @@ class Monitor:
     def sys_weight(self, ex0: bool = False):
         if self._stats_only:
             ex0 = bool(ex0)
+            if self._level:
+                self._tally_add_now()
             return self.sumw[ex0]
         else:
             _, weight = self._xweight(ex0=ex0)
-- 
2.43.0


From ed44f6e71ddd21a32edeb4cdef81a493fd9bb33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:27 +0000
Subject: [PATCH 21/53] fix: turning a level monitor off invalidates its cached
 statistics

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 09bc6eb..4169448 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1328,6 +1328,7 @@ class Monitor:
     def _tally_off(self):
         if self.isgenerated:
             raise TypeError("sliced, merged or frozen monitors cannot be reset")
+        self.cached_xweight.clear()  # invalidate cache
         t = self.env._now
         if self._t[-1] == t:
             self._x[-1] = self.off
-- 
2.43.0


From 34bf22778128411b4401f95e5cbdb3762750f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:27 +0000
Subject: [PATCH 22/53] fix: histograms with ex0 exclude zeroes from the bins

---
 salabim/salabim.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4169448..beac8a8 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -2044,8 +2044,8 @@ class Monitor:
             raise TypeError("bin_duration not available for non level monitors")
         return self.sys_bin_weight(lowerbound, upperbound)
 
-    def sys_bin_weight(self, lowerbound, upperbound):
-        x, weight = self._xweight()
+    def sys_bin_weight(self, lowerbound, upperbound, ex0=False):
+        x, weight = self._xweight(ex0=ex0)
         return sum((vweight for vx, vweight in zip(x, weight) if (vx > lowerbound) and (vx <= upperbound)))
 
     def value_number_of_entries(self, value: Any) -> int:
@@ -2660,9 +2660,9 @@ class Monitor:
                     else:
                         ub = lowerbound + (i + 1) * bin_width
                     if self._weight:
-                        count = self.sys_bin_weight(lb, ub)
+                        count = self.sys_bin_weight(lb, ub, ex0=ex0)
                     else:
-                        count = self.bin_number_of_entries(lb, ub)
+                        count = self.bin_number_of_entries(lb, ub, ex0=ex0)
 
                     perc = count / (weight_total if weight_total else 1)
                     if weight_total == inf:
-- 
2.43.0


From 1d87e38c0ae527cf138e09d91c513956ef355b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:32 +0000
Subject: [PATCH 23/53] fix: as_resampled_dataframe recognizes the off value of
 each monitor

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index beac8a8..cd4498c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3331,7 +3331,7 @@ class Monitor:
                         x_next, t_next = next(xt_iter)
                     except StopIteration:
                         t_next = inf
-                new_x.append(pd.NA if x_last == self.off else x_last)
+                new_x.append(pd.NA if x_last == mon.off else x_last)
             df[f"{mon.name()}.x"] = new_x
         return df
 
-- 
2.43.0


From 16db95b34d483bf9aaaa3b01fb3b39e0fc87c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:22 +0000
Subject: [PATCH 24/53] fix: slices of sliced, merged and mapped level monitors
 start at their first entry

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cd4498c..07356df 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -862,7 +862,7 @@ class Monitor:
                 new._x = []
             new._t = array.array("d")
             curx = new.off
-            new._t.append(self.start)
+            new._t.append(t_first)
             new._x.append(curx)
 
         enabled = False
-- 
2.43.0


From 196a27662bf734504e9b0855c534767ff45d5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 25/53] fix: slices do not extend a value over a period in
 which the monitor was off

---
 salabim/salabim.py | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 07356df..9b88819 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -896,33 +896,24 @@ class Monitor:
                     enabled = True
                     if new._t[-1] == t:
                         new._x[-1] = curx
-                    else:
-                        if new._x[-1] == curx:
-                            new._t[-1] = t
-                        else:
-                            new._t.append(t)
-                            new._x.append(curx)
+                    elif new._x[-1] != curx:
+                        new._t.append(t)
+                        new._x.append(curx)
                 elif type in ("b", "z"):
                     enabled = False
                     if new._t[-1] == t:
                         new._x[-1] = self.off
-                    else:
-                        if new._x[-1] == self.off:
-                            new._t[-1] = t
-                        else:
-                            new._t.append(t)
-                            new._x.append(self.off)
+                    elif new._x[-1] != self.off:
+                        new._t.append(t)
+                        new._x.append(self.off)
                 else:
                     if enabled:
                         if curx != x:
                             if new._t[-1] == t:
                                 new._x[-1] = x
-                            else:
-                                if x == new._x[-1]:
-                                    new._t[-1] = t
-                                else:
-                                    new._t.append(t)
-                                    new._x.append(x)
+                            elif new._x[-1] != x:
+                                new._t.append(t)
+                                new._x.append(x)
                     curx = x
             else:
                 if type == "a":
-- 
2.43.0


From 37785a1999973b1fa3d6f1bddb931361aa3919a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 26/53] fix: x_map accepts a monitor more than once

---
 salabim/salabim.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9b88819..410ec54 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -701,17 +701,14 @@ class Monitor:
 
         new = _SystemMonitor(name=name, type="any", level=self._level, env=self.env)
 
-        for m in monitors:
-            m._x_any = []
-            for x in m._x:
-                m._x_any.append(new.off if x == m.off else x)
+        x_any = [[new.off if x == m.off else x for x in m._x] for m in monitors]
 
         if new._level:
             new._x = []
 
             curx = [new.off] * len(monitors)
             new._t = array.array("d")
-            for t, index, x in heapq.merge(*[zip(monitors[index]._t, itertools.repeat(index), monitors[index]._x_any) for index in range(len(monitors))]):
+            for t, index, x in heapq.merge(*[zip(monitors[index]._t, itertools.repeat(index), x_any[index]) for index in range(len(monitors))]):
                 curx[index] = x
 
                 if any(val == new.off for val in curx):
@@ -729,7 +726,7 @@ class Monitor:
             new._x = []
             new._t = array.array("d")
 
-            for x, t in zip(monitors[0]._x_any, monitors[0]._t):
+            for x, t in zip(x_any[0], monitors[0]._t):
                 if x == new.off:
                     new._x.append(new.off)
                 else:
@@ -737,9 +734,6 @@ class Monitor:
                 new._t.append(t)
             new._weight = self._weight[:] if self._weight else False
 
-        for m in monitors:
-            del m._x_any
-
         new.monitor(False)
         new.isgenerated = True
         return new
-- 
2.43.0


From c62969f33e824263a056d0f19ab2a35170991f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 27/53] fix: statistics of stats_only level monitors can always
 be printed

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 410ec54..9db1d4c 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -1153,7 +1153,7 @@ class Monitor:
             self._maximum = [-inf] * 2
             if self._level:
                 self._ttally_monitored = self.env._now
-            self._weight = False
+            self._weight = self._level
 
         else:
             if self.xtypecode:
-- 
2.43.0


From 012fd9f99846a27a59c12b41b7a5b2416aa6519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:12 +0000
Subject: [PATCH 28/53] fix: Queue.append honors priority (as documented)

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9db1d4c..2c21a52 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4903,7 +4903,7 @@ class Queue:
 
         This method is equivalent to add()
         """
-        component.enter(self)
+        component.enter(self, priority)
         return self
 
     def add_at_head(self, component: "Component") -> "Queue":
-- 
2.43.0


From ff96d2f4fb5f580bfeb0b9594e9f6a26cc21bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:12 +0000
Subject: [PATCH 29/53] fix: Queue.insert at the end keeps the queue sorted on
 priority

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2c21a52..8af5544 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4981,7 +4981,7 @@ class Queue:
                 break
             count = count + 1
             mx = mx.successor
-        priority = mx.priority
+        priority = mx.priority if mx != self._tail else mx.predecessor.priority
         Qmember().insert_in_front_of(mx, component, self, priority)
         return self
 
-- 
2.43.0


From 6d33e2b7ef4fdcdedb166f3d6c9e51252273715a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:12 +0000
Subject: [PATCH 30/53] fix: Queue.copy with copy_capacity sets the available
 quantity

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 8af5544..25e7ba7 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5654,7 +5654,7 @@ class Queue:
                 name = "copy of " + self.name()
             q1 = type(self)(name=name, monitor=monitor, env=self.env)
             if copy_capacity:
-                q1.capacity._tally = self.capacity._tally
+                q1.set_capacity(self.capacity._tally)
             mx = self._head.successor
             while mx != self._tail:
                 Qmember().insert_in_front_of(q1._tail, mx.component, q1, mx.priority)
-- 
2.43.0


From 4ea771eae2a6d022c75e4143107f824ac52e78ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 31/53] fix: ComponentGenerator used internal times as if they
 were shown times (wrong moments after reset_now)

---
 salabim/salabim.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 25e7ba7..636727e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20489,7 +20489,7 @@ class ComponentGenerator(Component):
                 )
             if callable(moments):
                 moments = moments()
-            moments = sorted([env.spec_to_time(moment) for moment in moments])
+            moments = sorted([env.spec_to_time(moment) + env._offset for moment in moments])
 
         self.component_class = component_class
         self.iat = iat
@@ -20591,6 +20591,8 @@ class ComponentGenerator(Component):
                         process = "do_iat_yieldless" if env._yieldless else "do_iat"
         self.kwargs = kwargs
 
+        if at is not None:
+            at -= env._offset
         super().__init__(name=generator_name, env=env, process=process, at=at, suppress_trace=suppress_trace, suppress_pause_at_step=suppress_pause_at_step)
 
     def do_spread(self):
@@ -20627,9 +20629,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance(self):
         n = 0
@@ -20651,19 +20653,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            yield self.hold(till=t)
+            yield self.hold(till=t - self.env._offset)
 
     def do_spread_yieldless(self):
         for interval in self.intervals:
@@ -20699,9 +20701,9 @@ class ComponentGenerator(Component):
             else:
                 t = self.env._now + self.iat
             if t > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_iat_disturbance_yieldless(self):
         n = 0
@@ -20723,19 +20725,19 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till)
+                self.activate(process="do_finalize", at=self.till - self.env._offset)
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
-            component_class(at=at, **self.kwargs)
+            component_class(at=at - self.env._offset, **self.kwargs)
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
                 return
             t = self.env._now + iat
 
-            self.hold(till=t)
+            self.hold(till=t - self.env._offset)
 
     def do_finalize(self):
         self.env.print_trace("", "", "till reached")
-- 
2.43.0


From 10958f9b4b6bee496c09dd20dc351caa917a10b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 32/53] fix: ComponentGenerator with random spread ignored
 duration and a sampled number

---
 salabim/salabim.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 636727e..f86a635 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20535,20 +20535,20 @@ class ComponentGenerator(Component):
         else:
             if (self.iat is None and not equidistant) or moments:
                 if not moments:
-                    if till == inf or self.number == inf:
+                    if self.till == inf or self.number == inf:
                         raise ValueError("iat not specified --> till and number need to be specified")
                     if disturbance is not None:
                         raise ValueError("iat not specified --> disturbance not allowed")
 
-                    moments = sorted([Uniform(at, till)() for _ in range(self.number)])
+                    moments = sorted([Uniform(at, self.till)() for _ in range(self.number)])
                     if force_at or force_till:
-                        if number == 1:
+                        if self.number == 1:
                             if force_at and force_till:
                                 raise ValueError("force_at and force_till does not allow number=1")
-                            moments = [at] if force_at else [till]
+                            moments = [at] if force_at else [self.till]
                         else:
                             v_at = at if force_at else moments[0]
-                            v_till = till if force_till else moments[-1]
+                            v_till = self.till if force_till else moments[-1]
                             min_moment = moments[0]
                             max_moment = moments[-1]
                             moments = [interpolate(moment, min_moment, max_moment, v_at, v_till) for moment in moments]
-- 
2.43.0


From 809b1de3ef74ae22ca9bd6157b9061c762b986fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 33/53] fix: ComponentGenerator with disturbance did not call
 at_end when number was reached

---
 salabim/salabim.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index f86a635..3ecaab5 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20662,6 +20662,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
@@ -20734,6 +20735,7 @@ class ComponentGenerator(Component):
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
+                self.at_end()
                 return
             t = self.env._now + iat
 
-- 
2.43.0


From 4f8edb021c7fc9f4f39896cdc271330aec9bfede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:51 +0000
Subject: [PATCH 34/53] fix: ComponentGenerator with disturbance created the
 components in the default environment instead of its own

---
 salabim/salabim.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 3ecaab5..4754152 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20654,11 +20654,14 @@ class ComponentGenerator(Component):
                 at = self.env._now + iat + disturbance
             if at > self.till:
                 yield self.activate(process="do_finalize", at=self.till - self.env._offset)
+            save_default_env = g.default_env
+            g.default_env = self.env
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
@@ -20727,11 +20730,14 @@ class ComponentGenerator(Component):
                 at = self.env._now + iat + disturbance
             if at > self.till:
                 self.activate(process="do_finalize", at=self.till - self.env._offset)
+            save_default_env = g.default_env
+            g.default_env = self.env
             if isinstance(self.component_class, _Distribution):
                 component_class = self.component_class()
             else:
                 component_class = self.component_class
             component_class(at=at - self.env._offset, **self.kwargs)
+            g.default_env = save_default_env
             n += 1
             if n >= self.number:
                 self.env.print_trace("", "", str(n) + " components generated")
-- 
2.43.0


From b38dc1bab2f8a735eb4d8108b530620a82f4882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:51 +0000
Subject: [PATCH 35/53] fix: ComponentGenerator with a negative disturbance
 failed at its end when it was already beyond till

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 4754152..d4dc701 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20653,7 +20653,7 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                yield self.activate(process="do_finalize", at=self.till - self.env._offset)
+                yield self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
             save_default_env = g.default_env
             g.default_env = self.env
             if isinstance(self.component_class, _Distribution):
@@ -20729,7 +20729,7 @@ class ComponentGenerator(Component):
             else:
                 at = self.env._now + iat + disturbance
             if at > self.till:
-                self.activate(process="do_finalize", at=self.till - self.env._offset)
+                self.activate(process="do_finalize", at=self.till - self.env._offset, cap_now=True)
             save_default_env = g.default_env
             g.default_env = self.env
             if isinstance(self.component_class, _Distribution):
-- 
2.43.0


From a3a2ba0492db4e60c73adccf5e4c457b0737c464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:51 +0000
Subject: [PATCH 36/53] fix: ComponentGenerator that ends before its first
 component was refused in yield mode

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d4dc701..44aff5b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -20584,6 +20584,7 @@ class ComponentGenerator(Component):
                 if at > self.till:
                     at = self.till
                     process = "do_finalize"
+                    env._any_yield |= not env._yieldless  # do_finalize is not a generator
                 else:
                     if self.disturbance:
                         process = "do_iat_disturbance_yieldless" if env._yieldless else "do_iat_disturbance"
-- 
2.43.0


From 59ef7d3e38a2ed19682ca9b715965a91b3c84248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:55 +0000
Subject: [PATCH 37/53] fix: in yield mode an exception (TypeError) of a
 component in standby was masked by another one

---
 salabim/salabim.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 44aff5b..7a32fb9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -11185,16 +11185,15 @@ class Environment:
                                 self._terminate(c)
                             return
                         else:
-                            try:
-                                next(c._process)
-                                return
-                            except TypeError:
+                            if c._process_isgenerator:
+                                try:
+                                    next(c._process)
+                                except StopIteration:
+                                    self._terminate(c)
+                            else:
                                 c._process(**c._process_kwargs)
                                 self._terminate(c)
-                                return
-                            except StopIteration:
-                                self._terminate(c)
-                                return
+                            return
 
             if len(self.env._standbylist) > 0:
                 self._pendingstandbylist = self.env._pendingstandbylist + self.env._standbylist
-- 
2.43.0


From dc116a6526e401b678e91bdd798c052bd837aab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:00 +0000
Subject: [PATCH 38/53] fix: preemptive request allows for rounding of non
 integer quantities, like other requests

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 7a32fb9..cb3a28a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8643,13 +8643,13 @@ by adding:
                 this_claimers = r.claimers()
                 bump_candidates = []
                 for c in reversed(r.claimers()):
-                    if av >= q:
+                    if av + 1e-8 >= q:
                         break
                     if priority >= c.priority(this_claimers):
                         break
                     av += c.claimed_quantity(r)
                     bump_candidates.append(c)
-                if av >= q:
+                if av + 1e-8 >= q:
                     for c in bump_candidates:
                         c._release(r, bumped_by=self)
                         c.activate()
-- 
2.43.0


From f25caa9360696c4fd315bf6e63fe8ef32cfa2feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:26 +0000
Subject: [PATCH 39/53] fix: an environment that is not the default one can be
 created without a default environment (and keeps its logo to itself)

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cb3a28a..767b8b9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -13673,6 +13673,7 @@ class Environment:
             width=61,
             screen_coordinates=True,
             xy_anchor="nw",
+            env=self,
             visible=lambda: self._modelname,
         )
         AnimateText(
-- 
2.43.0


From d9f156e4777469bdcad5184e2f084f30d28438be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:17:26 +0000
Subject: [PATCH 40/53] fix: the video maker of an environment with
 blind_animation belongs to that environment

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 767b8b9..eda4fe9 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -10628,7 +10628,7 @@ class Environment:
 
         if self._blind_animation:
             with self.suppress_trace():
-                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True)
+                self._blind_video_maker = _BlindVideoMaker(process="", suppress_trace=True, env=self)
 
         if Pythonista:
             self._width, self._height = ui.get_screen_size()
-- 
2.43.0


From 09fc329a7eb375c816288aaf4fa5d41de9042527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:09 +0000
Subject: [PATCH 41/53] fix: renaming a queue or resource updates all derived
 names, consistently

---
 salabim/salabim.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index eda4fe9..375b027 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -4804,7 +4804,9 @@ class Queue:
         if value is not None:
             self._name = value
             self.length.name("Length of " + self.name())
-            self.length_of_stay.name("Length of stay of " + self.name())
+            self.length_of_stay.name("Length of stay in " + self.name())
+            self.capacity.name("Capacity of " + self.name())
+            self.available_quantity.name("Available quantity of " + self.name())
         return self._name
 
     def rename(self, value: str = None) -> "Queue":
@@ -24456,7 +24458,7 @@ class Resource:
             self._requesters.name("requesters of " + value)
             self._claimers.name("claimers of " + value)
             self.capacity.name("Capacity of " + value)
-            self.claimed_quantity.name("Clamed quantity of " + value)
+            self.claimed_quantity.name("Claimed quantity of " + value)
             self.available_quantity.name("Available quantity of " + value)
             self.occupancy.name("Occupancy of " + value)
 
-- 
2.43.0


From 32dde17747139621763bf8619fd09f6403cc894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:09 +0000
Subject: [PATCH 42/53] fix: the requesters queues of a store are named after
 the store (also without a name, with a serialized name and when renamed)

---
 salabim/salabim.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 375b027..9398297 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5718,9 +5718,9 @@ class Store(Queue):
         super().__init__(name=name, monitor=monitor, fill=None, capacity=capacity, env=env, *args, **kwargs)
 
         with self.env.suppress_trace():
-            self._to_store_requesters = Queue(f"{name}.to_store_requesters", env=env)
+            self._to_store_requesters = Queue(f"{self.name()}.to_store_requesters", env=env)
             self._to_store_requesters._isinternal = True
-            self._from_store_requesters = Queue(f"{name}.from_store_requesters", env=env)
+            self._from_store_requesters = Queue(f"{self.name()}.from_store_requesters", env=env)
             self._from_store_requesters._isinternal = True
 
             if fill is not None:  # this cannot be done by Queue.__init__ as the requesters are not defined at that time
@@ -5728,6 +5728,30 @@ class Store(Queue):
                     for c in fill:
                         c.enter(self)
 
+    def name(self, value: str = None) -> str:
+        """
+        Parameters
+        ----------
+        value : str
+            new name of the store
+            if omitted, no change
+
+        Returns
+        -------
+        Name of the store : str
+
+        Note
+        ----
+        base_name and sequence_number are not affected if the name is changed
+
+        All derived named are updated as well.
+        """
+        if value is not None:
+            super().name(value)
+            self._to_store_requesters.name(f"{value}.to_store_requesters")
+            self._from_store_requesters.name(f"{value}.from_store_requesters")
+        return self._name
+
     def set_capacity(self, cap: float) -> None:
         """
         Parameters
-- 
2.43.0


From db16769ad3724be0b30f4d4aa0f403bfadb46c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:11 +0000
Subject: [PATCH 43/53] fix: base_name of an object is not affected by renaming
 it

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 9398297..c61d12b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25167,6 +25167,7 @@ def _set_name(name, _nameserialize, object):
         object._sequence_number = sequence_number
     else:
         object._name = name
+        object._base_name = name
 
 
 def _check_overlapping_parameters(obj, method_name0, method_name1, process=None):
-- 
2.43.0


From a608476bc18917852262b21c8079e5e5803eb6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 44/53] fix: the mean of a Constant with time_unit was scaled
 twice

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index c61d12b..cfafd6a 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -21919,7 +21919,7 @@ class Constant(_Distribution):
         -------
         mean of the distribution (= the specified constant) : float
         """
-        return self._mean * self.time_unit_factor
+        return self._mean
 
 
 class Poisson(_Distribution):
-- 
2.43.0


From cddda6f37ca1fc819452979c1c24636f857654f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 45/53] fix: an Erlang distribution with time_unit was scaled
 the wrong way around

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index cfafd6a..2c6dfee 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22454,7 +22454,7 @@ class Erlang(_Distribution):
         -------
         Sample of the distribution : float
         """
-        return self.randomstream.gammavariate(self._shape, 1 / self._rate) / self.time_unit_factor
+        return self.randomstream.gammavariate(self._shape, 1 / self._rate) * self.time_unit_factor
 
     def mean(self) -> float:
         """
@@ -22462,7 +22462,7 @@ class Erlang(_Distribution):
         -------
         Mean of the distribution : float
         """
-        return self._mean / self.time_unit_factor
+        return self._mean * self.time_unit_factor
 
 
 class Cdf(_Distribution):
-- 
2.43.0


From 51411474180e32558fda37ef2b040ddf05240df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 46/53] fix: Pdf/Pmf with equal probabilities samples a
 distribution given as x-value

---
 salabim/salabim.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 2c6dfee..192263e 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22769,7 +22769,10 @@ class Pdf(_Distribution):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                if isinstance(x, _Distribution):
+                    return x.sample()
+                return x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
@@ -22911,7 +22914,10 @@ class Pmf(Pdf):
         """
         if self.supports_n:
             if n is None:
-                return self.randomstream.sample(self._x, 1)[0]
+                x = self.randomstream.sample(self._x, 1)[0]
+                if isinstance(x, _Distribution):
+                    return x.sample()
+                return x
             else:
                 if n < 0:
                     raise ValueError("n < 0")
-- 
2.43.0


From 62cec5db0f5ab582acbd0b5846b5d66d6149b4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 47/53] fix: distributions as x-values of Pdf and CumPdf:
 expressions are allowed and time units are taken into account in the mean

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 192263e..6cb658b 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22704,7 +22704,7 @@ class Pdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
@@ -23052,7 +23052,7 @@ class CumPdf(_Distribution):
             sump += p
             self._cum.append(sump)
             if isinstance(x, _Distribution):
-                x = x._mean
+                x = x.mean()
             try:
                 sumxp += float(x) * p
             except (ValueError, TypeError):
-- 
2.43.0


From 9091295e1319ac724de40b8786b382b54c9a711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 48/53] fix: the mean of a Distribution takes the time unit
 into account

---
 salabim/salabim.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6cb658b..6b00fa4 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -23493,10 +23493,7 @@ class Distribution(_Distribution):
             _checkrandomstream(randomstream)
             self.randomstream = randomstream
         self._distribution = d
-        try:
-            self._mean = d._mean
-        except AttributeError:
-            self._mean = nan
+        self._mean = d.mean()
 
     def __repr__(self):
         return self._distribution.__repr__()
-- 
2.43.0


From b57f4209f88c5addff861a34f90d23404fe64835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 49/53] fix: Pdf and CumPdf never return a value that was not
 specified (when the random stream delivers exactly 0)

---
 salabim/salabim.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 6b00fa4..d82c70f 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -22782,8 +22782,8 @@ class Pdf(_Distribution):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -22927,8 +22927,8 @@ class Pmf(Pdf):
         else:
             if n is None:
                 r = self.randomstream.random()
-                for cum, x in zip([0] + self._cum, [0] + self._x):
-                    if r <= cum:
+                for cum, x in zip(self._cum, self._x):
+                    if r < cum:
                         if isinstance(x, _Distribution):
                             return x.sample()
                         return x
@@ -23101,8 +23101,8 @@ class CumPdf(_Distribution):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
@@ -23211,8 +23211,8 @@ class CumPmf(CumPdf):
         Sample of the distribution : any (usually float)
         """
         r = self.randomstream.random()
-        for cum, x in zip([0] + self._cum, [0] + self._x):
-            if r <= cum:
+        for cum, x in zip(self._cum, self._x):
+            if r < cum:
                 if isinstance(x, _Distribution):
                     return x.sample()
                 return x
-- 
2.43.0


From 0d0feb02d4f6f6bc992e5f92773a269380c30281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 50/53] fix: random_seed seeds the given random stream

---
 salabim/salabim.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index d82c70f..98951bc 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -25472,7 +25472,7 @@ def random_seed(seed: Hashable = None, randomstream: Any = None, set_numpy_rando
             seed = 1234567
         elif seed == "*":
             seed = None
-        random.seed(seed)
+        randomstream.seed(seed)
         if set_numpy_random_seed and has_numpy():
             numpy.random.seed(seed)
 
-- 
2.43.0


From a9a461d384e8bfa4de4cc3c0951b199f23dcee39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:25 +0000
Subject: [PATCH 51/53] fix: request() without resources left the component's
 status unchanged although it is scheduled

---
 salabim/salabim.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 98951bc..574b542 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -8617,6 +8617,7 @@ by adding:
 
         if not args:
             honoredstr = "-"
+            self.status._value = scheduled
             self._reschedule(self.env._now, 0, False, "request honor " + honoredstr, False, s0=self.env.last_s0)
             return
         for arg in args:
-- 
2.43.0


From adbb05d9e0de8dd19499c42c12971c1fc01da06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:06 +0000
Subject: [PATCH 52/53] fix: the trace did not tell about components honored as
 a result of a postponed to_store or a rescan

---
 salabim/salabim.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index 574b542..b9bda61 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -5798,8 +5798,7 @@ class Store(Queue):
                 if c._from_store_filter(item):
                     for store in c._from_stores:
                         c.leave(store._from_store_requesters)
-                    with self.env.suppress_trace():
-                        self.remove(item)
+                    self.remove(item)
                     c._from_stores = []
                     c._from_store_item = item
                     c._from_store_store = self
@@ -5816,8 +5815,7 @@ class Store(Queue):
             if self.available_quantity() > 0:
                 for store in c._to_stores:
                     c.leave(store._to_store_requesters)
-                with self.env.suppress_trace():
-                    c._to_store_item.enter_sorted(self, c._to_store_priority)
+                c._to_store_item.enter_sorted(self, c._to_store_priority)
                 c._to_stores = []
                 c._remove()
                 c.status._value = scheduled
@@ -9832,8 +9830,7 @@ by adding:
                     requester._remove()
                     requester.status._value = scheduled
                     requester._reschedule(requester.env._now, 0, False, f"to_store ({store.name()}) honor ", False, s0=requester.env.last_s0)
-                    with self.env.suppress_trace():
-                        item.enter_sorted(q, requester._to_store_priority)
+                    item.enter_sorted(q, requester._to_store_priority)
         return self
 
     def priority(self, q: "Queue", priority: float = None) -> float:
-- 
2.43.0


From 985c5cdfd590f6104df99026e6778599d4426872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:57 +0000
Subject: [PATCH 53/53] fix: the t column of as_resampled_dataframe was not in
 line with the shown time after reset_now

---
 salabim/salabim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/salabim/salabim.py b/salabim/salabim.py
index b9bda61..0516b4d 100644
--- a/salabim/salabim.py
+++ b/salabim/salabim.py
@@ -3294,9 +3294,9 @@ class Monitor:
                 max_t = self.env.datetime_to_t(max_t)
             max_t += self.env._offset
         if use_datetime0:
-            df = pd.DataFrame({"t": [self.env.t_to_datetime(t) for t in self.env.arange(min_t, max_t, delta_t)]})
+            df = pd.DataFrame({"t": [self.env.t_to_datetime(t - self.env._offset) for t in self.env.arange(min_t, max_t, delta_t)]})
         else:
-            df = pd.DataFrame({"t": self.env.arange(min_t, max_t, delta_t)})
+            df = pd.DataFrame({"t": [t - self.env._offset for t in self.env.arange(min_t, max_t, delta_t)]})
 
         for mon in [self] + extra_monitors:
             if not mon._level:
-- 
2.43.0

