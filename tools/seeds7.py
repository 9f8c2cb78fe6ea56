import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import mkseed
only = sys.argv[1:]
def seed(id, *a):
    if only and id not in only: return
    try: mkseed.seed(id, *a)
    except AssertionError as e: print(id, "REJECTED", str(e)[-400:])
seed("s42_heap", "C01", [("""                    heapq.heapify(self.env._event_list)
                    self._on_event_list = False
""","""                    if i > 0:
                        heapq.heapify(self.env._event_list)
                    self._on_event_list = False
""")], '''
import random
class C(sim.Component):
    def process(self):
        self.hold(till=self.at)
        seen.append(env.now())
random.seed(3)
for _ in range(20):
    env = sim.Environment(trace=False, random_seed="")
    seen = []
    cs = []
    for i in range(12):
        c = C(); c.at = random.randint(1, 30); cs.append(c)
    env.run(0)
    for k in range(3):
        first = min((c for c in cs if c.isscheduled()), key=lambda c: c.scheduled_time())
        first.passivate()
    env.run(100)
    assert seen == sorted(seen) , seen
''', "the first component of the event list is passivated (rescheduled) by another one while several others are scheduled", "events happen in the wrong order")
seed("s43_level", "C03", [("""            self._interrupted_status = self.status.value
            self._interrupt_level = 1
""","""            self._interrupted_status = self.status.value
            self._interrupt_level = getattr(self, "_interrupt_level", 0) + 1
""")], '''
class C(sim.Component):
    def process(self):
        self.hold(10)
        seen.append(env.now())
env = sim.Environment(trace=False)
seen = []
c = C()
env.run(1)
c.interrupt(); c.interrupt(); c.interrupt()
c.resume(all=True)
env.run(1)
c.interrupt()
assert c.interrupt_level() == 1, c.interrupt_level()
c.resume()
env.run(20)
assert seen == [10], seen
''', "an interrupt after resume(all=True) of a component that was interrupted several times", "one resume is not enough for the new interrupt")
seed("s44_pending", "C04", [("""            if self in self.env._pendingstandbylist:
                self.env._pendingstandbylist.remove(self)
""","")], '''
class S(sim.Component):
    def process(self):
        while True:
            self.standby()
            seen.append((env.now(), self.name()))
            if env.now() == 5:
                other = b if self is a else a
                other.passivate()
                other.standby()
env = sim.Environment(trace=False)
seen = []
class X(sim.Component):
    def process(self):
        self.hold(5)
        self.hold(5)
a = S("a"); b = S("b"); X("x")
env.run(6)
assert [t for t, _ in seen].count(5) == 1, seen
''', "a component whose turn in this round is still to come is taken out of standby and put back into standby", "it gets two turns after one event")
seed("s45_overrelease", "C06", [("""        if q > self._claims[r]:
            q = self._claims[r]
        r._claimed_quantity -= q
""","""        if q > self._claims[r] and len(self._claims) == 1:
            q = self._claims[r]
        r._claimed_quantity -= q
""")], '''
env = sim.Environment(trace=False)
r = sim.Resource("r", 10); s = sim.Resource("s", 10)
class A(sim.Component):
    def process(self):
        self.request((r, 2), s)
        self.hold(1)
        self.release((r, 5))
        self.hold(1)
class B(sim.Component):
    def process(self):
        self.request((r, 4))
        self.hold(10)
A(); B()
env.run(1.5)
assert r.claimed_quantity() == 4, r.claimed_quantity()
''', "releasing more than claimed by a component that claims other resources as well, while others claim too", "the claimed quantity is no longer the sum of the claims")
seed("s46_minq", "C07", [("""            if q < r._minq:
                r._minq = q
""","""            if q < r._minq and len(self._requests) == 1:
                r._minq = q
""")], '''
env = sim.Environment(trace=False)
r = sim.Resource("r", 4); s = sim.Resource("s", 4)
class A(sim.Component):
    def process(self):
        self.request((r, 4))
        self.hold(3)
        self.release((r, 1))
        self.hold(10)
class B(sim.Component):
    def process(self):
        self.request((r, 3))
class C(sim.Component):
    def process(self):
        self.request((r, 1), (s, 1))
        got.append(env.now())
got = []
A(); B(at=1); C(at=2)
env.run(5)
assert got == [3], got
''', "a waiting request for two resources behind a bigger request for one of them; only enough for the former is released", "the request is not honoured although it could be")
seed("s47_bump", "C08", [("""                        c._release(r, bumped_by=self)
                        c.activate()
""","""                        c._release(r, bumped_by=self)
                        if c._scheduled_time != inf or not c._waits:
                            c.activate()
""")], '''
env = sim.Environment(trace=False)
r = sim.Resource("r", 1, preemptive=True); s = sim.State("s")
class A(sim.Component):
    def process(self):
        self.request((r, 1, 2))
        self.wait(s)
        seen.append((env.now(), self.isclaiming(r)))
class B(sim.Component):
    def process(self):
        self.request((r, 1, 1))
        self.hold(10)
seen = []
A(); B(at=1)
env.run(5)
assert seen == [(1, False)], seen
''', "a claimer that waits (without time-out) for a state is bumped", "the bumped component is not activated")
seed("s48_trigger_max", "C11", [("""            c = mx.component
            mx = mx.successor
            if c._trywait():
                max -= 1
""","""            c = mx.component
            mx = mx.successor
            if c._trywait() or c._wait_all:
                max -= 1
""")], '''
env = sim.Environment(trace=False)
s = sim.State("s"); t = sim.State("t")
class A(sim.Component):
    def process(self):
        self.wait(s, t, all=True)
class B(sim.Component):
    def process(self):
        self.wait(s)
        seen.append(env.now())
seen = []
A(); B()
env.run(1)
s.trigger(max=1)
env.run(1)
assert seen == [1], seen
''', "a trigger with max while a component that waits for all of several states, which are not all there, is in front", "a waiter that should be honoured is overlooked")
seed("s49_from_key", "C12", [("""                        if found_key is None or this_key < found_key:
                            found_c = c
                            found_store = store
""","""                        if not found_key or this_key < found_key:
                            found_c = c
                            found_store = store
""")], '''
env = sim.Environment(trace=False)
s = sim.Store("s")
for v in (0, 3, 5):
    c = sim.Component(f"c{v}"); c.v = v; c.enter(s)
class X(sim.Component):
    def process(self):
        got.append(self.from_store(s, key=lambda c: c.v).v)
got = []
X()
env.run(1)
assert got == [0], got
''', "from_store with a key function that delivers 0 (or another empty value) for the best item", "not the item with the lowest key is returned")
seed("s50_setcap", "C12", [("""        old_cap = self.capacity()
        super().set_capacity(cap=cap)
        if cap >= old_cap:
            self._rescan_to()
""","""        old_cap = self.capacity()
        super().set_capacity(cap=cap)
        if cap >= max(old_cap, len(self) + 1) and old_cap >= len(self):
            self._rescan_to()
""")], '''
env = sim.Environment(trace=False)
s = sim.Store("s", capacity=3)
for i in range(3): sim.Component(f"i{i}").enter(s)
class X(sim.Component):
    def process(self):
        self.to_store(s, sim.Component("x"))
        got.append(env.now())
got = []
X()
env.run(1)
s.set_capacity(1)
env.run(1)
s.set_capacity(4)
env.run(1)
assert got == [2], got
''', "the capacity of a store is first set below the number of items and later increased while a component waits", "the waiting component is overlooked")
seed("s52_iter_touch", "C15", [("""                mx.priority = priority
                for iter in q._iter_touched:
                    q._iter_touched[iter] = True
        return mx.priority
""","""                mx.priority = priority
        return mx.priority
""")], '''
env = sim.Environment(trace=False)
q = sim.Queue("q")
cs = [sim.Component(f"c{i}") for i in range(3)]
for c in cs: c.enter(q)
seen = []
for c in q:
    seen.append(c.name())
    if c is cs[0]:
        cs[1].priority(q, 5)
assert seen == ["c0", "c2", "c1"], seen
''', "the priority of a member is changed while the queue is being iterated over", "the rest of the iteration is not in queue order")
seed("s53_union_twice", "C16", [("""                if mx.component not in self_set:
                    Qmember().insert_in_front_of(q1._tail, mx.component, q1, 0)
                mx = mx.successor

        return q1

    def intersection""","""                if mx.component not in self_set:
                    Qmember().insert_in_front_of(q1._tail, mx.component, q1, mx.priority)
                mx = mx.successor

        return q1

    def intersection""")], '''
env = sim.Environment(trace=False)
q = sim.Queue("q"); r = sim.Queue("r")
a, b, c = [sim.Component(x) for x in "abc"]
a.enter(q); b.enter_sorted(r, 5)
u = q + r
c.enter_sorted(u, 3)
assert [x.name() for x in u] == ["a", "b", "c"], [x.name() for x in u]
''', "union of queues with priorities, after which a component enters sorted", "priorities in the union are not 0")
