from mkseed import seed
seed("s01_heap", "C01", [("""                    self.env._event_list[i] = self.env._event_list[0]
                    self.env._event_list.pop(0)
                    heapq.heapify(self.env._event_list)
""","""                    last = self.env._event_list.pop()
                    if i < len(self.env._event_list):
                        self.env._event_list[i] = last
                        heapq._siftup(self.env._event_list, i)
""")], '''
# 7 events; removing one of them must not disturb the order of the others
log = []
class X(sim.Component):
    def setup(self, t):
        self.t = t
    def process(self):
        log.append(env.now())
env = sim.Environment(trace=False)
cs = [X(f"x{t}", t=t, at=t) for t in (1, 10, 2, 11, 12, 3, 4)]
cs[3].cancel()
env.run(20)
assert log == sorted(log) and len(log) == 6, log
''', "an event is removed (cancel, interrupt, re-activate) from an event list of at least seven, in a branch that the last event does not belong to",
"events are no longer taken in time order: the clock goes backwards")

seed("s02_cancel", "C02", [("""        if self.status.value != current:
            self._checkisnotdata()
            self._remove()
            self._check_fail()
        for r in list(self._claims):
            self._release(r)
        self._process = None
""","""        for r in list(self._claims):
            self._release(r)
        if self.status.value != current:
            self._checkisnotdata()
            self._remove()
            if not self.isscheduled():
                self._check_fail()
        self._process = None
""")], '''
# a holds r1 and waits for more of r1 plus r2; cancelling it must also take it out of the requesters
env = sim.Environment(trace=False)
r1 = sim.Resource("r1", 2)
r2 = sim.Resource("r2", 1)
class A(sim.Component):
    def process(self):
        self.request((r1, 1))
        self.request((r1, 2))
        self.hold(1)
a = A()
env.run(1)
assert a.isrequesting()
a.cancel()
assert a.isdata() and not a.claimed_resources() and len(r1.claimers()) == 0 and r1.claimed_quantity() == 0, (r1.claimed_quantity(), a.claimed_resources())
''', "a component that holds a claim is cancelled while it waits for more of the same resource", "the cancelled component keeps a claim")

seed("s03_nested_interrupt", "C03", [("""        if self.status.value == interrupted:
            self._interrupt_level += 1
            extra = "." + str(self._interrupt_level)
        else:
            self._checkisnotdata()
            self._remove()
            self._remaining_duration = self._scheduled_time - self.env._now
""","""        if self.status.value != interrupted or self._scheduled_time > self.env._now:
            self._remaining_duration = self._scheduled_time - self.env._now
        if self.status.value == interrupted:
            self._interrupt_level += 1
            extra = "." + str(self._interrupt_level)
        else:
            self._checkisnotdata()
            self._remove()
""")], '''
env = sim.Environment(trace=False)
done = []
class W(sim.Component):
    def process(self):
        self.hold(10)
        done.append(env.now())
w = W()
env.run(2); w.interrupt()
env.run(3); w.interrupt()
env.run(2); w.resume(); w.resume()
env.run(50)
assert done == [15], done
''', "a second interrupt of an interrupted component at a later time, before the time it was originally scheduled for", "the remaining duration shrinks although the component makes no progress")

seed("s04_standby_twice", "C04", [("""            if self in self.env._standbylist:
                self.env._standbylist.remove(self)
            if self in self.env._pendingstandbylist:
                self.env._pendingstandbylist.remove(self)
""","""            if self in self.env._standbylist:
                self.env._standbylist.remove(self)
            # components that are still pending are skipped by step, as their status is not standby anymore
""")], '''
env = sim.Environment(trace=False)
log = []
class S(sim.Component):
    def process(self):
        self.standby()
        while True:
            log.append((self.name(), env.now()))
            if self.name() == "s2" and env.now() == 1 and not s1.done:
                s1.done = True
                s1.standby()      # s1 is still pending
            self.standby()
class T(sim.Component):
    def process(self):
        while True:
            self.hold(1)
s0 = S("s0"); s1 = S("s1"); s1.done = False; s2 = S("s2")
T("t")
env.run(3.5)
for t0 in (2, 3):
    assert [n for n, t in log if t == t0].count("s1") == 1, log
''', "a component whose standby turn is pending is put in standby again by another component in the same round", "it gets control twice for one event")

seed("s05_run_offset", "C05", [("""            if duration is None:
                scheduled_time = till + self.env._offset
            else:
                raise ValueError("both duration and till specified")
        if self._yieldless:
""","""            if duration is None:
                scheduled_time = max(till, till + self.env._offset)
            else:
                raise ValueError("both duration and till specified")
        if self._yieldless:
""")], '''
env = sim.Environment(trace=False)
class X(sim.Component):
    def process(self):
        while True:
            self.hold(1)
X()
env.run(3)
env.reset_now(10)
env.run(till=12)
assert env.now() == 12, env.now()
''', "reset_now to a value larger than the current time, followed by run(till=...)", "the run goes on after the requested time")

seed("s06_tolerance", "C06", [("""                if self._requests[r] > (r._capacity - r._claimed_quantity + 1e-8):
                    return []
""","""                if round(self._requests[r] - (r._capacity - r._claimed_quantity), 0) > 0:
                    return []
""")], '''
env = sim.Environment(trace=False)
r = sim.Resource("r", 1)
class X(sim.Component):
    def process(self):
        self.request((r, 0.7))
        self.hold(1)
X(); X()
env.run(0.5)
assert r.claimed_quantity() <= r.capacity(), r.claimed_quantity()
''', "fractional quantities that exceed what is available by less than a half", "claims exceed the capacity")

seed("s07_minq_oneof", "C07", [("""            if q < r._minq:
                r._minq = q
""","""            if q < r._minq and not (self.oneof_request and len(self._requests) > 1):
                r._minq = q
""")], '''
env = sim.Environment(trace=False)
r1 = sim.Resource("r1", 2); r2 = sim.Resource("r2", 1)
log = []
class H(sim.Component):
    def process(self):
        self.request((r1, 2), r2)
        self.hold(2)
        self.release((r1, 1))
        self.hold(5)
class O(sim.Component):
    def process(self):
        self.request((r1, 1), r2, oneof=True)
        log.append(env.now())
class B(sim.Component):
    def process(self):
        self.request((r1, 2))
        self.hold(1)
H(); B(); O()
env.run(4)
assert log == [2], log
''', "a oneof request for less than what another waiting requester wants, and a partial release", "a request that fits is not honoured")

seed("s08_bump_interrupted", "C08", [("""                    for c in bump_candidates:
                        c._release(r, bumped_by=self)
                        c.activate()
""","""                    for c in bump_candidates:
                        c._release(r, bumped_by=self)
                        if not c.isinterrupted():
                            c.activate()
""")], '''
env = sim.Environment(trace=False)
r = sim.Resource("r", preemptive=True)
log = []
class L(sim.Component):
    def process(self):
        self.request((r, 1, 5))
        self.hold(10)
        log.append((env.now(), self.isbumped(r)))
class H(sim.Component):
    def process(self):
        self.hold(2)
        l.interrupt()
        self.request((r, 1, 1))
        self.hold(1)
l = L(); H()
env.run(50)
assert log == [(2, True)], log
''', "the claimer is interrupted at the moment it is bumped", "the bumped component is not activated")

seed("s09_anon_release", "C09", [("""            self._claimed_quantity -= q
            if self._claimed_quantity < 1e-8:
                self._claimed_quantity = 0
""","""            self._claimed_quantity -= q
            if abs(self._claimed_quantity) < 1e-8:
                self._claimed_quantity = 0
""")], '''
env = sim.Environment(trace=False)
r = sim.Resource("r", 4, anonymous=True, initial_claimed_quantity=1)
r.release(3)
assert 0 <= r.claimed_quantity() <= 4 and r.available_quantity() <= 4, r.claimed_quantity()
''', "an anonymous resource is released by more than what is claimed", "the level becomes negative")

seed("s10_keep_fail", "C10", [("""            for store in list(self._to_stores):
                self.leave(store._to_store_requesters)
            self._to_stores = []
            self._failed = True
""","""            for store in list(self._to_stores):
                if store._to_store_requesters._length > 1 or len(self._to_stores) == 1:
                    self.leave(store._to_store_requesters)
            self._to_stores = []
            self._failed = True
""")], '''
env = sim.Environment(trace=False)
q1 = sim.Store("q1", capacity=1); q2 = sim.Store("q2", capacity=1)
class X(sim.Component):
    def process(self):
        self.to_store(q1, sim.Component("i1", process=""))
        self.to_store(q2, sim.Component("i2", process=""))
        self.to_store([q1, q2], sim.Component("i3", process=""), fail_delay=1)
        assert self.failed()
        self.hold(10)
x = X()
env.run(2)
assert x not in q1.to_store_requesters() and x not in q2.to_store_requesters()
''', "a to_store for two full stores fails while it is the only requester", "the component remains a requester after it failed")

seed("s11_trigger_after", "C11", [("""        self._value = value_after
        self.value.tally(value_after)
        self._trywait()
""","""        if value_after != value:
            self._value = value_after
            self.value.tally(value_after)
            self._trywait()
""")], '''
env = sim.Environment(trace=False)
s = sim.State("s", value=0)
log = []
class W(sim.Component):
    def process(self):
        self.wait((s, 1))
        log.append(self.name())
W("w1"); W("w2")
class T(sim.Component):
    def process(self):
        self.hold(1)
        s.trigger(1, value_after=1, max=1)
T()
env.run(5)
assert log == ["w1", "w2"], log
''', "trigger with a maximum and value_after equal to the triggered value", "waiters whose condition holds keep waiting")

seed("s12_store_priority", "C12", [("""        for store in from_stores:
            self.enter_sorted(store._from_store_requesters, priority=request_priority)
""","""        for store in from_stores:
            if store is from_stores[0]:
                self.enter_sorted(store._from_store_requesters, priority=request_priority)
            else:
                self.enter(store._from_store_requesters)
""")], '''
env = sim.Environment(trace=False)
q1 = sim.Store("q1"); q2 = sim.Store("q2")
log = []
class F(sim.Component):
    def setup(self, p):
        self.p = p
    def process(self):
        self.from_store([q1, q2], request_priority=self.p)
        log.append(self.name())
F("a", p=5); F("b", p=1)
class T(sim.Component):
    def process(self):
        self.hold(1)
        self.to_store(q2, sim.Component("i", process=""))
T()
env.run(5)
assert log == ["b"], log
''', "requesters with different priorities for several stores, served by another store than the first", "requesters are not served in order of priority")
