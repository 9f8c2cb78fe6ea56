import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
import mkseed
only = sys.argv[1:]
def seed(id, *a):
    if only and id not in only: return
    try: mkseed.seed(id, *a)
    except AssertionError as e: print(id, "REJECTED", str(e)[-400:])
seed("s54_keep_process", "C10", [("""            if p is None:
                if not (keep_request or keep_wait):
                    self._check_fail()
            else:
                self._check_fail()
""","""            if not (keep_request or keep_wait):
                self._check_fail()
""")], '''
class C(sim.Component):
    def process(self):
        self.request(r, fail_delay=10)
    def other(self):
        seen.append((env.now(), self in r.requesters(), self.failed()))
        self.hold(3)
class H(sim.Component):
    def process(self):
        self.request(r)
        self.hold(5)
seen = []
env = sim.Environment(trace=False)
r = sim.Resource("r")
H(); c = C()
env.run(1)
c.activate(process="other", keep_request=True)
assert c not in r.requesters() and c.status() == "scheduled"
env.run(1)
assert seen == [(1, False, True)], seen
assert len(r.requesters()) == 0
''', "a requesting component is activated with a (new) process and keep_request=True", "the component runs its new process but is still a requester")
seed("s55_standby_again", "C04", [("""            self._checkisnotdata()
            self._checkisnotmain()
            self._remove()
            self._check_fail()
        self._scheduled_time = self.env._now
""","""            self._checkisnotdata()
            self._checkisnotmain()
            if self.status.value != standby:
                self._remove()
            self._check_fail()
        self._scheduled_time = self.env._now
""")], '''
class S(sim.Component):
    def process(self):
        while True:
            self.standby()
            seen.append(env.now())
class T(sim.Component):
    def process(self):
        self.hold(1)
        s.standby()
        self.hold(1)
        self.hold(1)
env = sim.Environment(trace=False)
seen = []
s = S(); t = T()
env.run(10)
assert max(seen.count(x) for x in (2, 3)) == 1, seen
''', "standby() called by another component on a component that is already in standby", "the component gets control twice after an event")
seed("s56_run_now", "C05", [("""            if duration is None:
                scheduled_time = till + self.env._offset
            else:
                raise ValueError("both duration and till specified")
        if self._yieldless:
""","""            if duration is None:
                scheduled_time = till + self.env._offset
                if scheduled_time == self.env._now:
                    priority = min(priority, 0)
            else:
                raise ValueError("both duration and till specified")
        if self._yieldless:
""")], '''
class C(sim.Component):
    def process(self):
        seen.append("a")
        self.hold(0)
        seen.append("b")
env = sim.Environment(trace=False)
seen = []
C()
env.run(till=0)
assert seen == ["a", "b"], seen
''', "run(till=now) while a component holds zero time", "the run returns before all events due at that time")
seed("s59_failed_flag", "C10", [("""        self._failed = False

        if not args:
            honoredstr""","""        if self.status.value == current:
            self._failed = False

        if not args:
            honoredstr""")], '''
class C(sim.Component):
    def process(self):
        self.request(r, fail_delay=1)
        assert self.failed()
        self.passivate()
        seen.append(self.failed())
env = sim.Environment(trace=False)
seen = []
r = sim.Resource("r", 0)
c = C()
env.run(5)
r.set_capacity(1)
c.request(r)
assert not c.failed()
env.run(5)
assert seen == [False], seen
''', "a component that failed before is made to request by another component, and is honoured", "it is still marked as failed")
seed("s60_to_stores", "C10", [("""            for store in list(self._to_stores):
                self.leave(store._to_store_requesters)
            self._to_stores = []
            self._failed = True""","""            for store in list(self._to_stores)[:2]:
                self.leave(store._to_store_requesters)
            self._to_stores = []
            self._failed = True""")], '''
class C(sim.Component):
    def process(self):
        self.to_store([a, b, c], sim.Component("x."), fail_delay=2)
        self.passivate()
env = sim.Environment(trace=False)
a, b, c = (sim.Store(capacity=0) for _ in range(3))
C()
env.run(5)
assert len(a.to_store_requesters()) + len(b.to_store_requesters()) + len(c.to_store_requesters()) == 0
''', "a to_store for three stores fails", "the component is still in a requesters queue of a store")
seed("s61_cap_off", "C14", [("""        for m in (self.capacity, self.available_quantity, self.claimed_quantity, self.occupancy):
            m.reset(monitor=monitor, stats_only=stats_only)""","""        for m in (self.capacity, self.available_quantity, self.claimed_quantity):
            m.reset(monitor=monitor, stats_only=stats_only)
        self.occupancy.reset(stats_only=stats_only)""")], '''
env = sim.Environment(trace=False)
r = sim.Resource("r", 2)
r.reset_monitors(monitor=False)
env.run(3)
assert r.occupancy.duration() == 0, r.occupancy.duration()
''', "reset_monitors(False) of a resource", "the occupancy goes on to be monitored")
seed("s62_on_again", "C17", [("""                if self._monitor:
                    if self._level:
                        self._tally_add_now()

                self._ttally_monitored = self.env._now
""","""                if self._monitor and not value:
                    if self._level:
                        self._tally_add_now()

                self._ttally_monitored = self.env._now
""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m", level=True, initial_tally=5, stats_only=True)
env.run(3)
m.monitor(True)
env.run(1)
assert m.duration() == 4, m.duration()
''', "a stats_only level monitor that is on is switched on again", "the time since the last tally is lost")
seed("s63_get_t", "C17", [("""        i = bisect.bisect_left(list(zip(self._t, itertools.count())), (t, float("inf")))
        return self._x[i - 1]""","""        i = bisect.bisect_left(self._t, t)
        return self._x[max(i - 1, 0)]""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m", level=True, initial_tally=5)
env.run(3)
m.tally(7)
env.run(1)
assert m(3) == 7, m(3)
assert m(0) == 5
''', "the value at exactly the moment of a tally is asked later", "the value before the tally is given")
seed("s67_dist_till", "C20", [("""                at = self.env._now + iat + disturbance
            if at > self.till:
                self.activate(""","""                at = self.env._now + iat + disturbance
            if self.env._now + iat > self.till:
                self.activate(""")], '''
class C(sim.Component):
    def process(self):
        seen.append(env.now())
env = sim.Environment(trace=False)
seen = []
sim.ComponentGenerator(C, iat=2, disturbance=1, till=4.5)
env.run(20)
assert seen == [3], seen
env = sim.Environment(trace=False)
seen = []
sim.ComponentGenerator(C, iat=2, disturbance=1, till=4.5, force_at=True)
env.run(20)
assert seen == [1, 3], seen
''', "a generator with disturbance and till, where the disturbance moves a component past till", "a component is generated after till")
seed("s68_midnight", "C21", [("""        if self._datetime0:
            return self.seconds(timedelta.total_seconds())
        raise ValueError("timestamp_to""","""        if self._datetime0:
            return self.seconds(timedelta.days * 24 * 3600 + timedelta.seconds)
        raise ValueError("timestamp_to""")], '''
import datetime
env = sim.Environment(trace=False, datetime0=True)
assert env.timedelta_to_duration(datetime.timedelta(seconds=1.5)) == 1.5, env.timedelta_to_duration(datetime.timedelta(seconds=1.5))
''', "a timedelta with a fraction of a second", "the fraction is lost")
seed("s69_comma_base", "C22", [("""        if name in _nameserialize:
            _nameserialize[name] = sequence_number = _nameserialize[name] + 1
        else:
            _nameserialize[name] = sequence_number = 1 if name.endswith(",") else 0
""","""        if name in _nameserialize:
            _nameserialize[name] = sequence_number = _nameserialize[name] + 1
        else:
            _nameserialize[name] = sequence_number = 1 if name.endswith(",") else _nameserialize.get(name[:-1] + ",", 0)
""")], '''
env = sim.Environment(trace=False)
assert sim.Component("a,").name() == "a.1"
assert sim.Component("a.").name() == "a.0"
''', "the same base name is used with a comma and later with a period", "the numbering with the period does not start at 0")
seed("s70_reset_all", "C23", [("""        self._offset = self._now - new_now

        if self._trace:""","""        self._offset = self._now - new_now
        if g.default_env._now == 0:
            g.default_env._offset = self._offset

        if self._trace:""")], '''
env1 = sim.Environment(trace=False)
env1.run(5)
env2 = sim.Environment(trace=False)
env1.reset_now(2)
assert env2.now() == 0, env2.now()
''', "reset_now in an environment that is not the default, while the default one is still at 0", "the clock of the other environment is shifted")
