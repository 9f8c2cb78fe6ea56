import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from mkseed import seed
seed("s30_reset_twice", "C21", [("self._datetime0 += datetime.timedelta(seconds=self.to_seconds(self._offset - offset_before))", "self._datetime0 += datetime.timedelta(seconds=self.to_seconds(self._offset))")], '''
import datetime
env = sim.Environment(datetime0="2024-01-01", time_unit="hours", trace=False)
env.run(5)
env.reset_now()
env.run(5)
env.reset_now(3)
assert env.t_to_datetime(env.now()) == datetime.datetime(2024, 1, 1, 10), env.t_to_datetime(env.now())
''', "reset_now more than once in an environment with a calendar", "the calendar shifts: the date of now is wrong")
seed("s31_wait_fail_at", "C21", [("""                scheduled_time = fail_at + self.env._offset
            else:
                raise ValueError("both fail_at and fail_delay specified")
        schedule_priority = priority
        self.set_mode(mode)

        for arg in args:
            value = True
""", """                scheduled_time = fail_at + max(0, self.env._offset)
            else:
                raise ValueError("both fail_at and fail_delay specified")
        schedule_priority = priority
        self.set_mode(mode)

        for arg in args:
            value = True
""")], '''
class C(sim.Component):
    def process(self):
        self.wait(s, fail_at=12)
        t.append(env.now())
env = sim.Environment(trace=False)
t = []
s = sim.State("s")
env.run(3)
env.reset_now(10)
C()
env.run(20)
assert t == [12], t
''', "wait with fail_at after the shown time was reset to a later moment", "the wait does not fail at the moment asked for")
seed("s32_comma_space", "C22", [("""        if name in _nameserialize:
            _nameserialize[name] = sequence_number = _nameserialize[name] + 1
        else:
            _nameserialize[name] = sequence_number = 1 if name.endswith(",") else 0
""","""        key = name.lower()
        if key in _nameserialize:
            _nameserialize[key] = sequence_number = _nameserialize[key] + 1
        else:
            _nameserialize[key] = sequence_number = 1 if name.endswith(",") else 0
""")], '''
env = sim.Environment(trace=False)
a = [sim.Component("A."), sim.Component("a."), sim.Component("A.")]
assert [c.name() for c in a] == ["A.0", "a.0", "A.1"], [c.name() for c in a]
''', "two base names that only differ in upper/lower case", "the numbers are not consecutive per base name")
seed("s33_state_rename", "C22", [("""            self._waiters.name("waiters of " + value)
""","""            if len(self._waiters) == 0:
                self._waiters.name("waiters of " + value)
""")], '''
class C(sim.Component):
    def process(self):
        self.wait(s)
env = sim.Environment(trace=False)
s = sim.State("s")
C()
env.run(1)
s.name("t")
assert s.waiters().name() == "waiters of t"
''', "a state that is renamed while components wait for it", "the waiters queue keeps the old name")
seed("s34_claimed_env", "C23", [("""level=True, initial_tally=initial_claimed_quantity, monitor=monitor, type="float", env=self.env
""","""level=True, initial_tally=initial_claimed_quantity, monitor=monitor, type="float"
""")], '''
class C(sim.Component):
    def process(self):
        self.request(r)
        self.hold(3)
env = sim.Environment(trace=False, isdefault_env=False)
other = sim.Environment(trace=False)
r = sim.Resource("r", env=env)
C(env=env)
env.run(6)
assert r.claimed_quantity.mean() == 0.5, r.claimed_quantity.mean()
''', "a resource in an environment that is not the default one", "its claimed quantity is recorded against the clock of another environment")
