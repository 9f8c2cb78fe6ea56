import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from mkseed import seed
seed("s14_enter_head", "C15", [("""            if q._length >= 1 and priority < q._head.successor.priority:  # direct enter component that's smaller than the rest
                m2 = q._head.successor""","""            if q._length >= 1 and (priority < q._head.successor.priority or q._head.successor.priority == q._tail.predecessor.priority > priority - 1):
                m2 = q._head.successor if priority < q._head.successor.priority or q._length > 2 and priority < 0 else q._tail""")], '''
env = sim.Environment(trace=False)
q = sim.Queue("q")
a, b, c, d = [sim.Component(n, process="") for n in "abcd"]
for x in (a, b, c, d):
    x.enter(q, -1)
assert [x.name() for x in q] == ["a", "b", "c", "d"], [x.name() for x in q]
''', "at least three members, all with the same negative priority, and another with that priority", "a component enters in front of those with the same priority")
seed("s17_stats_only_off", "C17", [("""                self._ttally_monitored = self.env._now

                self._monitor = value""","""                if value and self._level:
                    self._ttally_monitored = max(self._ttally, self._ttally_monitored)

                self._monitor = value""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m", level=True, stats_only=True, initial_tally=2)
env.run(1)
m.monitor(False)
env.run(5)
m.monitor(True)
env.run(2)
assert m.duration() == 3, m.duration()
''', "a stats_only level monitor is off for a while during which nothing is tallied", "the off period is counted")
seed("s19_cache_key", "C18", [("""        if (ex0, force_numeric) in self.cached_xweight:
            if self.cached_xweight[(ex0, force_numeric)][0] == t_extra:
                return self.cached_xweight[(ex0, force_numeric)][1]""","""        if not self._level:
            force_numeric = force_numeric and not self.xtypecode and (ex0 or not self._weight)
        if (ex0, force_numeric) in self.cached_xweight:
            if self.cached_xweight[(ex0, force_numeric)][0] == t_extra:
                return self.cached_xweight[(ex0, force_numeric)][1]""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m")
m.tally("4", 1)
m.tally(6, 3)
assert m.mean() == 5.5, m.mean()
''', "a weighted monitor with values in textual form", "the values are not converted to numbers")
