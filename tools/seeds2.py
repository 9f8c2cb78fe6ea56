from mkseed import seed
seed("s13_prio_ties", "C15", [("""                while (m2 != q._tail) and (m2.priority <= priority):
                    m2 = m2.successor

                m1 = m2.predecessor
                m1.successor = mx""","""                if priority > mx.priority:  # can only move towards the tail
                    m2 = mx.successor
                while (m2 != q._tail) and (m2.priority < priority if m2.priority > mx.priority else m2.priority <= priority):
                    m2 = m2.successor

                m1 = m2.predecessor
                m1.successor = mx""")], '''
env = sim.Environment(trace=False)
q = sim.Queue("q")
a, b, c = [sim.Component(n, process="") for n in "abc"]
for x, p in ((a, 1), (b, 2), (c, 2)):
    x.enter(q, p)
a.priority(q, 2)   # goes behind the others with that priority
assert [x.name() for x in q] == ["b", "c", "a"], [x.name() for x in q]
''', "the priority of a member is raised to that of members further in the queue", "a component whose priority is changed is placed in front of those that already have that priority")
seed("s14_iter_touch", "C15", [("""                iter_list = iter_list[:iter_index]
                mx = self._tail.predecessor
                while mx != self._head:
                    if mx not in iter_list:
                        iter_list.append(mx)
                    mx = mx.predecessor""","""                iter_list = iter_list[:iter_index]
                mx = iter_list[-1].predecessor if iter_list else self._tail.predecessor
                while mx != self._head:
                    if mx not in iter_list:
                        iter_list.append(mx)
                    mx = mx.predecessor""")], '''
env = sim.Environment(trace=False)
q = sim.Queue("q")
cs = [sim.Component(n, process="") for n in "abcd"]
for x in cs[:3]:
    x.enter(q)
seen = []
for x in reversed(q):
    seen.append(x.name())
    if x is cs[1]:
        cs[3].enter(q)   # behind what was already visited
assert seen == ["c", "b", "d", "a"], seen
''', "a reversed iteration in progress while a component enters nearer to the tail", "a component that entered during the iteration is skipped")
seed("s15_symdiff", "C16", [("""            intersection_set = self.as_set() & q.as_set()
            mx = self._head.successor
            while mx != self._tail:
                if mx.component not in intersection_set:""","""            intersection_set = self.as_set() & q.as_set()
            if len(intersection_set) == min(len(self), len(q)):
                return (self if len(self) >= len(q) else q).difference(q if len(self) >= len(q) else self, name=name, monitor=monitor)
            mx = self._head.successor
            while mx != self._tail:
                if mx.component not in intersection_set:""")], '''
env = sim.Environment(trace=False)
q, r = sim.Queue("q"), sim.Queue("r")
a, b, c = [sim.Component(n, process="") for n in "abc"]
a.enter(q, 5)
a.enter(r, 5); b.enter(r, 7); c.enter(r, 9)
x = q ^ r
assert x.as_list() == [b, c]
assert [y.priority(x) for y in x] == [0, 0], [y.priority(x) for y in x]
''', "one of the operands contains all members of the other and priorities are not zero", "the result of symmetric_difference gets the priorities of the operand; a component added later is sorted elsewhere")
seed("s16_avail_leave", "C16", [("""        q.available_quantity.tally(q.capacity._tally - q._length)
        q.number_of_departures += 1
""","""        q.available_quantity.tally(q.available_quantity._tally + 1)
        q.number_of_departures += 1
"""),("""        self.available_quantity.tally(cap - self._length)

    def name(self, value: str = None) -> str:
        \"\"\"
        Parameters
        ----------
        value : str
            new name of the queue""","""        self.available_quantity.tally(max(0, cap - self._length))

    def name(self, value: str = None) -> str:
        \"\"\"
        Parameters
        ----------
        value : str
            new name of the queue""")], '''
env = sim.Environment(trace=False)
q = sim.Queue("q", capacity=4)
cs = [sim.Component(process="") for i in range(4)]
for c in cs:
    c.enter(q)
q.set_capacity(2)
cs[0].leave(q)
cs[1].leave(q)
assert q.available_quantity() == 0, q.available_quantity()
''', "the capacity is lowered below the current length and components leave afterwards", "available quantity reports room that is not there")
seed("s17_stats_only_off", "C17", [("""                self._ttally_monitored = self.env._now

                self._monitor = value""","""                if value:
                    self._ttally_monitored = max(self._ttally, self._ttally_monitored)

                self._monitor = value""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m", level=True, stats_only=True, initial_tally=2)
env.run(1)
m.monitor(False)
env.run(5)
m.monitor(True)
env.run(2)
assert m.duration() == 3, m.duration()
''', "a stats_only level monitor is off for a while during which nothing is tallied", "the off period is counted")
seed("s18_cache", "C17", [("""        self.cached_xweight.clear()  # invalidate cache

        self.monitor(monitor)""","""        self.monitor(monitor)""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m", level=True, initial_tally=2, monitor=False)
env.run(1)
m.monitor(True)
env.run(3)
m.monitor(False)
assert m.mean() == 2
m.reset()
import math
assert m.duration() == 0, m.duration()
''', "statistics are queried and then the monitor is reset at the same moment without monitoring being switched", "the statistics from before the reset are still reported")
seed("s19_pct_weight", "C18", [("""            if weight_cum[k] != q:
                return x_sorted[k]""","""            if weight_cum[k] != q or x_sorted[k] == 0:
                return x_sorted[k]""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m")
m.tally(0, 2)
m.tally(4, 2)
assert m.median() == 2, m.median()
''', "a weighted monitor whose cumulated weight exactly reaches the percentile at the value 0", "the interpolation between 0 and the next value is skipped")
seed("s20_std", "C18", [("""                    mun1 = self.mun[ex0]
                    self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
                    self.sn[ex0] = self.sn[ex0] + weight * (value_num - mun1) * (value_num - self.mun[ex0])""","""                    mun1 = self.mun[ex0]
                    self.mun[ex0] = mun1 + (weight / self.sumw[ex0]) * (value_num - mun1)
                    self.sn[ex0] = self.sn[ex0] + (value_num - mun1) * (value_num - self.mun[ex0]) * (weight if self._level else min(weight, self.n[ex0]))""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m", stats_only=True)
n = sim.Monitor("n")
for x, w in ((1, 1), (2, 1), (5, 4)):
    m.tally(x, w)
    n.tally(x, w)
assert abs(m.std() - n.std()) < 1e-9, (m.std(), n.std())
''', "stats_only monitor with a weight that exceeds the number of entries so far", "the standard deviation is wrong")
seed("s21_merge_off", "C19", [("""                if x == merge[index].off:
                    curx[index] = new.off
                elif new.xtypecode:""","""                if x == merge[index].off:
                    curx[index] = new.off if not new.xtypecode else x
                elif new.xtypecode:"""),("""                if new._t and (t == new._t[-1]):
                    new._x[-1] = sum
                else:
                    new._t.append(t)
                    new._x.append(sum)
            new.start = new._t[0]""","""                if new._t and (t == new._t[-1] or (sum == new.off and new._x[-1] == sum)):
                    new._x[-1] = sum
                elif new._t and sum == 0 and new._x[-1] == new.off and index:
                    continue
                else:
                    new._t.append(t)
                    new._x.append(sum)
            new.start = new._t[0]""")], '''
env = sim.Environment(trace=False)
a = sim.Monitor("a", level=True, initial_tally=1)
b = sim.Monitor("b", level=True, initial_tally=2)
env.run(1)
b.monitor(False)
env.run(1)
a.tally(0); b.tally(0)
b.monitor(True)
env.run(2)
m = a + b
assert m.duration() == 3, m.duration()
''', "a merged monitor is off and resumes with a sum of 0 because of a monitor that is not the first", "the off period is extended")
seed("s22_slice_modulo", "C19", [("""            while start1 <= t_last:
                add_period(start1, start1 + len1)
                start1 += modulo""","""            while start1 + len1 <= t_last or not actions:
                add_period(start1, start1 + len1)
                start1 += modulo""")], '''
env = sim.Environment(trace=False)
m = sim.Monitor("m", level=True, initial_tally=1)
env.run(13)
assert m[0:5:10].duration() == 8, m[0:5:10].duration()
''', "a periodic slice taken in the middle of a period that is not the first", "the period under way is missing")
