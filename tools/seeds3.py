import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from mkseed import seed
seed("s23_occ_partial", "C14", [("""            del self._claims[r]
        r.claimed_quantity.tally(r._claimed_quantity)
        r.occupancy.tally(0 if r._capacity <= 0 else r._claimed_quantity / r._capacity)
""","""            del self._claims[r]
            r.occupancy.tally(0 if r._capacity <= 0 else r._claimed_quantity / r._capacity)
        r.claimed_quantity.tally(r._claimed_quantity)
""")], '''
class C(sim.Component):
    def process(self):
        self.request((r, 2))
        self.hold(2)
        self.release((r, 1))
        self.hold(2)
        self.release()
        self.hold(2)
env = sim.Environment(trace=False)
r = sim.Resource("r", capacity=2)
C()
env.run(6)
assert abs(r.occupancy.mean() * 6 - 3) < 1e-9, r.occupancy.mean()
''', "a partial release that leaves a claim, some time passing, then a full release", "the occupancy monitor keeps the old value after a partial release")
seed("s24_claim_more", "C14", [("""                        mx = self._member(r._claimers)
                        if mx is None:
                            self.enter_sorted(r._claimers, this_prio)
""","""                        mx = self._member(r._claimers)
                        if mx is not None and mx.priority != this_prio:
                            self.leave(r._claimers)
                            mx = None
                        if mx is None:
                            self.enter_sorted(r._claimers, this_prio)
""")], '''
class C(sim.Component):
    def process(self):
        self.request((r, 1, 1))
        self.hold(2)
        self.request((r, 1, 3))
        self.hold(2)
        self.release()
env = sim.Environment(trace=False)
r = sim.Resource("r", capacity=2)
C()
env.run(10)
assert r.claimers().length_of_stay.number_of_entries() == 1
assert r.claimers().length_of_stay.mean() == 4
''', "a second request of the same component for the same resource with another priority while it still claims", "the length of stay of the claimers is cut in two")
seed("s26_gen_drift", "C20", [("""                self.at_end()
                return
            t = self.env._now + iat

            self.hold""","""                self.at_end()
                return
            t = max(self.env._now + iat, at - iat)

            self.hold""")], '''
class C(sim.Component):
    def setup(self):
        made.append(env.now())
    def process(self):
        started.append(env.now())
made, started = [], []
env = sim.Environment(trace=False)
ds = iter([0, 9, 0, 0])
sim.ComponentGenerator(C, iat=2, disturbance=lambda: next(ds), number=4)
env.run(100)
assert sorted(started) == [2, 6, 8, 13], started
''', "a disturbance larger than the inter arrival time", "later arrivals shift along with the disturbance of an earlier one")
seed("s27_gen_till", "C20", [("""            if t > self.till:
                self.activate(process="do_finalize", at=self.till - self.env._offset)
""","""            if t > self.till or n + 1 == self.number and t == self.till:
                self.activate(process="do_finalize", at=self.till - self.env._offset)
""")], '''
class C(sim.Component):
    def process(self):
        started.append(env.now())
started = []
env = sim.Environment(trace=False)
sim.ComponentGenerator(C, iat=2, till=6, number=3)
env.run(100)
assert started == [2, 4, 6], started
''', "the last of the given number of components is due exactly at till", "it is not generated")
