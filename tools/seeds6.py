import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from mkseed import seed
seed("s35_bound_zero", "C24", [("        self.upperbound = inf if upperbound is None else upperbound * self.time_unit_factor\n", "        self.upperbound = upperbound * self.time_unit_factor if upperbound else inf\n")], '''
env = sim.Environment(trace=False)
d = sim.Bounded(sim.Uniform(-10, 10), upperbound=0)
assert max(d() for _ in range(200)) <= 0
''', "Bounded with an upper bound of exactly 0", "samples above the bound")
seed("s36_same_operand", "C24", [("""            v1 = self.dis1.sample()
        else:
            v1 = self.dis1
        return self.op(v0, v1)
""", """            v1 = v0 if self.dis1 is self.dis0 else self.dis1.sample()
        else:
            v1 = self.dis1
        return self.op(v0, v1)
""")], '''
env = sim.Environment(trace=False)
d = sim.IntUniform(1, 6)
two = d + d
assert any(two() % 2 for _ in range(100))
''', "an expression in which the same distribution object occurs twice", "the sum of two dice is always even: the operands are not sampled independently")
seed("s37_cdf_flat", "C24", [("""            if r < self._cum[i]:
                return interpolate(r, self._cum[i - 1], self._cum[i], self._x[i - 1], self._x[i])
""", """            if r < self._cum[i]:
                return interpolate(r, self._cum[max(0, self._cum.index(self._cum[i]) - 1)], self._cum[i], self._x[self._cum.index(self._cum[i - 1])], self._x[i])
""")], '''
env = sim.Environment(trace=False)
d = sim.Cdf((0, 0, 10, 5, 20, 5, 30, 10))
assert not any(10 < d() < 20 for _ in range(300))
''', "a Cdf with an interval without probability (two equal cumulative values)", "values are sampled in the interval with probability 0")
seed("s38_bounded_unit", "C24", [("        self.fail_value = self.upperbound if self.lowerbound == -inf else self.lowerbound\n", "        self.fail_value = self.upperbound if self.lowerbound == -inf else lowerbound\n")] , '''
env = sim.Environment(time_unit="minutes", trace=False)
d = sim.Bounded(sim.Constant(3), 1, 2, time_unit="hours")
assert d() == 60, d()
''', "Bounded with a time unit, without fail value, of which all tries fail", "the fail value is not in the unit of the environment")
seed("s39_gauss_stream", "C25", [("            return self.randomstream.gauss(self._mean, self._standard_deviation) * self.time_unit_factor\n", "            return random.gauss(self._mean, self._standard_deviation) * self.time_unit_factor\n")], '''
import random
env = sim.Environment(trace=False)
a = sim.Normal(5, 1, use_gauss=True, randomstream=random.Random(1))()
b = sim.Normal(5, 1, use_gauss=True, randomstream=random.Random(1))()
assert a == b
''', "a Normal distribution with use_gauss and its own stream", "samples come from the default stream")
seed("s40_fallback_stream", "C25", [("            t += -math.log(self.randomstream.random()) / lam\n", "            t += random.expovariate(lam)\n")], '''
import random
env = sim.Environment(trace=False)
a, b = [[sim.Poisson(800, randomstream=random.Random(1))() for _ in range(10)] for _ in range(2)]
st = random.Random(1); d = sim.Poisson(800, randomstream=st); a = [d() for _ in range(10)]
st = random.Random(1); d = sim.Poisson(800, randomstream=st); b = [d() for _ in range(10)]
assert a == b, (a, b)
''', "a Poisson distribution with a mean so large that the alternative algorithm is used, with its own stream", "samples come from the default stream")
seed("s41_seed_star", "C25", [("""        elif seed == "*":
            seed = None
        randomstream.seed(seed)
""","""        elif seed == "*":
            seed = None
        randomstream.seed(seed)
        random.seed(seed)
""")], '''
import random
env = sim.Environment(trace=False)
sim.random_seed(1)
a = [sim.Uniform(0, 1)() for _ in range(3)]
sim.random_seed(1)
st = random.Random()
b = [sim.Uniform(0, 1)()]
sim.random_seed(5, st)
b += [sim.Uniform(0, 1)() for _ in range(2)]
assert a == b
''', "seeding an own stream while the default stream is in use", "the default stream is seeded as well")
