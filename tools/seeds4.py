import sys; sys.path.insert(0,__import__('os').path.dirname(__import__('os').path.abspath(__file__)))
from mkseed import seed
seed("s28_plain_kwargs", "C13", [("""                self._process_kwargs = kwargs

            extra""","""                if kwargs or self.status.value != data:
                    self._process_kwargs = kwargs

            extra""")], '''
class G(sim.Component):
    def process(self):
        yield self.hold(1)
class C(sim.Component):
    def process(self):
        return
        yield
    def job(self, n=0):
        got.append(n)
got = []
env = sim.Environment(trace=False, yieldless=False)
G()
c = C(process="job", n=3)
env.run(1)
c.activate(process="job")
env.run(1)
assert got == [3, 0], got
''', "yield mode, a process that is not a generator, re-activated without arguments after it ended", "the arguments of the previous activation are used again")
seed("s29_glet_reuse", "C13", [("""            if self.env._yieldless:
                self._glet = greenlet.greenlet(lambda: self._process(**kwargs), parent=self.env._glet)

        if""","""            if self.env._yieldless and (self.status.value != scheduled or self._glet or self._glet.dead):
                self._glet = greenlet.greenlet(lambda: self._process(**kwargs), parent=self.env._glet)

        if""")], '''
class C(sim.Component):
    def process(self):
        got.append("process")
    def job(self, n=0):
        got.append(n)
got = []
env = sim.Environment(trace=False)
c = C()
c.activate(process="job", n=3)
env.run(1)
assert got == [3], got
''', "yieldless: a component that was not started yet is activated with another process and arguments", "the arguments are lost")
