"""Driver for component generators: operations of spec/SalabimGen.tla on the real salabim."""
import os
import math
import random
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import salabim as sim  # noqa: E402
from mon import INF, NONE, WEIRD, Sink, num  # noqa: E402


class World:
    def __init__(self, G, variant=0):
        self.form = variant
        self.ts = G.get("ts", 1)
        kw = dict(trace=Sink() if variant % 13 == 5 else False, yieldless=bool(variant % 2))
        self.env = sim.Environment(**kw)
        if variant % 3 == 1:  # the generators live in an environment that is not the default one
            self.other = sim.Environment(trace=False, yieldless=bool(variant // 2 % 2))
        self.default = sim.default_env()
        self.gs = []
        self.shift = 0
        self.err = ""
        self.tag = 0
        w = self

        def made(c, tag):
            if c.env is not w.env or sim.default_env() is not w.env or w.env.now() != c.creation_time():
                w.err = "made in the wrong environment or at the wrong time"
            if tag not in w.rec:
                w.err = "arguments lost"
                return
            w.rec[tag][0].append(w.now())

        def started(c):
            w.rec[c.tag][1].append(w.now())

        if variant % 2:

            class C(sim.Component):
                def setup(self, tag):
                    self.tag = tag
                    made(self, tag)

                def process(self):
                    started(self)

        else:

            class C(sim.Component):
                def setup(self, tag):
                    self.tag = tag
                    made(self, tag)

                def process(self):
                    started(self)
                    return
                    yield

        self.C = C
        self.rec = {}

    def now(self):
        """internal time in units of the specification"""
        return num((self.env.now() + self.shift) / self.ts)

    def snapshot(self):
        gs = []
        if sim.default_env() is not self.default:
            self.err = "the default environment changed"
        for g, tag in self.gs:
            m, s, e = self.rec[tag]
            x = g.scheduled_time()
            gs.append({"st": g.status(), "sch": INF if x == math.inf else num(x / self.ts), "made": list(m), "start": list(s), "ends": list(e)})
        return {"now": num(self.env.now() / self.ts), "err": self.err, "gs": gs}

    def do(self, op):
        self.form += 1
        self.err = ""
        try:
            getattr(self, "do_" + op["op"])(op)
        except Exception as e:
            self.err = type(e).__name__
            self.exc = e

    def do_adv(self, o):
        if self.form % 2:
            self.env.run(o["d"] * self.ts)
        else:
            self.env.run(till=self.env.now() + o["d"] * self.ts)

    def do_resetnow(self, o):
        b = self.env.now()
        self.env.reset_now(o["t"] * self.ts)
        self.shift += b - o["t"] * self.ts

    def do_cancel(self, o):
        self.gs[o["g"] - 1][0].cancel()

    def val(self, x):
        """a plain value, or a distribution or function that gives it"""
        f = self.form % 4
        return sim.Constant(x) if f == 1 else (lambda: x) if f == 2 else x

    def samples(self, xs):
        if len(xs) == 1 and self.form % 3 != 1:
            return sim.Constant(xs[0] * self.ts) if self.form % 3 else xs[0] * self.ts
        it = [0]

        def f():
            it[0] += 1
            return xs[(it[0] - 1) % len(xs)] * self.ts

        return f

    def do_gen(self, o):
        ts = self.ts
        kw = {}
        for k, key in (("at", "at"), ("delay", "delay"), ("till", "till"), ("dur", "duration")):
            if o[k] != NONE:
                kw[key] = self.val(o[k] * ts)
        if o["num"] != NONE:
            kw["number"] = self.val(o["num"])
        if o["fa"]:
            kw["force_at"] = True
        if o["ft"]:
            kw["force_till"] = True
        if o["k"] == "iat":
            kw["iat"] = self.samples(o["iats"])
        if o["ds"]:
            kw["disturbance"] = self.samples(o["ds"]) if len(o["ds"]) > 1 else sim.Constant(o["ds"][0] * ts)
        if o["k"] == "equi":
            kw["equidistant"] = True
        if o["k"] == "moments":
            ms = [m * ts for m in o["ms"]]
            kw = {"moments": (ms, tuple(ms), iter(ms), lambda: ms)[self.form % 4]}
        cls = self.C
        f = self.form % 3
        if not o["ds"]:
            if f == 1:
                cls = sim.Pdf((self.C, 1))
            elif f == 2:

                def cls(tag, C=self.C):
                    return C(tag=tag)

        self.tag += 1
        tag = self.tag
        rec = self.rec[tag] = ([], [], [])
        kw["at_end"] = lambda: rec[2].append(self.now())
        it = [0]

        def rnd():
            it[0] += 1
            return o["us"][(it[0] - 1) % len(o["us"])] / 8

        random._inst.random = rnd  # the values that the default random stream delivers
        try:
            g = sim.ComponentGenerator(cls, env=self.env, tag=tag, **kw)
        finally:
            del random._inst.random
        self.gs.append((g, tag))


def replay(G, ops, variant):
    w = World(G, variant)
    for o in ops:
        w.do(o)
    return w.snapshot()


def genop(r, now, ms8):
    o = {"op": "gen", "k": "iat", "at": NONE, "delay": NONE, "till": NONE, "dur": NONE, "num": NONE, "iats": [2], "ds": [], "fa": False, "ft": False, "us": [3], "ms": []}
    k = o["k"] = r.choice(["iat", "iat", "iat", "iat", "equi", "spread", "moments"])
    if k == "moments":
        o["ms"] = [now + r.choice([0, 0, 1, 2, 5, 9, 20]) for _ in range(r.randint(1, 5))]
        if r.random() < 0.1:
            o["ms"].append(now - 1)
        return o
    x = r.random()
    start = now
    if x < 0.3:
        o["at"] = start = now + r.choice([0, 1, 4, 4, 10])
        if r.random() < 0.08:
            o["at"] = start = now - 1
    elif x < 0.6:
        o["delay"] = r.choice([0, 1, 3, 6])
        start = now + o["delay"]
        if r.random() < 0.05:
            o["at"] = now + 2
    if r.random() < 0.7:
        n = o["num"] = r.choice([0, 1, 2, 3, 3, 4, 5, 7])
    else:
        n = None
    span = r.choice([0, 1, 3, 7, 12, 12, 20, 40])
    limited = r.random() < 0.6 or k != "iat"
    if k == "equi":
        if n is None or r.random() < 0.9:
            n = o["num"] = r.choice([2, 3, 4, 5, 7, 0, 1])
        span = r.choice([0, 1, 2, 3, 5]) * max(1, n - 1)
    elif k == "spread":
        span = 64
        o["fa"] = r.random() < 0.4
        o["ft"] = r.random() < 0.4
        if (n or 0) > 1 and (o["fa"] or o["ft"]):
            a = r.choice([0, 1, 2, 3])
            b = a + r.choice([x for x in (1, 2, 4) if a + x <= 7])
            o["us"] = [r.randint(a, b) for _ in range(n - 2)] + [a, b]
            r.shuffle(o["us"])
        else:
            o["us"] = [r.randint(0, 7) for _ in range(max(1, n or 1))]
    if limited and r.random() < 0.97:
        if r.random() < 0.5:
            o["till"] = start + span
        else:
            o["dur"] = span
        if r.random() < 0.03:
            o["till"], o["dur"] = start - 1, NONE
    if k == "iat":
        o["iats"] = r.choice([[1], [2], [3], [5], [1, 2], [3, 1, 4], [0, 2], [2, 0, 0, 1]])
        o["fa"] = r.random() < 0.4
        if r.random() < 0.03:
            o["ft"] = True
        if r.random() < 0.3:
            lo = 0 if o["fa"] else -min(o["iats"])
            o["ds"] = [r.randint(lo, 3) for _ in range(r.randint(1, 4))]
            if o["ds"] == [0]:
                o["ds"] = [0, 0]
    return o


def script(seed, profile, length):
    r = random.Random(str(seed))
    G = {"ts": r.choice([1, 1, 0.5, 0.25, 4])}
    w = World(G, r.randrange(60))
    tr = {"g": G, "b": w.snapshot(), "ev": []}
    for step in range(length):
        x = r.random()
        now = num(w.env.now() / w.ts)
        if len(w.gs) < 4 and (x < 0.25 or not w.gs):
            o = genop(r, now, None)
        elif x < 0.85:
            o = {"op": "adv", "d": r.choice([0, 1, 1, 2, 3, 5, 10])}
        elif x < 0.95:
            o = {"op": "resetnow", "t": r.choice([0, 0, 3, 100])}
        else:
            o = {"op": "cancel", "g": r.randint(1, len(w.gs))} if w.gs else {"op": "adv", "d": 1}
        w.do(o)
        tr["ev"].append({"o": o, "b": w.snapshot()})
    return tr
