"""Driver for distributions and random streams (spec/SalabimDist.tla)."""
import contextlib
import math
import os
import random
import sys
from fractions import Fraction

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import salabim as sim  # noqa: E402
from mon import Sink  # noqa: E402

WEIRD = -888888
TEXTS = {100001: "a", 100002: "b", 100003: "x y"}
UNITS = {"weeks": 604800, "days": 86400, "hours": 3600, "minutes": 60, "seconds": 1}
LIMIT = 20000


class TooMany(Exception):
    pass


class Tree(random.Random):
    """delivers the numbers (2k+1)/2N (and all choices out of n) in all possible orders, one order per pass"""

    def __init__(self, n):
        self.n = n
        self.plan = []
        self.used = 0
        super().__init__(1)

    def seed(self, *args, **kwargs):
        pass

    def branch(self, n):
        if self.used == len(self.plan):
            if self.used > 300:
                raise TooMany
            self.plan.append((0, n))
        k, m = self.plan[self.used]
        if m != n:
            raise TooMany
        self.used += 1
        self.weight /= n
        return k

    def random(self):
        return (2 * self.branch(self.n) + 1) / (2 * self.n)

    def _randbelow(self, n):
        """used by randint, choice, sample, shuffle, ..."""
        return self.branch(n) if n <= 1000 else int(n * self.random())

    def leaves(self, f):
        self.plan = []
        count = 0
        while True:
            self.used = 0
            self.weight = Fraction(1)
            self.gauss_next = None
            v = f()
            count += 1
            if count > LIMIT:
                raise TooMany
            yield v, self.weight
            self.plan = self.plan[: self.used]
            while self.plan and self.plan[-1][0] == self.plan[-1][1] - 1:
                self.plan.pop()
            if not self.plan:
                return
            self.plan[-1] = (self.plan[-1][0] + 1, self.plan[-1][1])


@contextlib.contextmanager
def default_stream(stream):
    """the functions of module random use the given stream"""
    names = [n for n in dir(random) if isinstance(getattr(getattr(random, n), "__self__", None), random.Random)]
    saved = {n: getattr(random, n) for n in names}
    try:
        for n in names:
            setattr(random, n, getattr(stream, n))
        yield
    finally:
        for n, v in saved.items():
            setattr(random, n, v)


def frac(v, exact=True):
    if isinstance(v, str):
        return [next((k for k, t in TEXTS.items() if t == v), WEIRD), 1]
    if isinstance(v, (int, float)) and math.isnan(v):
        return [0, 0]
    if not isinstance(v, (int, float)) or not math.isfinite(v):
        return [WEIRD, 1]
    if not exact:
        return [math.floor(v * 100 + 1e-6), 100]
    f = Fraction(v).limit_denominator(200000)
    if abs(f - Fraction(v)) > 1e-9 * max(1, abs(v)):
        return [WEIRD, 2]
    return [f.numerator, f.denominator]


def text(xs):
    return ", ".join(str(x) for x in xs)


class World:
    def __init__(self, G, variant=0):
        sim.reset()
        self.G = G
        self.form = self.variant = variant
        random.seed(987654)
        self.env = sim.Environment(time_unit=G["u"], random_seed="", trace=False)
        self.err, self.r, self.m = "", [], [0, 0]
        self.streams = [None]
        self.values = []

    def next(self, n):
        """varies the way things are expressed"""
        self.form = (self.form * 1103515245 + 12345) % 2**31
        return (self.form >> 8) % n

    def snapshot(self):
        return {"err": self.err, "r": self.r, "m": self.m, "dr": [self.values.index(v) + 1 for v in self.values]}

    def do(self, o):
        self.err, self.r, self.m = "", [], [0, 0]
        try:
            getattr(self, "do_" + o["op"])(o)
        except TooMany:
            self.err = "does not end"
        except Exception as e:
            self.err = type(e).__name__

    # ------------------------------------------------------------------ distributions
    def build(self, t, st, plain=False):
        k = t["k"]
        kw = {}
        if t["u"]:
            kw["time_unit"] = t["u"]
        if self.next(3) == 0:
            kw["env"] = self.env
        if k == "text":
            return TEXTS[t["a"]]
        strings = self.next(4) == 0 and not plain
        if k not in ("expr", "map", "bnd") and st is not None:
            kw["randomstream"] = st

        def named(cls, *args):
            """the distribution, or its specification as a text"""
            if strings:
                args = [a for a in args if a is not None]
                lo = 2 if cls in ("Erlang", "Cdf", "CumPdf", "Poisson") else 1  # letters that are required
                name = cls[: lo + self.next(len(cls) - lo + 1)]
                name = (name, name.lower(), name.upper(), name + " ")[self.next(4)]
                bare = self.next(3) == 0 and {"Constant": 1, "Uniform": 2, "Triangular": 3}.get(cls) == len(args)
                kws = {k: v for k, v in kw.items() if k != "env"}
                return sim.Distribution(text(args) if bare else f"{name}({text(args)})", **kws)
            return getattr(sim, cls)(*args, **kw)

        if k == "const":
            return named("Constant", t["a"])
        if k == "int":
            return named("IntUniform", t["a"], None if t["a"] == t["b"] and self.next(2) else t["b"])
        if k == "unif":
            return named("Uniform", t["a"], None if t["a"] == t["b"] and self.next(2) else t["b"])
        if k == "ext":
            kw.pop("randomstream", None)
            return sim.External((random if st is None else st).uniform, t["a"], t["b"], **kw)
        if k == "tri":
            if 2 * t["m"] == t["a"] + t["b"] and self.next(2):
                return sim.Triangular(t["a"], t["b"], **kw)
            return named("Triangular", t["a"], t["b"], t["m"])
        if k == "exp":
            if t["a"] > 0 and self.next(3) == 0:
                return sim.Exponential(rate=1 / t["a"], **kw)
            return named("Exponential", t["a"])
        if k == "norm":
            if t["a"] > 0 and self.next(2):
                return sim.Normal(t["a"], coefficient_of_variation=0.25, **kw)
            return named("Normal", t["a"], 2)
        if k == "weib":
            return named("Weibull", t["a"], t["m"])
        if k == "gamma":
            if self.next(2):
                return sim.Gamma(t["a"], rate=1 / t["b"], **kw)
            return named("Gamma", t["a"], t["b"])
        if k == "erlang":
            if self.next(2):
                return sim.Erlang(t["a"], scale=t["b"], **kw)
            return named("Erlang", t["a"], 1 / t["b"])
        kw1 = {k: v for k, v in kw.items() if k == "randomstream"}
        if k == "beta":
            return sim.Beta(t["a"], t["b"], **kw1)
        if k == "pois":
            return sim.Poisson(t["a"] / t["b"], **kw1)
        if k == "cdf":
            return named("Cdf", self.pairs(t["x"], t["p"]))
        if k == "pdf":
            xs = [x["a"] if x["k"] == "const" and not x["u"] and (t["u"] or self.next(3)) else self.build(x, st) for x in t["x"]]
            cls = (sim.Pdf, sim.Pmf)[self.next(2)]
            scale = (1, 0.25, 10)[self.next(3)]
            ps = [p * scale for p in t["p"]]
            f = self.next(4)
            if f == 0 and len(set(map(str, xs))) == len(xs):
                return cls(dict(zip(xs, ps)), **kw)
            if f == 1:
                return cls(xs, ps if self.next(2) else tuple(ps), **kw)
            if len(set(ps)) == 1 and ps[0] and f == 2:
                return cls(xs, 1, **kw)
            return cls(self.pairs(xs, ps), **kw)
        if k == "cumpdf":
            xs = [x["a"] if x["k"] == "const" and not x["u"] and (t["u"] or self.next(3)) else self.build(x, st) for x in t["x"]]
            cls = (sim.CumPdf, sim.CumPmf)[self.next(2)]
            scale = (1, 0.25, 8)[self.next(3)]
            ps = [p * scale for p in t["p"]]
            if self.next(2):
                return cls(xs, ps, **kw)
            return cls(self.pairs(xs, ps), **kw)
        if k == "expr":
            x, y = t["x"], t["y"]
            plain = [z["k"] == "const" and not z["u"] for z in (x, y)]
            nx = plain[0] and not plain[1] and (self.next(4) or x["a"] == 0)
            ny = plain[1] and not nx and self.next(4)
            a = x["a"] if nx else self.build(x, st, True)
            b = y["a"] if ny else a if x == y and not nx and self.next(4) else self.build(y, st, True)
            if t["op"] == "sub" and nx and x["a"] == 0 and self.next(2):
                return -b
            if t["op"] == "add" and ny and y["a"] == 0 and self.next(2):
                return +a
            return {
                "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "floordiv": lambda: a // b, "pow": lambda: a**b,
            }[t["op"]]()
        if k == "map":
            return sim.Map(self.build(t["x"], st), {"double": lambda v: 2 * v, "square": lambda v: v * v, "one": lambda v: 1}[t["f"]])
        if k == "bnd":
            args = {}
            if t["haslo"]:
                args["lowerbound"] = t["lo"]
            if t["hashi"]:
                args["upperbound"] = t["hi"]
            if t["hasfail"]:
                args["fail_value"] = t["fail"]
            if t["n"] != 100 or self.next(2):
                args["number_of_retries"] = t["n"]
            if not t["il"] or self.next(2):
                args["include_lowerbound"] = t["il"]
            if not t["iu"] or self.next(2):
                args["include_upperbound"] = t["iu"]
            d = self.build(t["x"], st)
            if not t["u"] and self.next(2):
                b = sim.Bounded(d, **args)
                b.sample = lambda: d.bounded_sample(**args)
                return b
            return sim.Bounded(d, **args, **kw)
        raise AssertionError(k)

    def pairs(self, xs, ps):
        out = [v for p in zip(xs, ps) for v in p]
        return out if self.next(2) else tuple(out)

    def do_dist(self, o):
        t = o["d"]
        st = Tree(o["N"])
        exact = t["k"] not in ("tri", "exp", "weib")
        given = self.next(2)
        with default_stream(random._inst if given else st):
            d = self.build(t, st if given else None)
            out = {}
            if t["k"] not in ("norm", "gamma", "erlang", "beta"):
                for v, w in st.leaves(d if self.next(2) else d.sample):
                    v = tuple(frac(v, exact))
                    out[v] = out.get(v, 0) + w
            m = d.mean()
        self.m = [0, 0] if t["k"] == "weib" and t["m"] != 1 else frac(m)
        self.r = [[list(v), [out[v].numerator, out[v].denominator]] for v in sorted(out, key=lambda v: Fraction(*v))]

    def do_draw(self, o):
        st = Tree(o["N"])
        cls = (sim.Pdf, sim.Pmf)[self.next(2)]
        if len(set(o["p"])) == 1 and self.next(2):
            d = cls(o["x"], 1, randomstream=st)
        else:
            d = cls(o["x"], o["p"], randomstream=st)
        out = {}
        for v, w in st.leaves(lambda: d.sample(n=o["n"])):
            v = int("0" + "".join(str(x) for x in sorted(v)))
            out[v] = out.get(v, 0) + w
        self.r = [[[v, 1], [out[v].numerator, out[v].denominator]] for v in sorted(out)]

    # ------------------------------------------------------------------ random streams
    @staticmethod
    def seed(s):
        return {"none": None}.get(s, int(s) if s.isdigit() else s)

    def do_stream(self, o):
        cls = (random.Random, sim.Random)[self.next(2)]
        self.streams.append(cls() if o["seed"] == "*" else cls(self.seed(o["seed"])))

    def do_reseed(self, o):
        s, st = self.seed(o["seed"]), self.streams[o["i"] - 1]
        if st is None:
            if s is None and self.next(2):
                sim.random_seed()
            else:
                sim.random_seed(s, **({} if self.next(2) else {"set_numpy_random_seed": False}))
        else:
            sim.random_seed(s, randomstream=st)

    def do_newenv(self, o):
        kw = {} if o["seed"] == "none" and self.next(2) else {"random_seed": self.seed(o["seed"])}
        self.env = sim.Environment(time_unit=self.G["u"], yieldless=bool(self.next(2)), trace=Sink() if self.next(3) == 0 else False, isdefault_env=bool(self.next(3)), **kw)

    def do_sample(self, o):
        st = self.streams[o["i"] - 1]
        kw = {} if st is None else {"randomstream": st}
        v = self.kind(o["k"], kw)
        self.values.append(v)

    def kind(self, k, kw):
        f = self.next(3)
        sec = {"time_unit": "seconds", "env": self.env}
        D = sim.Distribution
        if k == "model":
            return self.model(f)
        d = {
            "uniform": lambda: (sim.Uniform(0, 1, **kw), D("Uniform(0, 1)", **kw), sim.Uniform(0, 60, **sec, **kw)),
            "exp": lambda: (sim.Exponential(2, **kw), sim.Exponential(rate=0.5, **kw), sim.Exponential(120, **sec, **kw)),
            "normal": lambda: (sim.Normal(5, 1, **kw), sim.Normal(5, coefficient_of_variation=0.2, **kw), sim.Normal(300, 60, **sec, **kw)),
            "gauss": lambda: (sim.Normal(5, 1, use_gauss=True, **kw), sim.Normal(5, 1, use_gauss=True, **kw), sim.Normal(300, 60, use_gauss=True, **sec, **kw)),
            "gamma": lambda: (sim.Gamma(2, 3, **kw), sim.Gamma(2, rate=1 / 3, **kw), sim.Gamma(2, 180, **sec, **kw)),
            "erlang": lambda: (sim.Erlang(3, 1 / 5, **kw), sim.Erlang(3, scale=5, **kw), sim.Erlang(3, scale=300, **sec, **kw)),
            "weibull": lambda: (sim.Weibull(3, 2, **kw), D("Weib(3, 2)", **kw), sim.Weibull(180, 2, **sec, **kw)),
            "beta": lambda: (sim.Beta(2, 3, **kw), D("Beta(2,3)", **kw), sim.Beta(2, 3, **kw)),
            "tri": lambda: (sim.Triangular(0, 1, 0.3, **kw), D("0, 1, 0.3", **kw), sim.Triangular(0, 60, 18, **sec, **kw)),
            "cdf": lambda: (sim.Cdf((0, 0, 1, 1, 5, 3), **kw), sim.Cdf((0, 0, 1, 10, 5, 30), **kw), sim.Cdf((0, 0, 60, 1, 300, 3), **sec, **kw)),
            "int": lambda: (sim.IntUniform(1, 10**9, **kw), D("IntUniform(1, 10**9)", **kw), sim.IntUniform(1, 10**9, **kw)),
            "pdf": lambda: (sim.Pdf(range(400), 1, **kw), sim.Pmf(range(400), 1, **kw), D("Pdf(range(400), 1)", **kw)),
            "pmf": lambda: (sim.Pmf(range(400), range(400), **kw), sim.Pdf(dict(zip(range(400), range(400))), **kw), sim.Pdf(range(400), [3 * i for i in range(400)], **kw)),
            "cumpdf": lambda: (sim.CumPdf(list(range(400)), list(range(400)), **kw), sim.CumPmf(list(range(400)), list(range(400)), **kw), sim.CumPdf(list(range(400)), [2 * i for i in range(400)], **kw)),
            "poisson": lambda: (sim.Poisson(760, **kw), D("Poisson(760)", **kw), sim.Poisson(760.0, **kw)),
            "few": lambda: (sim.Poisson(4, **kw), D("Poisson(4)", **kw), sim.Poisson(4.0, **kw)),
            "draw": lambda: (sim.Pdf(range(1000), 1, **kw), sim.Pmf(range(1000), 1, **kw), sim.Pdf({i: 3 for i in range(1000)}, **kw)),
            "mixed": lambda: (sim.Pdf((sim.Uniform(0, 1, **kw), 1, sim.Uniform(5, 6, **kw) + 1, 2), **kw),) * 3,
            "bounded": lambda: (sim.Bounded(sim.Normal(7, 1, **kw), 6, 8), sim.Bounded(sim.Normal(420, 60, **sec, **kw), 360, 480, **sec), sim.Bounded(sim.Normal(7, 1, **kw), 6, 8)),
        }[k]()[f]
        if self.next(2):
            d.mean(), repr(d)
            d.print_info(as_str=True) if hasattr(d, "print_info") else None
        if k == "draw":
            return str(d.sample(3))
        if k in ("poisson", "few", "pdf", "pmf", "cumpdf"):
            return str([d() for _ in range(8)])
        return f"{d():.6e}"

    def model(self, f):
        """a complete simulation"""
        env = sim.Environment(time_unit=self.G["u"], random_seed="", yieldless=f != 1, trace=Sink() if f == 2 else False)
        q, r = sim.Queue("q"), sim.Resource("r")
        seen = []

        class Y(sim.Component):
            def process(self):
                self.enter(q)
                self.request(r)
                self.leave(q)
                self.hold(sim.Uniform(1, 4))
                seen.append(env.now())

        class G(sim.Component):
            def process(self):
                self.enter(q)
                yield self.request(r)
                self.leave(q)
                yield self.hold(sim.Uniform(1, 4))
                seen.append(env.now())

        sim.ComponentGenerator(G if f == 1 else Y, iat=sim.Exponential(3))
        sim.ComponentGenerator(G if f == 1 else Y, number=2, duration=15)
        env.run(20)
        out = f"model {sum(seen):.6e} {len(seen)} {q.length.mean():.6e} {r.occupancy.mean():.6e}"
        self.env = env
        return out


def replay(G, ops, variant):
    w = World(G, variant)
    for o in ops:
        w.do(o)
    return w.snapshot()


# ---------------------------------------------------------------------- random terms
def lcm(*a):
    out = 1
    for x in a:
        out = out * x // math.gcd(out, x)
    return out


def need(t):
    """(grid, number of draws)"""
    k = t["k"]
    if k == "int":
        return max(1, t["b"] - t["a"] + 1), 1
    if k in ("unif", "ext"):
        return 2, 1
    if k in ("tri", "exp", "weib", "pois"):
        return 12, 1
    if k == "cdf":
        return max(1, t["p"][-1]), 1
    if k in ("pdf", "cumpdf"):
        sub = [need(x) for x in t["x"]]
        n = lcm(len(t["x"]), sum(t["p"]) or 1) if k == "pdf" else t["p"][-1] or 1
        return lcm(n, *[s[0] for s in sub]), 1 + max(s[1] for s in sub)
    if k == "expr":
        a, b = need(t["x"]), need(t["y"])
        return lcm(a[0], b[0]), a[1] + b[1]
    if k == "map":
        return need(t["x"])
    if k == "bnd":
        a = need(t["x"])
        return a[0], a[1] * (t["n"] if t["n"] < 100 else 1)
    return 1, 0


class Big(Exception):
    """beyond the integers of TLC"""


def scaled(G, t):
    """some time unit other than that of the environment is used"""
    subs = t["x"] if t["k"] in ("pdf", "cumpdf") else [t[f] for f in ("x", "y") if isinstance(t.get(f), dict)]
    return t["u"] not in ("", G["u"]) or any(scaled(G, x) for x in subs)


def values(G, t):
    """all values of a simple distribution, or None"""
    f = Fraction(UNITS[t["u"]], UNITS[G["u"]]) if t["u"] and G["u"] != "n/a" else Fraction(1)
    if t["k"] == "const":
        return {t["a"] * f}
    if t["k"] == "int":
        return {a * f for a in range(t["a"], t["b"] + 1)}
    if t["k"] in ("pdf", "cumpdf"):
        vs = [values(G, x) for x in t["x"]]
        return None if None in vs else {a * f for v in vs for a in v}
    return None


def bound(G, N, t):
    """(least common denominator, largest absolute value) of the values, at most"""

    def fits(D, M, limit=10**9):
        if D * D * max(M, 1) > limit or M > 100000:  # (from 100001 on: texts)
            raise Big
        return D, M

    f = Fraction(UNITS[t["u"]], UNITS[G["u"]]) if t["u"] and G["u"] != "n/a" else Fraction(1)
    k = t["k"]
    if k in ("const", "text"):
        D, M = 1, abs(t["a"]) if k == "const" else 1
    elif k == "int":
        D, M = 1, max(abs(t["a"]), abs(t["b"]))
    elif k in ("unif", "ext"):
        D, M = 2 * N, max(abs(t["a"]), abs(t["b"]))
    elif k == "cdf":
        D, M = 2 * N * lcm(*[max(1, abs(b - a)) for a, b in zip(t["p"], t["p"][1:])]), max(abs(x) for x in t["x"])
    elif k in ("pdf", "cumpdf"):
        sub = [bound(G, N, x) for x in t["x"]]
        D, M = lcm(*[s[0] for s in sub]), max(s[1] for s in sub)
    elif k == "map":
        D, M = bound(G, N, t["x"])
        D, M = (D * D, M * M) if t["f"] == "square" else (D, 2 * M)
    elif k == "bnd":
        D, M = bound(G, N, t["x"])
        if (t["haslo"] or t["hashi"]) and (f != 1 or scaled(G, t["x"]) or D & (D - 1) and t["x"]["k"] != "unif"):
            # rounding errors should not matter: no value at a bound
            v = values(G, t["x"])
            if v is None or v & {t["lo"] * f, t["hi"] * f}:
                raise Big
        M = max(M, abs(t["lo"]) * f, abs(t["hi"]) * f, t["fail"])
        return fits(lcm(D, f.denominator), M)
    elif k == "expr":
        (D, M), (E, L) = bound(G, N, t["x"]), bound(G, N, t["y"])
        fits(D, max(M, 1) * E)
        fits(E, max(L, 1) * D)
        if t["op"] in ("add", "sub"):
            D, M = lcm(D, E), M + L
        elif t["op"] == "mul":
            D, M = D * E, M * L
        elif t["op"] in ("div", "floordiv"):
            D, M = D * 6, M * E
        else:
            D, M = D * D, max(M * M, 1)
    else:
        return 1, 1
    return fits(D * f.denominator, M * f)


class Terms:
    def __init__(self, r, G):
        self.r, self.G = r, G

    def unit(self, p=0.35):
        if self.G["u"] == "n/a":
            return "" if self.r.random() < 0.98 else "hours"
        near = {"minutes": ("seconds", "minutes", "hours"), "days": ("weeks", "days", "hours"), "weeks": ("days", "weeks")}[self.G["u"]]
        return self.r.choice(near) if self.r.random() < p else ""

    def const(self, lo=-3, hi=9):
        return {"k": "const", "a": self.r.randint(lo, hi), "u": self.unit(0.2)}

    def ab(self):
        r = self.r
        a = r.randint(-2, 6)
        b = a + r.choice((0, 1, 1, 2, 3, 5))
        return (b, a) if r.random() < 0.03 else (a, b)

    def leaf(self):
        r = self.r
        k = r.choice(("const", "int", "int", "unif", "unif", "ext", "pdf", "pdf", "cumpdf", "cdf"))
        u = self.unit()
        if k == "const":
            return self.const()
        if k in ("int", "unif"):
            a, b = self.ab()
            return {"k": k, "a": a, "b": b, "u": u}
        if k == "ext":
            a = r.randint(-2, 6)
            return {"k": k, "a": a, "b": a + r.randint(0, 4), "u": u}
        n = r.randint(1, 4)
        if k == "pdf":
            ps = [r.choice((0, 1, 1, 1, 2, 3)) for _ in range(n)]
            if r.random() < 0.3:
                ps = [1] * n
            return {"k": k, "x": [{"k": "const", "a": r.randint(-2, 9), "u": ""} for _ in range(n)], "p": ps, "u": u}
        if k == "cumpdf":
            ps = sorted(r.randint(0, 6) for _ in range(n))
            if r.random() < 0.05:
                r.shuffle(ps)
            return {"k": k, "x": [{"k": "const", "a": r.randint(-2, 9), "u": ""} for _ in range(n)], "p": ps, "u": u}
        ps = [0] + sorted(r.randint(0, 6) for _ in range(n))
        xs = sorted(r.randint(-3, 9) for _ in range(n + 1))
        if r.random() < 0.05:
            r.shuffle(r.choice((xs, ps)))
        return {"k": "cdf", "x": xs, "p": ps, "u": u}

    def top(self):
        r = self.r
        k = r.choice(("tri", "exp", "weib", "pois", "norm", "gamma", "erlang", "beta"))
        u = self.unit(0.5)
        if k == "tri":
            if self.G["u"] != "days" or u == "hours":  # whole factors only (the quantiles are rounded)
                u = ""
            a = r.randint(-2, 5)
            b = a + r.randint(0, 6)
            m = r.randint(a, b) if r.random() < 0.97 else b + 1
            return {"k": k, "a": a, "b": b, "m": m, "u": u}
        if k == "weib":
            return {"k": k, "a": r.randint(1, 5), "m": r.choice((1, 2, 2)) if r.random() < 0.97 else 0, "u": u if u == "weeks" else ""}
        if k == "pois":
            a, b = r.choice(((1, 2), (1, 1), (2, 1), (3, 1)))
            return {"k": k, "a": a, "b": b, "u": ""}
        if k == "beta":
            return {"k": k, "a": r.randint(1, 4), "b": r.randint(1, 4), "u": ""}
        return {"k": k, "a": r.randint(1, 6) if r.random() < 0.97 or k == "norm" else 0, "b": r.randint(1, 4), "u": u}

    def term(self, depth):
        r = self.r
        if depth == 0:
            return self.leaf()
        k = r.choice(("leaf", "expr", "expr", "map", "bnd", "bnd", "pdf", "cumpdf"))
        if k == "leaf":
            return self.leaf()
        if k == "map":
            return {"k": k, "f": r.choice(("double", "square", "one")), "x": self.term(depth - 1), "u": ""}
        if k == "expr":
            op = r.choice(("add", "add", "sub", "sub", "mul", "mul", "div", "floordiv", "pow"))
            x = self.term(depth - 1) if r.random() < 0.8 else self.const()
            y = self.term(depth - 1) if r.random() < 0.6 else self.const()
            if r.random() < 0.15:
                y = x  # the same distribution (and often the same object) twice
            if op == "floordiv":  # of whole numbers only
                x = {"k": "int", "a": -2, "b": r.randint(-2, 3), "u": ""}
            if op in ("div", "floordiv"):
                y = {"k": "const", "a": r.choice((1, 2, 3, -2)), "u": ""} if r.random() < 0.7 else {"k": "int", "a": 1, "b": r.randint(1, 3), "u": ""}
            if op == "pow":
                y = {"k": "const", "a": r.randint(0, 2), "u": ""} if r.random() < 0.7 else {"k": "int", "a": 0, "b": r.randint(0, 2), "u": ""}
            if x["k"] == "const" and y["k"] == "const":
                return self.leaf()
            return {"k": k, "op": op, "x": x, "y": y, "u": ""}
        if k == "bnd":
            x = self.term(depth - 1)
            lo = r.randint(-2, 6)
            n = r.choice((0, 1, 2, 2, 3))
            t = {"k": k, "x": x, "haslo": r.random() < 0.6, "lo": lo, "hashi": r.random() < 0.6, "hi": lo + r.choice((0, 1, 2, 3, 5)) if r.random() < 0.96 else lo - 1,
                 "il": r.random() < 0.6, "iu": r.random() < 0.6, "hasfail": r.random() < 0.4, "fail": r.randint(-1, 20), "n": n, "u": self.unit()}
            if x["k"] == "const":
                t["n"] = 100
            return t
        n = r.randint(1, 3)
        xs = [{"k": "text", "a": r.choice(list(TEXTS)), "u": ""} if r.random() < 0.15 else self.term(depth - 1) for _ in range(n)]
        u = self.unit(0.1)
        ps = [r.choice((0, 1, 1, 2)) for _ in range(n)]
        if k == "pdf":
            return {"k": k, "x": xs, "p": [1] * n if r.random() < 0.4 else ps, "u": u}
        return {"k": k, "x": xs, "p": [sum(ps[: i + 1]) for i in range(n)], "u": u}


def ok_texts(t):
    """texts only as values of a Pdf or CumPdf (possibly bounded)"""
    k = t["k"]
    if k in ("pdf", "cumpdf"):
        return all(ok_texts(x) for x in t["x"])
    if k == "bnd":
        return ok_texts(t["x"])
    if k in ("map", "expr"):
        return not any(deep_text(t[f]) for f in ("x", "y") if f in t)
    return True


def deep_text(t):
    if t["k"] == "text":
        return True
    if t["k"] in ("pdf", "cumpdf"):
        return any(deep_text(x) for x in t["x"])
    return any(deep_text(t[f]) for f in ("x", "y") if isinstance(t.get(f), dict))


def faults(G, t):
    """number of reasons to refuse the term (which one is reported first is not specified)"""
    k = t["k"]
    subs = t["x"] if k in ("pdf", "cumpdf") else [t[f] for f in ("x", "y") if isinstance(t.get(f), dict)]
    n = sum(faults(G, x) for x in subs)
    n += bool(t["u"]) and G["u"] == "n/a"
    n += k in ("int", "unif") and t["a"] > t["b"]
    n += k == "bnd" and t["haslo"] and t["hashi"] and t["lo"] > t["hi"]
    n += k == "pdf" and sum(t["p"]) == 0
    n += k in ("cumpdf", "cdf") and (t["p"][-1] == 0 or any(b < a for a, b in zip(t["p"], t["p"][1:])))
    n += k == "cdf" and (t["p"][0] != 0 or any(b < a for a, b in zip(t["x"], t["x"][1:])))
    n += k in ("pdf", "cumpdf") and bool(t["u"]) and any(x["k"] != "const" or x["u"] for x in t["x"])
    return n


KINDS = ("uniform", "exp", "normal", "gauss", "gamma", "erlang", "weibull", "beta", "tri", "cdf", "mixed", "bounded", "int", "pdf", "pmf", "cumpdf", "poisson", "few", "draw", "model")


def script(seed, profile, length):
    r = random.Random(str(seed))
    G = {"u": "minutes" if profile == "streams" else r.choice(("n/a", "minutes", "days", "days", "weeks"))}
    w = World(G, r.randrange(10**6))
    tr = {"g": G, "b": w.snapshot(), "ev": []}
    terms = Terms(r, G)
    n = 1
    mine = r.choice(KINDS[:-1])  # one kind: draws of different kinds may happen to bring streams in the same state
    while len(tr["ev"]) < length:
        if profile == "terms":
            x = r.random()
            if x < 0.1:
                m = r.randint(1, 4)
                xs = [r.randint(1, 9) for _ in range(m)]
                o = {"op": "draw", "N": lcm(*range(1, m + 1)), "x": xs, "p": [2] * m if r.random() < 0.9 else [r.randint(1, 2) for _ in range(m)], "n": r.randint(0, m + 1 if m < 4 else 3)}
            else:
                t = terms.top() if x < 0.3 else terms.term(r.choice((0, 1, 1, 2)))
                if t["k"] == "text" or not ok_texts(t) or faults(G, t) > 1:
                    continue
                N, d = need(t)
                if N**d > 400:
                    continue
                try:
                    bound(G, N * 2, t)
                except Big:
                    continue
                if N == 1 and d or N < 6 and r.random() < 0.3 and (N * 2) ** d <= 300:
                    N *= 2
                if t["k"] in ("exp", "weib") and N != 12:
                    N = 12
                o = {"op": "dist", "N": N, "d": t}
        else:
            x = r.random()
            seeds = ("1", "1", "1", "42", "1234567")
            if x < 0.1 and n < 4:
                o = {"op": "stream", "seed": r.choice(seeds + ("*",))}
                n += 1
            elif x < 0.3:
                o = {"op": "reseed", "i": r.randint(1, n), "seed": r.choice(seeds + ("none", "none", "*", ""))}
            elif x < 0.4:
                o = {"op": "newenv", "seed": r.choice(seeds + ("none", "none", "none", "*", ""))}
            else:
                i = r.randint(1, n)
                o = {"op": "sample", "i": i, "k": mine}
                # complete simulations start with the seed (they do not all use the same number of samples)
                if tr["ev"] and tr["ev"][-1]["o"]["op"] in ("reseed", "newenv") and tr["ev"][-1]["o"].get("i", 1) == 1 and tr["ev"][-1]["o"]["seed"]:
                    if mine in ("uniform", "exp", "weibull", "tri", "cdf") and r.random() < 0.2:
                        o = {"op": "sample", "i": 1, "k": "model"}
        w.do(o)
        tr["ev"].append({"o": o, "b": w.snapshot()})
    return tr
