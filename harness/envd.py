"""Driver for environments: clocks, time units, calendars and names (spec/SalabimEnv.tla)."""
import os
import datetime
import math
import random
import sys
from fractions import Fraction

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import salabim as sim  # noqa: E402
from mon import Sink  # noqa: E402

NONE = -999999999
INF = 1000000000
WEIRD = -888888
EPOCH = datetime.datetime(2000, 1, 1)
MS = datetime.timedelta(microseconds=500000)
SECS = {
    "years": Fraction(365 * 86400), "weeks": Fraction(7 * 86400), "days": Fraction(86400), "hours": Fraction(3600), "minutes": Fraction(60),
    "seconds": Fraction(1), "milliseconds": Fraction(1, 1000), "microseconds": Fraction(1, 1000000), "n/a": Fraction(1),
}
EXACT = ("n/a", "seconds", "milliseconds", "microseconds")


def frac(v):
    if isinstance(v, (int, float)) and math.isfinite(v):
        f = Fraction(v).limit_denominator(10**8)
        if abs(f - Fraction(v)) <= abs(v) * 1e-9 and abs(f.numerator) < 2**31:
            return [f.numerator, f.denominator]
    return [WEIRD, 1]


def date(z):
    return EPOCH + datetime.timedelta(seconds=z)


class Car(sim.Component):
    def setup(self, a=0):
        self.a = a


class Line(sim.Queue):
    def setup(self, a=0):
        self.a = a


class Depot(sim.Store):
    def setup(self, a=0):
        self.a = a


class Clerk(sim.Resource):
    def setup(self, a=0):
        self.a = a


class Lamp(sim.State):
    def setup(self, a=0):
        self.a = a


class Meter(sim.Monitor):
    def setup(self, a=0):
        self.a = a


CLS = {
    "component": sim.Component, "car": Car, "queue": sim.Queue, "line": Line, "store": sim.Store, "depot": Depot,
    "resource": sim.Resource, "clerk": Clerk, "state": sim.State, "lamp": Lamp, "monitor": sim.Monitor, "meter": Meter,
}
KINDS = {"component": ("component", "car"), "queue": ("queue", "line"), "store": ("store", "depot"), "resource": ("resource", "clerk"), "state": ("state", "lamp"), "monitor": ("monitor", "meter")}


class World:
    def __init__(self, G, variant=0):
        sim.reset()
        self.form = variant
        self.variant = variant
        self.es, self.cs, self.os = [], [], []
        self.err = ""
        self.r = []

    # ------------------------------------------------------------------ observation
    def u(self, i):
        return self.es[i]._verif_unit

    def sec(self, i, x):
        """a number shown in environment i -> seconds"""
        if x == math.inf:
            return INF
        s = x * float(SECS[self.u(i)])
        return round(s) if abs(s - round(s)) < 0.3 else WEIRD

    def dstr(self, d):
        return (d + MS).strftime("%Y-%m-%d %H:%M:%S")

    def env_obs(self, i):
        env = self.es[i]
        unit = env.get_time_unit()
        if unit != self.u(i):
            return [WEIRD, 0, unit, "", ""]
        now = env.now()
        d0 = env.datetime0()
        if d0:
            if abs(env.t_to_datetime(now) - env.t_to_datetime(0) - env.duration_to_timedelta(now)) > datetime.timedelta(microseconds=5):
                return [WEIRD, 1, unit, "", ""]
            return [self.sec(i, now), self.sec(i, env.peek()), unit, self.dstr(env.t_to_datetime(now)), self.dstr(d0)]
        return [self.sec(i, now), self.sec(i, env.peek()), unit, "", ""]

    def names(self, kind, x):
        n = [x.name(), x.base_name(), str(x.sequence_number()), str(getattr(x, "a", 0))]
        q = [x.length, x.length_of_stay, x.capacity, x.available_quantity] if kind in ("queue", "store") else []
        if kind == "store":
            q += [x.to_store_requesters(), x.from_store_requesters()]
        elif kind == "resource":
            q = [x.requesters(), x.claimers(), x.capacity, x.claimed_quantity, x.available_quantity, x.occupancy, x.requesters().length, x.claimers().length_of_stay]
        elif kind == "state":
            q = [x.waiters(), x.value, x.waiters().length]
        return n + [y.name() for y in q]

    def snapshot(self):
        d = sim.default_env()
        return {
            "es": [self.env_obs(i) for i in range(len(self.es))],
            "cs": [
                [c.status(), self.sec(e, c.scheduled_time()), self.sec(e, c.creation_time()), c.seen if c.seen == NONE else self.sec(e, c.seen)]
                for e, c in self.cs
            ],
            "os": [self.names(k, x) if x.env is self.es[e] else ["in the wrong environment"] for e, k, x in self.os],
            "def": self.es.index(d) + 1 if d in self.es else 0 if d is None else WEIRD,
            "err": self.err,
            "r": self.r,
        }

    # ------------------------------------------------------------------ operations
    def do(self, o):
        self.form += 1
        self.err, self.r = "", []
        try:
            getattr(self, "do_" + o["op"])(o)
        except Exception as e:
            self.err = type(e).__name__

    def do_newenv(self, o):
        kw = {}
        if o["u"] != "n/a" or self.form % 2:
            kw["time_unit"] = o["u"]
        if o["z"] != NONE:
            d = date(o["z"])
            kw["datetime0"] = (d, str(d), d)[self.form % 3]
        if self.variant % 7 == 2:
            kw["trace"] = Sink()
        env = sim.Environment(isdefault_env=o["def"], yieldless=bool(self.variant % 2), name=f"env{len(self.es)}", **kw)
        env._verif_unit = "seconds" if o["u"] == "n/a" and o["z"] != NONE else o["u"]
        env._verif_late = 0
        self.es.append(env)

    def num(self, i, s):
        return s / float(SECS[self.u(i)]) if SECS[self.u(i)] >= 1 else s * int(1 / SECS[self.u(i)])

    def say(self, i, v):
        env = self.es[i]
        x = env
        if self.u(i) != "n/a":
            for un in ("years", "weeks", "days", "hours", "minutes", "seconds"):
                if self.form % 3 == 0 and v % int(SECS[un]) == 0 and v:
                    return getattr(env, un)(v // int(SECS[un]))
        x = self.num(i, v)
        return (lambda: x) if self.form % 4 == 1 else x

    def dur(self, i, v):
        env = self.es[i]
        k = self.form % 5
        if env.datetime0() and k == 1:
            return datetime.timedelta(seconds=v)
        if env.datetime0() and k == 2 and v < 86400:
            return str(datetime.timedelta(seconds=v))
        if self.u(i) != "n/a" and k == 3:
            return sim.Constant(v, time_unit="seconds", env=env)
        if self.u(i) != "n/a" and k == 4 and v % 60 == 0:
            return sim.Uniform(v // 60, v // 60, "minutes", env=env)
        return self.say(i, v)

    def at(self, i, v):
        env = self.es[i]
        k = self.form % 4
        if env.datetime0() and k in (1, 2):
            d = (self.true_date(i) + datetime.timedelta(seconds=v)).replace(microsecond=0)
            return d if k == 1 else d.strftime("%Y-%m-%d %H:%M:%S")
        return self.say(i, v)

    def true_date(self, i):
        """the date that is shown as 0, to the nearest second"""
        return self.es[i].datetime0() + MS

    def do_run(self, o):
        i = o["e"] - 1
        env = self.es[i]
        if self.u(i) not in EXACT:
            # avoid that rounding in the conversion puts the end just before an event at that very moment:
            # each run ends a bit later after the whole second than the ones before (which may have shifted events)
            env._verif_late += 0.0002
            if o["k"] == "dur":
                env.run(max(0, self.num(i, self.sec(i, env.now()) + o["v"] + env._verif_late) - env.now()))
            else:
                env.run(till=max(env.now(), self.num(i, o["v"] + env._verif_late)))
        elif o["k"] == "dur":
            env.run(self.dur(i, o["v"]))
        else:
            env.run(till=self.at(i, o["v"]))

    def do_runall(self, o):
        self.es[o["e"] - 1].run()

    def do_resetnow(self, o):
        i = o["e"] - 1
        v = self.say(i, o["v"])
        if o["v"] == 0 and self.form % 2:
            self.es[i].reset_now()
        else:
            self.es[i].reset_now(v)

    def do_setdate(self, o):
        env = self.es[o["e"] - 1]
        if o["z"] == NONE:
            env.datetime0(False)
        else:
            d = date(o["z"])
            env.datetime0(d if self.form % 2 else str(d))
            if env._verif_unit == "n/a":
                env._verif_unit = "seconds"

    def do_comp(self, o):
        i = o["e"] - 1
        env = self.es[i]
        kw = {}
        if o["at"] != NONE:
            kw["at"] = self.at(i, o["at"])
        if o["delay"] != NONE:
            kw["delay"] = self.dur(i, o["delay"])
        if env.yieldless():

            def process(self):
                self.seen = env.now()

        else:

            def process(self):
                self.seen = env.now()
                return
                yield

        C = type("C", (sim.Component,), {"process": process, "seen": NONE})
        env_kw = {} if sim.default_env() is env and self.form % 2 else {"env": env}
        c = C(cap_now=True, name="c", **env_kw, **kw)
        if c.env is not env:
            self.err = "in the wrong environment"
        self.cs.append((i, c))

    def do_conv(self, o):
        env = self.es[o["e"] - 1]
        n = o["n"]
        arg = (lambda: n, sim.Constant(n), n, n)[self.form % 4]
        a = getattr(env, o["u"])(arg)
        b = getattr(env, "to_" + o["u"])(arg)
        self.r = [frac(a), frac(b)]
        if env.to_time_unit(o["u"], arg) != b:
            self.r = [[WEIRD, 2], [WEIRD, 2]]

    def do_text(self, o):
        i = o["e"] - 1
        env = self.es[i]
        v = self.num(i, o["v"])
        if env.datetime0():  # dates are shown in whole seconds: the drift of the clock is left out
            z = env.datetime0()
            t = env.datetime_to_t(self.true_date(i).replace(microsecond=0) + datetime.timedelta(seconds=o["v"], microseconds=100))
            v += 0.0001 / float(SECS[self.u(i)])
        else:
            t = v
        g = env.get_time_unit
        self.r = [env.time_to_str(t).strip(), env.duration_to_str(v), g("t"), g("d"), g(template="(t)"), g(template="(d)")]

    def do_dates(self, o):
        i = o["e"] - 1
        env = self.es[i]
        d = env.t_to_datetime(self.num(i, o["v"]))
        self.r = [self.dstr(d), str(self.sec(i, env.datetime_to_t(d)))]
        k = env.spec_to_time(d if self.form % 2 else str(d))
        if self.sec(i, k) != o["v"] or env.t_to_datetime(math.inf) != math.inf:
            self.r.append("spec_to_time differs")
        dd = env.timedelta_to_duration(datetime.timedelta(seconds=o["v"]))
        if self.sec(i, dd) != o["v"] or abs(env.duration_to_timedelta(dd) - datetime.timedelta(seconds=o["v"])) > datetime.timedelta(microseconds=2):
            self.r.append("durations differ")

    def do_obj(self, o):
        env = self.es[o["e"] - 1]
        kw = {}
        if o["nm"] or self.form % 2:
            kw["name"] = o["nm"]
        if o["a"]:
            kw["a"] = o["a"]
        cls = CLS[o["cls"]]
        if cls.__module__.startswith("salabim") and self.form % 3 == 0:
            x = getattr(env, cls.__name__)(**kw)  # env.Queue(...) and the like
        elif sim.default_env() is env and self.form % 3 == 1:
            x = cls(**kw)
        else:
            x = cls(env=env, **kw)
        self.os.append((o["e"] - 1, o["k"], x))

    def do_rename(self, o):
        x = self.os[o["i"] - 1][2]
        if hasattr(x, "rename") and self.form % 2:
            if x.rename(o["nm"]) is not x:
                self.err = "rename"
        elif x.name(o["nm"]) != o["nm"]:
            self.err = "name"


    def do_use(self, o):
        """the object gets something to do, which does not affect any name"""
        e, kind, x = self.os[o["i"] - 1]
        env = self.es[e]
        if kind == "monitor":
            x.tally(3)
            return
        act = {
            "component": None,
            "queue": lambda c: c.enter(x),
            "store": lambda c: c.from_store(x) if self.form % 2 else c.to_store(x, c),
            "resource": lambda c: c.request((x, 1)),
            "state": lambda c: c.wait((x, 7)),
        }[kind]
        if env.yieldless():

            def process(self):
                act(self)
                self.passivate()

        else:

            def process(self):
                g = act(self)
                if self.iscurrent():
                    yield self.passivate()
                else:
                    yield g

        C = type("U", (sim.Component,), {"process": process})
        if kind == "component":
            if self.form % 2:
                x.enter(env.Queue("user"))
            else:
                x.set_mode("a")
            return
        C(name="user", env=env)
        env.run(0)


def replay(G, ops, variant):
    w = World(G, variant)
    for o in ops:
        w.do(o)
    return w.snapshot()


def representable(u, s):
    f = Fraction(s) / SECS[u]
    return f.denominator <= 700000 and 2000 * (f.numerator % f.denominator) % (2 * f.denominator) != f.denominator and f.numerator < 1000000000


NAMES = ("", "", "x", "x.", "x,", ".", ",", "part one.", "y", "A.b.", "z,", "X.", "X,", "a.b.", "Y.", "y.", "y,", "..", "x..", "x.,", "x0.", "x.0", "x.1", "x,1", "Part One.", "component.", "queue", "of.")


def some_name(r):
    if r.random() < 0.85:
        return r.choice(NAMES)
    return "".join(r.choice("aAbB ._-,1") for _ in range(r.randint(1, 4))) + r.choice((".", ".", ",", "", "x"))


def script(seed, profile, length):
    r = random.Random(str(seed))
    w = World({}, r.randrange(60))
    tr = {"g": {"x": 0}, "b": w.snapshot(), "ev": []}
    units = list(SECS)
    for step in range(length):
        x = r.random()
        n = len(w.es)
        if n == 0 or n < 3 and x < 0.06:
            o = {"op": "newenv", "u": r.choice(units), "z": r.choice((NONE, NONE, 0, r.randrange(0, 10**9))), "def": n == 0 or r.random() < 0.5}
        else:
            e = r.randint(1, n)
            un = w.u(e - 1)
            env = w.es[e - 1]
            big = SECS[un] >= 1
            now = w.sec(e - 1, env.now())
            D = (0, 1, 2, 30, 60, 90, 300) if not big else (0, 1, 60, 90, 3600, 5400, 86400, 86400 * 7, 86400 * 33, 86400 * 366)
            limit = 2000 if not big else 10**9
            k = r.random()
            if profile == "names":
                if w.os and k < 0.2:
                    o = {"op": "rename", "i": r.randint(1, len(w.os)), "nm": r.choice(("new", "x", "x.3", "old name", "X.", "of", some_name(r)))}
                elif w.os and k < 0.35:
                    o = {"op": "use", "i": r.randint(1, len(w.os))}
                else:
                    kind = r.choice(list(KINDS))
                    cls = r.choice(KINDS[kind])
                    o = {"op": "obj", "e": e, "k": kind, "cls": cls, "nm": some_name(r), "a": r.choice((0, 0, 1, 2)) if cls != kind else 0}
                    if len(w.os) > 25:
                        break
            elif k < 0.25 and now < limit:
                o = {"op": "run", "e": e, "k": "dur", "v": r.choice(D)}
            elif k < 0.4 and now < limit:
                o = {"op": "run", "e": e, "k": "till", "v": now + r.choice(D)}
            elif k < 0.45:
                o = {"op": "runall", "e": e}
            elif k < 0.53:
                o = {"op": "resetnow", "e": e, "v": r.choice((0, 0, 60, 3600)) if big else r.choice((0, 5))}
            elif k < 0.58:
                o = {"op": "setdate", "e": e, "z": r.choice((NONE, r.randrange(0, 10**9)))}
            elif k < 0.75 and len(w.cs) < 8 and now < limit:
                o = {"op": "comp", "e": e, "at": r.choice((NONE, now, now + r.choice(D))), "delay": r.choice((NONE, r.choice(D)))}
            elif k < 0.83:
                cu = r.choice(units[:-1])
                f = SECS[cu] / SECS[un]
                if max(f.numerator, f.denominator) * 20 > 2**31:
                    continue
                o = {"op": "conv", "e": e, "u": cu, "n": r.randint(0, 20)}
            elif k < 0.92:
                v = r.choice((0, 1, 59, 60, 61, 3599, 3600, 86399, 86400, 90061, 86400 * 40, 31536000)) if big else r.choice((0, 1, 59, 61, 999))
                if not representable(un, v):
                    continue
                o = {"op": "text", "e": e, "v": v}
            else:
                o = {"op": "dates", "e": e, "v": r.choice((0, 1, 3661, 86400, 86400 * 59, 86400 * 365)) if big else r.choice((0, 61))}
        w.do(o)
        tr["ev"].append({"o": o, "b": w.snapshot()})
    return tr
