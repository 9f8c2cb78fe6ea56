"""Driver for monitors: operations of spec/SalabimMonitor.tla on the real salabim."""
import os
import math
import random
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import salabim as sim  # noqa: E402

INF = 1000000
OFF = -900000
NAN = 900001
NONE = -900002
WEIRD = -888888


def num(x):
    try:
        if x == math.inf:
            return INF
        if isinstance(x, (bool, str)):
            return WEIRD
        if math.isnan(x):
            return NAN
        y = round(x)
        if abs(x - y) < 1e-5 and abs(y) < 1e9:
            return int(y)
    except Exception:
        pass
    return WEIRD


class Sink:
    """takes the trace output: tracing must not influence anything"""

    def write(self, s):
        pass

    def flush(self):
        pass


class World:
    def __init__(self, G, variant=0):
        self.vs = G.get("vs", 1)
        self.ts = G.get("ts", 1)
        self.form = variant
        self.env = sim.Environment(trace=Sink() if variant % 13 == 5 else False, yieldless=bool(variant % 2), time_unit=G.get("tu", "n/a"))
        self.err = ""
        self.ans = []
        self.ms = []
        self.lv, self.gen, self.until = {}, set(), {}  # level monitors; derived monitors; where time stopped for frozen ones
        self.copy = []  # of this monitor, the last tallied value is meaningful
        self.n = 0
        for d in G["ms"]:
            self.new(d)

    # ---------------------------------------------------------------- values
    def val(self, v):
        if 1000 <= v < 2000:
            return f"s{v}"
        if 2000 <= v < 3000:
            return str(v - 2000)
        return v if self.vs == 1 else v * self.vs

    def code(self, x, m=None):
        if m is not None and not isinstance(x, str) and x == m.off:
            return OFF
        if isinstance(x, str):
            return int(x[1:]) if x.startswith("s") else 2000 + int(x)
        return num(x / self.vs)

    def t(self, x):
        return num(x / self.ts)

    # ---------------------------------------------------------------- observation
    def stat(self, m, lv, ex0):
        vs, ts = self.vs, self.ts
        f = {
            0: lambda: m.duration(ex0=ex0) if lv else m.weight(ex0=ex0),
            1: lambda: m.mean(ex0=ex0),
            2: lambda: m.std(ex0=ex0),
            3: lambda: m.minimum(ex0=ex0),
            4: lambda: m.maximum(ex0=ex0),
        }
        self.form += 1
        r = {}
        for k in range(5):
            j = (k + self.form) % 5
            r[j] = f[j]()
        w = r[0] / (ts if lv else 1)
        return [num(w), num(r[1] / vs * w), num(r[2] ** 2 / vs**2 * w * w), num(r[3] / vs), num(r[4] / vs)]

    def omon(self, i):
        m = self.ms[i]
        lv = self.level(m)
        so = m.stats_only()
        gen = self.derived(m)
        hv = lv and self.copy[i]
        b = {
            "on": m.monitor(),
            "so": so,
            "val": self.code((m.value, m(), m.get())[self.form % 3]) if hv else 0,
            "tt": self.t(m.t() if callable(m.t) else m.t) if hv else 0,
            "start": 0 if gen else self.t(m.start_time()),
            "a": self.stat(m, lv, False),
            "a0": self.stat(m, lv, True),
        }
        b["z"] = num((m.duration_zero() / self.ts) if lv else m.weight_zero())
        b["n"] = 0 if lv else num(m.number_of_entries())
        b["n0"] = 0 if lv else num(m.number_of_entries(ex0=True))
        if not lv and m.number_of_entries_zero() != b["n"] - b["n0"]:
            b["n0"] = WEIRD
        seg = []
        if not so:
            if lv:
                self.form += 1
                if self.form % 2:
                    xs, ts = m.xt(force_numeric=False)
                else:
                    ts, xs = m.tx(force_numeric=False)
                x2, dur = m.xduration(force_numeric=False)
                tot = {}
                for k in range(len(xs) - 1):
                    c = self.code(xs[k], m)
                    a, e = self.t(ts[k]), self.t(ts[k + 1])
                    if a > e:
                        seg.append([WEIRD, a, e])
                    if c == OFF or a == e:
                        continue
                    tot[c] = tot.get(c, 0) + e - a
                    if seg and seg[-1][0] == c and seg[-1][2] == a:
                        seg[-1][2] = e
                    else:
                        seg.append([c, a, e])
                for x, d in zip(x2, dur):
                    c = self.code(x, m)
                    tot[c] = tot.get(c, 0) - self.t(d)
                if any(tot.values()):
                    seg.append([WEIRD, 0, 0])
            else:
                xs, ts = m.xt(force_numeric=False)
                x2, w = m.xweight(force_numeric=False)
                seg = [[self.t(t), self.code(x), num(ww)] for t, x, ww in zip(ts, xs, w)]
                if list(x2) != list(xs) or len(w) != len(ts) or list(m.x(force_numeric=False)) != list(xs):
                    seg.append([WEIRD, 0, 0])
        b["seg"] = seg
        return b

    def snapshot(self):
        return {"now": self.t(self.env.now()), "err": self.err, "ans": self.ans if isinstance(self.ans, list) else [self.ans], "ms": [self.omon(i) for i in range(len(self.ms))]}

    # ---------------------------------------------------------------- operations
    def do(self, op):
        self.form += 1
        self.err = ""
        self.ans = []
        try:
            getattr(self, "do_" + op["op"])(op)
        except Exception as e:
            self.err = type(e).__name__
            self.exc = e

    def add(self, m, copy=False, of=None):
        """of: the monitor that it is derived from"""
        self.ms.append(m)
        self.copy.append(copy)
        if of is not None:
            self.gen.add(id(m))
            self.lv[id(m)] = self.lv[id(of)]
            if id(of) in self.until:
                self.until[id(m)] = self.until[id(of)]

    def level(self, m):
        return self.lv[id(m)]

    def derived(self, m):
        return id(m) in self.gen

    def new(self, d):
        self.n += 1
        kw = {}
        if d["lv"]:
            kw["level"] = True
            if d["init"] or self.form % 2:
                kw["initial_tally"] = self.val(d["init"])
        elif d["fill"]:
            kw["fill"] = [self.val(v) for v in d["fill"]]
        if not d["on"]:
            kw["monitor"] = False
        if d["so"]:
            kw["stats_only"] = True
        if d["ty"] != "any":
            kw["type"] = d["ty"]
        m = sim.Monitor(f"m{self.n}", **kw)
        self.lv[id(m)] = d["lv"]
        self.add(m, True)

    def do_nop(self, o):
        pass

    def do_adv(self, o):
        self.env.run(o["d"] * self.ts)

    def do_resetnow(self, o):
        self.env.reset_now(o["t"] * self.ts)

    def do_create(self, o):
        self.new(o["d"])

    def M(self, o):
        return self.ms[o["m"] - 1]

    def do_tally(self, o):
        m = self.M(o)
        v = self.val(o["v"])
        if o["w"] != 1:
            m.tally(v, o["w"])
        elif self.level(m) and not self.derived(m) and self.form % 2:
            m.value = v
        else:
            m.tally(v)

    def do_tallyoff(self, o):
        m = self.M(o)
        m.tally(m.off)

    def do_mon(self, o):
        self.M(o).monitor(o["b"])

    def do_reset(self, o):
        kw = {}
        if o["b"] != NONE:
            kw["monitor"] = bool(o["b"])
        if o["s"] != NONE:
            kw["stats_only"] = bool(o["s"])
        if self.form % 2:
            self.M(o).reset(**kw)
        else:
            self.M(o).reset_monitors(**kw)

    def do_slice(self, o):
        m = self.M(o)
        a, b, k = (None if x == NONE else x * self.ts for x in (o["a"], o["b"], o["k"]))
        if self.form % 2:
            self.add(m[a:b:k], of=m)
        else:
            self.add(m.slice(a, b, k), of=m)

    def do_merge(self, o):
        ms = [self.ms[i - 1] for i in o["ms"]]
        if self.form % 3 == 0:
            self.add(ms[0].merge(*ms[1:]), of=ms[0])
        elif self.form % 3 == 1 and len(ms) > 1:
            r = ms[0]
            for m in ms[1:]:
                r = r + m
            self.add(r, of=ms[0])
        elif len(ms) > 1:
            self.add(sum(ms), of=ms[0])
        else:
            self.add(ms[0].merge(), of=ms[0])

    def do_xmap(self, o):
        ms = [self.ms[i - 1] for i in o["ms"]]
        f = lambda *a: 2 * a[0] + sum(a[1:]) + self.vs
        if len(ms) == 1 and self.form % 2:
            self.add(ms[0].x_map(f), of=ms[0])
        else:
            self.add(ms[0].x_map(f, ms[1:]), of=ms[0])

    def do_mul(self, o):
        m = self.M(o)
        k = o["k"]
        if k == 7:
            self.add(m.to_days() if self.form % 2 else m.to_time_unit("days"), of=m)
            return
        self.add((lambda: m * k, lambda: k * m, lambda: m.multiply(k), lambda: m / (1 / k))[self.form % 4](), of=m)

    def do_freeze(self, o):
        i = o["m"] - 1
        m = self.ms[i]
        self.add(m.freeze(), self.copy[i], of=m)
        self.until.setdefault(id(self.ms[-1]), self.env.now())

    def do_get(self, o):
        m = self.M(o)
        t = o["t"] * self.ts
        self.ans = self.code(m.get(t) if self.form % 2 else m(t), m)

    def do_pct(self, o):
        m = self.M(o)
        kw = {} if o["ip"] == "linear" and self.form % 2 else {"interpolation": o["ip"]}
        if o["q"] == 50 and self.form % 3:
            x = m.median(ex0=o["ex0"], **kw)
        else:
            x = m.percentile(o["q"], ex0=o["ex0"], **kw)
        self.ans = num(x / self.vs * 200)

    def do_bin(self, o):
        m = self.M(o)
        lo, hi = (-math.inf if o["lo"] == -INF else o["lo"] * self.vs), (math.inf if o["hi"] == INF else o["hi"] * self.vs)
        if o["w"]:
            self.ans = self.t(m.bin_duration(lo, hi)) if self.level(m) else num(m.bin_weight(lo, hi))
        else:
            self.ans = num(m.bin_number_of_entries(lo, hi, ex0=o["ex0"]))

    def do_valw(self, o):
        m = self.M(o)
        v = [self.val(x) for x in o["v"]]
        if len(v) == 1 and self.form % 2:
            v = v[0]
        if o["w"]:
            self.ans = self.t(m.value_duration(v)) if self.level(m) else num(m.value_weight(v))
        else:
            self.ans = num(m.value_number_of_entries(v))

    def do_values(self, o):
        m = self.M(o)
        kw = {}
        if o["sort"]:
            kw["sort_on_duration" if self.level(m) else "sort_on_weight"] = True
        self.ans = [self.code(x, m) for x in m.values(ex0=o["ex0"], force_numeric=o["num"], **kw)]

    def do_xt(self, o):
        m = self.M(o)
        kw = dict(ex0=o["ex0"], exoff=o["exoff"], force_numeric=o["num"], add_now=o["now"])
        f = self.form % 3
        if f == 0:
            x, t = m.xt(**kw)
        elif f == 1:
            t, x = m.tx(**kw)
        else:
            df = m.as_dataframe(**kw)
            x, t = list(df[m.name() + ".x"]), list(df["t"])
        if len(x) != len(t):
            raise AssertionError("x and t differ in length")
        e = [[self.code(a, m), self.t(b)] for a, b in zip(x, t)]
        if self.level(m) and e:
            r = []
            for a in e:
                if not r or r[-1][0] != a[0]:
                    r.append(a)
            e = r + [e[-1]]
        self.ans = e

    def do_hist(self, o):
        m = self.M(o)
        s = m.print_histogram(o["nb"], o["lb"] * self.vs, o["bw"] * self.vs, ex0=o["ex0"], as_str=True)
        rows = []
        seen = False
        for line in s.split("\n"):
            if seen and line.strip():
                rows.append(num(float(line.split()[1]) / (self.ts if self.level(m) else 1)))
            if line.strip().startswith("<="):
                seen = True
        self.ans = rows

    def do_vhist(self, o):
        m = self.M(o)
        s = m.print_histogram(values=True, ex0=o["ex0"], as_str=True)
        rows = []
        seen = False
        for line in s.split("\n"):
            if seen and line.strip():
                lab = line[:20].strip()
                rows.append([int(lab[1:]) if lab.startswith("s") else num(float(lab) / self.vs), num(float(line[20:].split()[0]) / (self.ts if self.level(m) else 1))])
            if line.startswith("value "):
                seen = True
        self.ans = rows

    def do_sample(self, o):
        ms = [self.ms[i - 1] for i in o["ms"]]
        kw = {k: o[f] * self.ts for k, f in (("min_t", "a"), ("max_t", "b")) if o[f] != NONE}
        if o["d"] * self.ts != 1 or self.form % 2:
            kw["delta_t"] = o["d"] * self.ts
        df = ms[0].as_resampled_dataframe(ms[1:], **kw)
        import pandas as pd

        self.ans = [[num(float(t) / self.ts) for t in df["t"]]] + [[OFF if pd.isna(x) else self.code(x) for x in df[f"{m.name()}.x"]] for m in ms]


def replay(G, ops, variant):
    w = World(G, variant)
    for o in ops:
        w.do(o)
    return w.snapshot()


# -------------------------------------------------------------------------------- random programs
def script(seed, profile, length):
    """-> trace, recorded while the program is made up"""
    r = random.Random(str(seed))
    ts = r.choice([1, 1, 1, 0.5, 7])
    vs = 1
    strings = r.random() < 0.3
    ms = []

    def mon():
        lv = {"level": 0.9, "tally": 0.1, "derive": 0.6}[profile] > r.random()
        so = r.random() < 0.25
        ty = "any" if strings else r.choice(["any", "any", "float", "int8", "int32", "uint8", "uint16", "int64", "double", "bool"])
        if not lv and r.random() < 0.4 and not strings:
            ty = "float"
        return {"lv": lv, "so": so, "on": r.random() < 0.85, "init": r.choice([0, 0, 1, 2, 5]), "ty": ty, "fill": [] if lv or so or r.random() < 0.8 else [value(None) for _ in range(r.randint(1, 4))]}

    def value(m):
        x = r.random()
        if strings and x < 0.3:
            return r.choice([1001, 1002, 1003, 2060, 2061])
        if x < 0.25:
            return 0
        if m is not None and m.xtype not in ("bool", "uint8", "uint16") and x < 0.4:
            return -r.randint(1, 9)
        return r.randint(1, 9) if x < 0.9 else r.randint(10, 40)

    n0 = r.randint(1, 2)
    if not strings:
        vs = r.choice([1, 1, 1, 1, 0.5, 3])
    for _ in range(n0):
        d = mon()
        if vs == 0.5 and d["ty"] not in ("any", "float", "double"):
            d["ty"] = "any"
        if vs == 3 and d["ty"] in ("int8", "uint8", "bool"):
            d["ty"] = "int32"
        ms.append(d)
    tu = r.choice(["n/a", "weeks"])
    G = {"ms": ms, "ts": ts, "vs": vs, "tu": tu}
    w = World(G, r.randrange(26))
    tr = {"g": G, "b": w.snapshot(), "ev": []}
    lazy = r.random() < 0.4  # observe only now and then

    lvl, der = w.level, w.derived

    for step in range(length):
        k = r.randrange(len(w.ms))
        m = w.ms[k]
        i = k + 1
        x = r.random()
        now = w.t(w.env.now())
        o = None
        dr = {"level": 0.06, "tally": 0.06, "derive": 0.25}[profile]
        if x < 0.25:
            o = {"op": "adv", "d": r.choice([1, 1, 2, 3, 5])}
        elif x < 0.5:
            live = [j for j in range(len(w.ms)) if not der(w.ms[j])]
            if r.random() < 0.97:
                k = r.choice(live)
                m = w.ms[k]
                i = k + 1
            wt = 1 if lvl(m) and r.random() < 0.97 else r.choice([1, 1, 1, 2, 3, 5])
            o = {"op": "tally", "m": i, "v": value(m), "w": wt}
            if r.random() < 0.02 and (der(m) or not m.stats_only()) and lvl(m):
                o = {"op": "tallyoff", "m": i}
        elif x < 0.58:
            o = {"op": "mon", "m": i, "b": r.random() < 0.6}
        elif x < 0.61:
            o = {"op": "reset", "m": i, "b": r.choice([NONE, NONE, 0, 1]), "s": r.choice([NONE, NONE, 0, 1])}
        elif x < 0.62:
            o = {"op": "resetnow", "t": r.choice([0, 0, 5, now, 100])}
        elif x < 0.63 and len(w.ms) < 4:
            d = mon()
            d["ty"] = "any"
            o = {"op": "create", "d": d}
        elif x < 0.63 + dr and len(w.ms) < 7:
            y = r.random()
            if y < 0.5:
                tt = lambda: r.choice([NONE, max(0, now - r.randint(0, 15)), r.randint(0, max(1, now)), now, now + r.randint(0, 3), 0])
                a, b, mod = tt(), tt(), NONE
                if r.random() < 0.3:
                    a = r.randint(0, 12)
                    b = a + r.randint(0, 6)
                    mod = r.choice([5, 7, 8, 10])
                elif a != NONE and b != NONE and r.random() < 0.9:
                    a, b = min(a, b), max(a, b)
                o = {"op": "slice", "m": i, "a": a, "b": b, "k": mod}
            elif y < 0.7:
                c = [j + 1 for j in range(len(w.ms)) if lvl(w.ms[j]) == lvl(m) and w.ms[j].env is m.env and not w.ms[j].stats_only()]
                if r.random() < 0.1:
                    c = list(range(1, len(w.ms) + 1))
                    s = [i, r.choice(c)]
                else:
                    s = [r.choice(c) for _ in range(r.choice([1, 2, 2, 2, 3]))] if c else []
                tys = {w.ms[j - 1].xtype for j in s}
                if s and not (strings and False) and (len(tys) > 1 or not tys <= {"int8", "uint8", "bool"}):
                    o = {"op": "merge", "ms": s}
            elif y < 0.8:
                c = [j + 1 for j in range(len(w.ms)) if lvl(w.ms[j]) == lvl(m) and w.ms[j].env is m.env and not w.ms[j].stats_only() and not strings]
                if lvl(m):
                    s = [r.choice(c) for _ in range(r.choice([1, 2, 3]))] if c else []
                else:
                    s = [r.choice(c)] if c else []
                if s:
                    o = {"op": "xmap", "ms": s}
            elif y < 0.88:
                o = {"op": "mul", "m": i, "k": 7 if tu == "weeks" and not der(m) else r.choice([2, 4])}
            else:
                o = {"op": "freeze", "m": i}
        else:
            y = r.random()
            if y < 0.15:
                t = r.choice([now, max(0, now - r.randint(0, 12)), now + 2])
                nw = w.t(w.until.get(id(m), w.env.now()))
                if t != nw or w.copy[k]:
                    o = {"op": "get", "m": i, "t": t}
            elif y < 0.45:
                ip = r.choice(["linear", "linear", "lower", "higher", "midpoint", "nearest"])
                q = r.choice([0, 10, 20, 25, 30, 40, 50, 50, 60, 70, 75, 80, 90, 95, 99, 100, -5, 120, 33])
                ex0 = r.random() < 0.3
                if ip == "nearest" and not m.stats_only() and not lvl(m):
                    n = len(m.x(ex0=ex0))
                    if n > 1 and (q * (n - 1)) % 100 == 50:
                        ip = "linear"  # a tie: either is nearest
                o = {"op": "pct", "m": i, "q": q, "ex0": ex0, "ip": ip}
            elif y < 0.58:
                lo = r.choice([-INF, -3, 0, 1, 2, 5])
                o = {"op": "bin", "m": i, "lo": lo, "hi": r.choice([INF, 0 if lo < 0 else lo + 1, lo + 3 if lo > -100 else 3]), "w": r.random() < 0.6, "ex0": r.random() < 0.3}
            elif y < 0.72:
                o = {"op": "valw", "m": i, "v": r.sample([0, 1, 2, 3, 5] + ([1001, 1002, 2060] if strings else []), r.choice([1, 1, 2, 3])), "w": r.random() < 0.6}
            elif y < 0.8:
                o = {"op": "values", "m": i, "ex0": r.random() < 0.3, "num": False if not strings else r.random() < 0.5, "sort": r.random() < 0.4}
            elif y < 0.9:
                if not m.stats_only() or True:
                    o = {"op": "hist", "m": i, "nb": r.choice([0, 1, 3, 5]), "lb": r.choice([-2, 0, 0, 1]), "bw": r.choice([1, 2, 4]), "ex0": r.random() < 0.3}
            elif y < 0.93:
                if w.copy[k]:
                    o = {"op": "xt", "m": i, "ex0": r.random() < 0.4, "exoff": r.random() < 0.4, "num": r.random() < 0.6, "now": r.random() < 0.6}
            elif y < 0.96:
                if not m.stats_only() and not strings:
                    o = {"op": "vhist", "m": i, "ex0": r.random() < 0.3}
            else:
                c = [j + 1 for j in range(len(w.ms)) if lvl(w.ms[j]) and not w.ms[j].stats_only()]
                if c:
                    names = set()
                    s = []
                    for j in r.sample(c, r.randint(1, min(3, len(c)))):
                        if w.ms[j - 1].name() not in names:
                            s.append(j)
                            names.add(w.ms[j - 1].name())
                    now = num(w.env.now() / ts)
                    o = {"op": "sample", "ms": s, "d": r.choice([1, 2, 3]), "a": NONE if r.random() < 0.6 else now - r.randint(0, 8), "b": NONE if r.random() < 0.6 else now - r.randint(-4, 5)}
        if o is None:
            continue
        w.do(o)
        last = step == length - 1
        tr["ev"].append({"o": o, "b": {"err": w.err, "ans": w.ans if isinstance(w.ans, list) else [w.ans]} if lazy and r.random() < 0.8 and not last else w.snapshot()})
    return tr
