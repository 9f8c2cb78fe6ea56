"""Driver for queues: operations of spec/SalabimQueue.tla on the real salabim."""
import os
import math
import random
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import salabim as sim  # noqa: E402
from mon import INF, NAN, NONE, WEIRD, Sink, num  # noqa: E402


class World:
    def __init__(self, G, variant=0):
        self.form = variant
        self.ts = G.get("ts", 1)
        self.ps = G.get("ps", 1)
        self.env = sim.Environment(trace=Sink() if variant % 13 == 5 else False, yieldless=bool(variant % 2))
        self.c = [None] + [sim.Component(f"c{i + 1}", process="") for i in range(G["n"])]
        self.idx = {c: i for i, c in enumerate(self.c)}
        self.qs = []
        self.t0 = []  # internal times of reset of the arrival and departure counts
        self.fin = []  # the available quantity was finite and monitored all the time
        self.shift = 0
        self.its = []
        self.err = ""
        self.ans = []
        for q in G["qs"]:
            self.add(sim.Queue(f"q{len(self.qs) + 1}", **self.kw(q["cap"], q["on"])), q["cap"] != INF and q["on"])

    def kw(self, cap, on):
        kw = {}
        if cap != INF:
            kw["capacity"] = cap
        if not on:
            kw["monitor"] = False
        return kw

    def now(self):
        return self.env.now() + self.shift

    def add(self, q, fin):
        self.qs.append(q)
        self.t0.append([self.now(), self.now()])
        self.fin.append(fin)

    def t(self, x):
        return num(x / self.ts)

    def ci(self, c):
        return self.idx.get(c, WEIRD)

    # ---------------------------------------------------------------- observation
    def oq(self, k):
        q = self.qs[k]
        ts = self.ts
        m = [[self.ci(c), num(c.priority(q) / self.ps), self.t(c.enter_time(q))] for c in q]
        o = [x[0] for x in m]
        cs = [self.c[i] for i in o]
        if (
            len(q) != len(m)
            or num(q.length()) != len(m)
            or [self.ci(c) for c in reversed(q)] != o[::-1]
            or self.ci(q.head()) != (o[0] if o else 0)
            or self.ci(q.tail()) != (o[-1] if o else 0)
            or [self.ci(q[i]) for i in range(len(o))] != o
            or q.as_list() != cs
            or q.as_set() != set(cs)
            or any(q.component_with_name(c.name()) is not (c if c in cs else None) for c in self.c[1:])
            or any((c in q) != (c in cs) or q.count(c) != int(c in cs) or c.count(q) != int(c in cs) for c in self.c[1:])
        ):
            m.append([WEIRD, 0, 0])
        a, d = q.arrival_rate(), q.departure_rate()
        la = lambda x, t0: NAN if math.isnan(x) else num(x * (self.now() - t0))
        ld = q.length.duration()
        los = q.length_of_stay
        n = los.number_of_entries()
        ai = NAN
        if self.fin[k] and q.capacity() != math.inf:
            t = q.available_quantity.duration()
            ai = num(q.available_quantity.mean() * t / ts) if t else 0
        mean, std = (q.length.mean(), q.length.std()) if ld else (0, 0)
        lmean, lstd = (los.mean() / ts, los.std() / ts) if n else (0, 0)
        cap = q.capacity()
        return {
            "m": m,
            "cap": num(cap),
            "av": num(q.available_quantity()),
            "arr": la(a, self.t0[k][0]),
            "dep": la(d, self.t0[k][1]),
            "len": [self.t(ld), self.t(mean * ld), num((std**2 + mean**2) * ld / ts)],
            "los": [n, num(lmean * n), num((lstd**2 + lmean**2) * n)],
            "ai": ai,
        }

    def snapshot(self):
        return {
            "now": self.t(self.env.now()),
            "err": self.err,
            "ans": self.ans,
            "qs": [self.oq(k) for k in range(len(self.qs))],
            "cq": [[q in c.queues() for q in self.qs] for c in self.c[1:]],
        }

    # ---------------------------------------------------------------- operations
    def do(self, op):
        self.form += 1
        self.err = ""
        self.ans = []
        try:
            getattr(self, "do_" + op["op"])(op)
        except Exception as e:
            self.err = type(e).__name__
            self.exc = e

    def do_adv(self, o):
        for k, q in enumerate(self.qs):
            if q.capacity() == math.inf:
                self.fin[k] = False
        self.env.run(o["d"] * self.ts)

    def do_resetnow(self, o):
        b = self.env.now()
        self.env.reset_now(o["t"] * self.ts)
        self.shift += b - o["t"] * self.ts

    def qc(self, o):
        return self.qs[o["q"] - 1], self.c[o["c"]]

    def do_enter(self, o):
        q, c = self.qc(o)
        f = self.form % 5
        if o["p"] == NONE:
            (lambda: c.enter(q), lambda: q.add(c), lambda: q.append(c), lambda: q.append(c, None), lambda: c.enter(q, priority=None))[f]()
        else:
            p = o["p"] * self.ps
            (lambda: c.enter(q, p), lambda: q.add(c, p), lambda: q.append(c, p), lambda: c.enter_sorted(q, p), lambda: q.add_sorted(c, p))[f]()

    def do_athead(self, o):
        q, c = self.qc(o)
        c.enter_at_head(q) if self.form % 2 else q.add_at_head(c)

    def do_front(self, o):
        q, c = self.qc(o)
        x = self.c[o["x"]]
        c.enter_in_front_of(q, x) if self.form % 2 else q.add_in_front_of(c, x)

    def do_behind(self, o):
        q, c = self.qc(o)
        x = self.c[o["x"]]
        c.enter_behind(q, x) if self.form % 2 else q.add_behind(c, x)

    def do_insert(self, o):
        q, c = self.qc(o)
        q.insert(o["i"], c)

    def do_prio(self, o):
        q, c = self.qc(o)
        r = c.priority(q, o["p"] * self.ps)
        if num(r / self.ps) != o["p"]:
            self.err = "wrong priority"

    def do_leave(self, o):
        q, c = self.qc(o)
        c.leave(q) if self.form % 2 else q.remove(c)

    def do_leaveall(self, o):
        self.c[o["c"]].leave()

    def do_clear(self, o):
        q = self.qs[o["q"] - 1]
        q.clear() if self.form % 2 else q.remove()

    def do_pop(self, o):
        q = self.qs[o["q"] - 1]
        r = q.pop() if o["i"] == NONE else q.pop(o["i"])
        self.ans = [0 if r is None else self.ci(r)]

    def do_del(self, o):
        q = self.qs[o["q"] - 1]
        del q[o["i"]]

    def sl(self, o):
        return slice(*(None if x == NONE else x for x in (o["a"], o["b"], o["k"])))

    def do_delslice(self, o):
        q = self.qs[o["q"] - 1]
        del q[self.sl(o)]

    def do_extend(self, o):
        q = self.qs[o["q"] - 1]
        if o["src"]:
            q.extend(self.qs[o["src"] - 1], clear_source=o["clear"])
        else:
            cs = [self.c[i] for i in o["cs"]]
            q.extend((cs, tuple(cs), iter(cs))[self.form % 3])

    def do_setcap(self, o):
        q = self.qs[o["q"] - 1]
        v = math.inf if o["v"] == INF else o["v"]
        if self.form % 2:
            q.set_capacity(v)
        else:
            q.capacity.value = v

    def do_mon(self, o):
        self.qs[o["q"] - 1].monitor(o["b"])

    def do_resetmon(self, o):
        q = self.qs[o["q"] - 1]
        if o["b"] == NONE:
            q.reset_monitors()
        else:
            q.reset_monitors(monitor=bool(o["b"]))

    def do_arrreset(self, o):
        self.qs[o["q"] - 1].arrival_rate(reset=True)
        self.t0[o["q"] - 1][0] = self.now()

    def do_depreset(self, o):
        self.qs[o["q"] - 1].departure_rate(reset=True)
        self.t0[o["q"] - 1][1] = self.now()

    def do_new(self, o):
        kw = self.kw(o["cap"], o["on"])
        if o["cs"]:
            kw["fill"] = [self.c[i] for i in o["cs"]]
        self.add(sim.Queue(f"q{len(self.qs) + 1}", **kw), o["cap"] != INF and o["on"])

    def do_setop(self, o):
        a, b = self.qs[o["q"] - 1], self.qs[o["r"] - 1]
        k = o["k"]
        if self.form % 2 and not o["on"]:
            if k == "union":
                r = (lambda: a | b, lambda: a + b, lambda: sum([a, b]))[self.form % 3]()
            else:
                r = {"intersection": lambda: a & b, "difference": lambda: a - b, "symmetric_difference": lambda: a ^ b}[k]()
        else:
            r = getattr(a, k)(b, monitor=True) if o["on"] else getattr(a, k)(b)
        self.add(r, False)

    def do_copy(self, o):
        q = self.qs[o["q"] - 1]
        kw = {"monitor": True} if o["on"] else {}
        if o["cc"]:
            kw["copy_capacity"] = True
        fin = o["on"] and o["cc"] and q.capacity() != math.inf
        self.add(q.move(**kw) if o["mv"] else q.copy(**kw), fin)

    def do_iter(self, o):
        q = self.qs[o["q"] - 1]
        self.its.append(reversed(q) if o["rev"] else iter(q))

    def do_next(self, o):
        c = next(self.its[o["it"] - 1], None)
        self.ans = [0 if c is None else self.ci(c)]

    def do_slice(self, o):
        self.ans = [self.ci(c) for c in self.qs[o["q"] - 1][self.sl(o)]]

    def do_at(self, o):
        self.ans = [self.ci(self.qs[o["q"] - 1][o["i"]])]

    def do_nbr(self, o):
        q, c = self.qc(o)
        z = lambda x: 0 if x is None else self.ci(x)
        if self.form % 2:
            self.ans = [z(c.predecessor(q)), z(c.successor(q)), c.index(q)]
        else:
            self.ans = [z(q.predecessor(c)), z(q.successor(c)), q.index(c)]

    def do_cmp(self, o):
        a, b = self.qs[o["q"] - 1], self.qs[o["r"] - 1]
        if self.form % 3 == 0:
            b = b.as_list()
        elif self.form % 3 == 1:
            b = b.as_set()
        self.ans = [int(x) for x in (a == b, a != b, a < b, a <= b, a > b, a >= b)]


def replay(G, ops, variant):
    w = World(G, variant)
    for o in ops:
        w.do(o)
    return w.snapshot()


def script(seed, profile, length):
    r = random.Random(str(seed))
    n = r.choice([3, 5, 8])
    qs = []
    for _ in range(r.randint(1, 3)):
        qs.append({"cap": r.choice([1, 2, 3, 5]) if r.random() < (0.6 if profile == "bulk" else 0.2) else INF, "on": r.random() < 0.85})
    G = {"n": n, "qs": qs, "ts": r.choice([1, 1, 0.5, 3]), "ps": r.choice([1, 1, 0.5, -1, 10])}
    neg = G["ps"] < 0
    if neg:
        G["ps"] = 1
    w = World(G, r.randrange(30))
    tr = {"g": G, "b": w.snapshot(), "ev": []}
    lazy = r.random() < 0.3
    P = [NONE, NONE, 0, 1, 2, 3, -1]
    maxq = 6 if profile == "bulk" else 4
    for step in range(length):
        k = r.randrange(len(w.qs))
        q = w.qs[k]
        i = k + 1
        cs = [w.ci(c) for c in q]
        out = [c for c in range(1, n + 1) if c not in cs]
        anyc = r.randint(1, n)
        new = r.choice(out) if out and r.random() < 0.95 else anyc
        old = r.choice(cs) if cs and r.random() < 0.95 else anyc
        x = r.random()
        bulk = profile == "bulk"
        ixs = [NONE] + list(range(-len(cs) - 2, len(cs) + 3))
        o = None
        if x < 0.14:
            o = {"op": "adv", "d": r.choice([1, 1, 2, 3])}
        elif x < (0.26 if bulk else 0.36):
            o = {"op": "enter", "q": i, "c": new, "p": r.choice(P)}
        elif x < (0.30 if bulk else 0.48):
            o = r.choice(
                [
                    {"op": "athead", "q": i, "c": new},
                    {"op": "front", "q": i, "c": new, "x": old},
                    {"op": "behind", "q": i, "c": new, "x": old},
                    {"op": "insert", "q": i, "c": new, "i": r.randint(0, len(cs)) if r.random() < 0.93 else r.choice([-1, len(cs) + 1])},
                ]
            )
        elif x < (0.33 if bulk else 0.56):
            o = {"op": "prio", "q": i, "c": old, "p": r.choice(P[2:])}
        elif x < (0.40 if bulk else 0.66):
            o = {"op": "leave", "q": i, "c": old}
        elif x < (0.46 if bulk else 0.72):
            o = r.choice([{"op": "pop", "q": i, "i": NONE}, {"op": "pop", "q": i, "i": r.randint(-len(cs), len(cs) - 1) if cs else NONE}, {"op": "leaveall", "c": anyc}])
            if cs and r.random() < 0.2:
                o = {"op": "del", "q": i, "i": r.randint(-len(cs), len(cs) - 1)}
        elif x < (0.70 if bulk else 0.74):
            y = r.random()
            if y < 0.1:
                o = {"op": "clear", "q": i}
            elif y < 0.2:
                o = {"op": "delslice", "q": i, "a": r.choice(ixs), "b": r.choice(ixs), "k": r.choice([NONE, NONE, 1, 2, -1])}
            elif y < 0.45:
                src = r.choice([0] + [j + 1 for j in range(len(w.qs)) if j != k])
                o = {"op": "extend", "q": i, "src": src, "cs": [r.randint(1, n) for _ in range(r.randint(0, 4))] if src == 0 else [], "clear": src != 0 and r.random() < 0.4}
            elif y < 0.55:
                o = {"op": "setcap", "q": i, "v": r.choice([0, 1, 2, 3, 5, INF, INF])}
            elif len(w.qs) < maxq:
                if y < 0.8:
                    o = {"op": "setop", "k": r.choice(["union", "intersection", "difference", "symmetric_difference"]), "q": i, "r": r.randint(1, len(w.qs)), "on": r.random() < 0.3}
                elif y < 0.95:
                    cc = r.random() < 0.5 and len(cs) <= q.capacity()
                    o = {"op": "copy", "q": i, "cc": cc, "mv": r.random() < 0.4, "on": r.random() < 0.4}
                else:
                    cap = r.choice([INF, 2, 4])
                    o = {"op": "new", "cap": cap, "on": r.random() < 0.7, "cs": r.sample(range(1, n + 1), r.randint(0, 2))}
        elif x < 0.78:
            o = r.choice(
                [
                    {"op": "mon", "q": i, "b": r.random() < 0.6},
                    {"op": "resetmon", "q": i, "b": r.choice([NONE, NONE, 0, 1])},
                    {"op": "arrreset", "q": i},
                    {"op": "depreset", "q": i},
                    {"op": "resetnow", "t": r.choice([0, 0, 10])},
                ]
            )
        elif x < 0.80:
            if len(w.its) < 4:
                o = {"op": "iter", "q": i, "rev": r.random() < 0.4}
        elif x < 0.91 and w.its:
            o = {"op": "next", "it": r.randint(1, len(w.its))}
        else:
            o = r.choice(
                [
                    {"op": "slice", "q": i, "a": r.choice(ixs), "b": r.choice(ixs), "k": r.choice([NONE, 1, 2, 3, -1, -2])},
                    {"op": "at", "q": i, "i": r.choice(ixs[1:])},
                    {"op": "nbr", "q": i, "c": old},
                    {"op": "cmp", "q": i, "r": r.randint(1, len(w.qs))},
                ]
            )
        if o is None:
            continue
        w.do(o)
        last = step == length - 1
        tr["ev"].append({"o": o, "b": {"err": w.err, "ans": w.ans} if lazy and r.random() < 0.8 and not last else w.snapshot()})
    return tr
