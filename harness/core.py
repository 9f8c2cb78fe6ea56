"""Driver: executes operation scripts on the real salabim and records what user code can observe.

An operation script is a list of operation records (the ones of spec/SalabimCore.tla).  Operation k is
executed by whichever component is current at that moment (or by main).  Just before user code acts, the
complete observable state is recorded through salabim's public interface.
"""
import os
import datetime
import inspect
import math
import re
import sys

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import salabim as sim  # noqa: E402

INF = 1000000
NOPRIO = -1000000
WEIRD = -888888

MICRO = datetime.timedelta(microseconds=3)
# units in which the conversion of dates is exact in floating point, with the number of units per unit of time of the specification
UNITS = (("seconds", 60), ("seconds", 1), ("milliseconds", 1000), ("seconds", 3600), ("microseconds", 500000), ("seconds", 86400 * 3))
PER_SECOND = {"seconds": 1, "milliseconds": 1000, "microseconds": 1000000}
VALUES = ((0, 1, 2), ("red", "green", "blue"), (False, True, "on"))
ACC = ("ra", "rlos", "sa", "qa", "sd")
METHODS = ("process", "other", "plain")
PREDICATES = ("scheduled", "passive", "requesting", "waiting", "standby", "interrupted", "data", "current")

# line numbers in traces: do not read source files for each of them
_stack, _frameinfo = inspect.stack, inspect.getframeinfo
inspect.stack = lambda context=0: _stack(context)
inspect.getframeinfo = lambda frame, context=0: _frameinfo(frame, context)



class Done(BaseException):
    pass


class Stuck(BaseException):
    pass


def num(x):
    """observed number -> int of the specification"""
    if x is None:
        return NOPRIO
    try:
        if x == math.inf:
            return INF
        if isinstance(x, bool):
            return int(x)
        y = round(x)
        if abs(x - y) < 1e-7 and abs(y) < 1e9:
            return int(y)
    except Exception:
        pass
    return WEIRD


class Sink:
    """takes the trace output"""

    def __init__(self):
        self.text = ""

    def write(self, s):
        self.text += s

    def flush(self):
        pass


Q = r"([0-9.e+-]+)"
TIME = r"(-?[0-9.]+|inf)"
TRACED = [
    (re.compile(rf"^ *(?:\S+ +)?{TIME} +(main|c\d+) +current( \(standby\))? *$"), lambda w, m: ["at", w.name(m[2]), w.t(float(m[1]))]),
    (re.compile(rf" (main|c\d+) \S.* scheduled for {TIME}( |!|$)"), lambda w, m: ["for", w.name(m[1]), w.t(float(m[2])), int(m[3] == "!")]),
    (re.compile(r" (main) \S.* ends on no events left *(!?)"), lambda w, m: ["for", 0, INF, int(m[2] == "!")]),
    (re.compile(rf" (c\d+) +claim {Q} from r(\d+)( |$)"), lambda w, m: ["claim", w.name(m[1]), int(m[3]), w.amt(abs(float(m[2])))]),
    (re.compile(rf" (c\d+) +release {Q} from r(\d+)"), lambda w, m: ["rel", w.name(m[1]), int(m[3]), w.amt(float(m[2]))]),
    (re.compile(rf" (c\d+) +bumped from r(\d+) by c\d+ \(release {Q}\)"), lambda w, m: ["bump", w.name(m[1]), int(m[2]), w.amt(float(m[3]))]),
    (re.compile(rf" (c\d+) +(?:request|put \(request\)|get \(request\)) {Q} (?:from|to) r(\d+)"), lambda w, m: ["req", w.name(m[1]), int(m[3]), w.amt(abs(float(m[2])))]),
    (re.compile(r" (c\d+) +(request|wait|from_store|to_store) failed"), lambda w, m: ["fail", w.name(m[1])]),
    (re.compile(r" (c\d+) passivate"), lambda w, m: ["pas", w.name(m[1])]),
    (re.compile(r" (c\d+) interrupt"), lambda w, m: ["int", w.name(m[1])]),
    (re.compile(r" (c\d+) resume"), lambda w, m: ["res", w.name(m[1])]),
    (re.compile(r" cancel (?:\(on data component\) )?(c\d+)"), lambda w, m: ["can", w.name(m[1])]),
    (re.compile(r" i(\d+) +enter q(\d+)"), lambda w, m: ["ent", int(m[1]), int(m[2])]),
    (re.compile(r" i(\d+) +leave q(\d+)"), lambda w, m: ["lea", int(m[1]), int(m[2])]),
    (re.compile(r" (c\d+) create( data component)?"), lambda w, m: ["new", w.name(m[1]), int(m[2] is not None)]),
    (re.compile(r" s(\d+) (?:set|reset) +value = (.*\S)"), lambda w, m: ["set", int(m[1]), w.val(m[2], repr)]),
    (re.compile(r" s(\d+) trigger +value = (.*) --> (.*) allow (\S+) comp"), lambda w, m: ["trg", int(m[1]), w.val(m[2], str), w.val(m[3], str), -1 if m[4] == "inf" else int(m[4])]),
    (re.compile(r" (c\d+) ended"), lambda w, m: ["end", w.name(m[1])]),
]


class World:
    def __init__(self, G, chooser, yieldless=True, quiet=False, trace=False, variant=0, default=True, tell=False):
        """variant: how the same model is expressed (time unit, dates, values of the states)"""
        self.quiet = quiet  # only observe at the end
        self.ts = G.get("ts", 1)  # time scale: one time unit of the specification is ts in the code
        self.qs = G.get("qs", 1)  # the same for the quantities of resources
        self.ps = G.get("ps", 1)  # and for priorities
        self.shift = 0  # total of what reset_now took away from the time shown
        self.form = 0  # counts operations; selects among equivalent ways to express a call
        self.acc = {}
        self.G = G
        self.chooser = chooser
        self.yieldless = yieldless
        kw = {} if default else {"isdefault_env": False, "name": "other"}
        self.unit = None
        if variant % 4 == 3:  # a model with dates: moments and durations can be given as datetime, timedelta and string
            self.unit, self.ts = UNITS[variant // 4 % len(UNITS)]
            self.tick = datetime.timedelta(seconds=self.ts / PER_SECOND[self.unit])
            self.date0 = datetime.datetime(1970, 1, 1) if variant // 4 % 2 else datetime.datetime(2024, 2, 28, 22, 30)
            kw["time_unit"] = self.unit
            kw["datetime0"] = True if variant // 4 % 2 else str(self.date0) if variant % 3 else self.date0
        self.sm = VALUES[variant // 2 % len(VALUES)] if variant % 2 else VALUES[0]
        self.sink = Sink() if trace or tell else None
        self.tell = tell and not self.unit
        self.env = env = sim.Environment(trace=self.sink or False, yieldless=yieldless, **kw)
        world = self
        if self.sink:
            env.suppress_trace_standby(False)
            env.suppress_trace_linenumbers(variant % 8 != 5)

        def body(self, m, a):
            """one process: performs operations until told to end"""
            k = 0
            while True:
                world.me = [m, a, k]
                op = world.next_op()
                k += 1
                if op["op"] == "end":
                    return
                if op["op"] == "raise":
                    world.me = [m, a, k]
                    raise {"TypeError": TypeError, "KeyError": KeyError, "StopIteration": RuntimeError}.get(op["e"], ValueError)("raised by a process")
                world.do(op, self)
                if not yieldless and self.status() != "current":
                    x = yield
                    if x is not None and x is not self.from_store_item():
                        world.err = "wrong item returned"

        if yieldless:

            def play(self, m, a):
                for _ in body(self, m, a):
                    pass

            class P(sim.Component):
                def process(self, a=0):
                    play(self, 0, a)

                def other(self, a=0):
                    play(self, 1, a)

                def plain(self, a=0):
                    play(self, 2, a)

        else:

            class P(sim.Component):
                def process(self, a=0):
                    yield from body(self, 0, a)

                def other(self, a=0):
                    yield from body(self, 1, a)

                def plain(self, a=0):  # not a generator
                    for _ in body(self, 2, a):
                        world.err = "a plain process lost control"

        self.P = P
        self.err = ""
        self.c = [None] * (G["n"] + 1)
        self.idx = {env.main(): 0}
        self.res = []
        for k, r in enumerate(G["res"]):
            self.res.append(
                sim.Resource(
                    f"r{k + 1}",
                    capacity=r["cap"] * self.qs,
                    anonymous=r["anon"],
                    preemptive=r["pre"],
                    honor_only_first=r["hof"],
                    honor_only_highest_priority=r["hohp"],
                    initial_claimed_quantity=r["init"] * self.qs,
                    env=env,
                )
            )
        self.ridx = {r: k + 1 for k, r in enumerate(self.res)}
        self.sts = [sim.State(f"s{k + 1}", value=self.sm[v], env=env) for k, v in enumerate(G["sts"])]
        self.sto = [sim.Store(f"q{k + 1}", capacity=math.inf if q["cap"] == INF else q["cap"], env=env) for k, q in enumerate(G["sto"])]
        self.qidx = {q: k + 1 for k, q in enumerate(self.sto)}
        self.items = [None] + [sim.Component(f"i{k + 1}", process="", env=env) for k in range(G["items"])]
        self.iidx = {it: k for k, it in enumerate(self.items) if it is not None}
        self.last = None
        self.me = []
        self.op = None
        self.ev = []
        self.b0 = None
        self.final = False

    # ------------------------------------------------------------------ observation
    def name(self, x):
        return 0 if x == "main" else int(x[1:])

    def val(self, x, f):
        return next((i for i, v in enumerate(self.sm) if f(v) == x), WEIRD)

    def told(self):
        """what the trace told since the last operation"""
        r = []
        for line in self.sink.text.splitlines():
            for pat, make in TRACED:
                m = pat.search(line)
                if m:
                    r.append(make(self, m))
                    break
        return {"tr": r}

    def t(self, x):
        return num(x if x == math.inf else x / self.ts)

    def prio(self, x):
        return num(x if x is None else x / self.ps)

    def amt(self, x):
        return num(x / self.qs)

    def q(self, queue, idx):
        r = [[idx[c], self.prio(c.priority(queue)), self.t(c.enter_time(queue))] for c in queue]
        if len(r) != len(queue) or len(r) != num(queue.length()):
            r.append([WEIRD, len(queue), num(queue.length())])
        return r

    def status(self, c):
        st = c.status()
        for x in PREDICATES:
            if getattr(c, "is" + x)() != (st == x):
                return f"{st}, but is{x}()={getattr(c, 'is' + x)()}"
        if st == "interrupted" and c.interrupted_status() != "scheduled":
            return f"{st}, but was {c.interrupted_status()}"
        return st

    def snapshot(self):
        env = self.env
        cs = self.c[1:]
        R = self.ridx
        I = self.idx
        t = self.t
        b = {
            "now": self.clock(),
            "peek": t(env.peek()),
            "cur": I.get(env.current_component(), WEIRD),
            "pr": self.me if env.current_component() is not env.main() else [],
            "err": self.err,
            "mn": [self.status(self.env.main()), t(self.env.main().scheduled_time())],
            "st": ["none" if c is None else self.status(c) for c in cs],
            "sch": [INF if c is None else t(c.scheduled_time()) for c in cs],
            "pri": [NOPRIO if c is None else self.prio(c.scheduled_priority()) for c in cs],
            "rem": [0 if c is None else t(c.remaining_duration()) for c in cs],
            "lev": [0 if c is None else num(c.interrupt_level()) for c in cs],
            "fail": [False if c is None else c.failed() for c in cs],
            "ct": [0 if c is None else t(c.creation_time()) for c in cs],
            "md": [0 if c is None else (c.mode() or 0) for c in cs],
            "mt": [0 if c is None else t(c.mode_time()) for c in cs],
        }
        b["req"] = [[] if c is None else [[R[r], self.amt(c.requested_quantity(r))] for r in c.requested_resources()] for c in cs]
        b["cla"] = [[] if c is None else [[R[r], self.amt(c.claimed_quantity(r))] for r in c.claimed_resources()] for c in cs]
        for c, x in zip(cs, b["cla"]):
            if c is not None:
                cl = [c.isclaiming(r) for r in self.res]
                if cl != [c in r.claimers() for r in self.res] or cl != [not c.isbumped(r) for r in self.res] or c.isclaiming() != any(cl) or c.isbumped() != (not any(cl)):
                    x.append([WEIRD, cl])
        b["rq"] = [self.q(r.requesters(), I) for r in self.res]
        b["cq"] = [self.q(r.claimers(), I) for r in self.res]
        b["cl"] = [self.amt(r.claimed_quantity()) for r in self.res]
        b["cap"] = [self.amt(r.capacity()) for r in self.res]
        b["av"] = [self.amt(r.available_quantity()) for r in self.res]
        b["sv"] = [self.sval(s) for s in self.sts]
        b["wq"] = [self.q(s.waiters(), I) for s in self.sts]
        b["qi"] = [self.q(q, self.iidx) for q in self.sto]
        b["fq"] = [self.q(q.from_store_requesters(), I) for q in self.sto]
        b["tq"] = [self.q(q.to_store_requesters(), I) for q in self.sto]
        b["qav"] = [num(q.available_quantity()) for q in self.sto]
        b["fi"] = [0 if c is None or c.from_store_item() is None else self.iidx[c.from_store_item()] for c in cs]
        b["fst"] = [0 if c is None or c.from_store_store() is None else self.qidx[c.from_store_store()] for c in cs]
        b["tst"] = [0 if c is None or c.to_store_store() is None else self.qidx[c.to_store_store()] for c in cs]
        return b

    def clock(self):
        now = self.env.now()
        if self.env.t() != now:
            return WEIRD
        if self.unit and self.quiet is False:
            date = self.env.t_to_datetime(now)
            shown = f"{date:%a %Y-%m-%d %H:%M:%S}"
            if abs(date - self.date0 - self.tick * ((now + self.shift) / self.ts)) > MICRO or self.env.time_to_str(now) != shown or self.env.datetime_to_t(date) != now:
                return WEIRD
        return self.t(now)

    def sval(self, s):
        v = s.get()
        if s() != v or s.value.value != v or s.value() != v:
            return WEIRD
        return self.sm.index(v) if v in self.sm else WEIRD

    def integ(self, m, unit=1):
        """the time integral of a level monitor over the time it was on"""
        d = m.duration()
        return 0 if d == 0 else num(m.mean() * d / self.ts / unit)

    def durat(self, *ms):
        """the common duration of several monitors"""
        d = {self.t(m.duration()) for m in ms}
        return d.pop() if len(d) == 1 else WEIRD

    def los(self, m):
        n = m.number_of_entries()
        return [n, self.t(m.mean() * n) if n else 0]

    def accumulated(self):
        b = {}
        i = self.integ
        b["ra"] = [
            [
                self.durat(r.claimed_quantity, r.capacity, r.available_quantity, r.occupancy, r.requesters().length, r.claimers().length),
                i(r.claimed_quantity, self.qs),
                i(r.capacity, self.qs),
                i(r.available_quantity, self.qs),
                i(r.occupancy, 1 / 12),
                i(r.requesters().length),
                i(r.claimers().length),
            ]
            for r in self.res
        ]
        b["rlos"] = [self.los(r.requesters().length_of_stay) + self.los(r.claimers().length_of_stay) for r in self.res]
        b["sa"] = [[self.durat(s.value, s.waiters().length), self.t(sum(k * s.value.value_duration(v) for k, v in enumerate(self.sm))), i(s.waiters().length)] + self.los(s.waiters().length_of_stay) for s in self.sts]
        b["qa"] = [
            [self.durat(q.length)] + [z for p in (q, q.from_store_requesters(), q.to_store_requesters()) for z in [i(p.length)] + self.los(p.length_of_stay)]
            for q in self.sto
        ]
        b["sd"] = [
            [0] * 10
            if c is None
            else [self.t(c.status.value_duration(x)) for x in PREDICATES if x != "current"] + [self.t(c.mode.value_duration(x)) for x in (1, 2, 3)]
            for c in self.c[1:]
        ]
        return b

    def record(self):
        if self.quiet:
            if self.final:
                self.last = self.snapshot()
                self.acc = self.accumulated()
                if self.tell:
                    self.acc["tr"] = self.told()["tr"]
            return
        b = self.snapshot()
        if self.last is None:
            self.b0 = dict(b)
        else:
            d = {k: v for k, v in b.items() if self.last[k] != v}
            every = self.G.get("acc", 0)
            if self.final or every and len(self.ev) % every == 0:
                d.update(self.accumulated())
            if self.tell:
                d.update(self.told())
            self.ev.append({"o": self.op, "b": d})
        self.last = b

    def next_op(self):
        self.record()
        if self.final:
            raise Done()
        op = self.chooser(self)
        if op is None:
            self.final = True
            self.op = {"op": "nop"}
            if not self.quiet:
                if self.sink:
                    self.sink.text = ""
                self.err = ""
            self.record()
            raise Done()
        if self.sink:
            self.sink.text = ""
        self.op = op
        self.err = ""
        return op

    # ------------------------------------------------------------------ operations
    def do(self, op, comp=None):
        self.form += 1
        try:
            getattr(self, "do_" + op["op"])(op)
        except Exception as e:
            self.err = type(e).__name__
            self.exc = e

    # the same thing can be said in different ways: plain number, callable, distribution
    def dur(self, d):
        d = d * self.ts
        if self.unit and self.form % 5 in (1, 3):
            delta = self.tick * (d / self.ts)
            if self.form % 2 and delta < datetime.timedelta(days=1):
                return str(delta)
            return (lambda: delta) if self.form % 4 == 0 else delta
        k = self.form % 4
        if k == 1:
            return lambda: d
        if k == 2:
            return sim.Constant(d)
        return d

    def at(self, t):
        """a moment in (shown) specification time"""
        if self.unit and self.form % 5 in (2, 4):
            date = self.date0 + self.tick * (t + self.shift / self.ts)
            k = self.form // 5 % 3
            return date if k == 0 else str(date) if k == 1 else lambda: date
        t = t * self.ts
        return (lambda: t) if self.form % 3 == 1 else t

    def moment(self, kw, at, delay, d):
        """d from now, as a moment (and a delay from there)"""
        d1 = 1 if delay and d > 0 and self.form % 2 else 0
        kw[at] = self.at(self.env.now() / self.ts + d - d1)
        if d1:
            kw[delay] = self.dur(d1)

    def pu(self, o, prio="priority"):
        kw = {}
        if o["p"] or self.form % 2:
            kw[prio] = o["p"] * self.ps
        if o["u"] or self.form % 2:
            kw["urgent"] = o["u"]
        return self.md(o, kw)

    def md(self, o, kw=None):
        kw = {} if kw is None else kw
        if "md" in o:
            kw["mode"] = o["md"]
        return kw

    def do_create(self, o):
        kw = {}
        if o["p"]:
            kw["priority"] = o["p"] * self.ps
        if o["u"]:
            kw["urgent"] = True
        if o["d"]:
            if o["d"] % 2:
                kw["delay"] = self.dur(o["d"])
            else:
                self.moment(kw, "at", "delay", o["d"])
        if o.get("m"):
            kw["process"] = METHODS[o["m"]]
        if o.get("a"):
            kw["a"] = o["a"]
        i = o["c"]
        # idx must be known before the process starts (it never starts inside the constructor)
        c = self.P(f"c{i}", skip_standby=self.G["skip"][i - 1], env=self.env, **kw)
        self.c[i] = c
        self.idx[c] = i

    def do_createdata(self, o):
        i = o["c"]
        c = self.P(f"c{i}", process="", skip_standby=self.G["skip"][i - 1], env=self.env)
        self.c[i] = c
        self.idx[c] = i

    def target(self, o):
        return {"r": self.res, "s": self.sts, "q": self.sto, "c": self.c[1:]}[o["k"]][o["i"] - 1]

    def do_mon(self, o):
        x = self.target(o)
        for m in (x.status, x.mode) if o["k"] == "c" else (x,):
            m.monitor(o["b"])

    def do_monreset(self, o):
        x = self.target(o)
        kw = {} if o["b"] not in (0, 1) else {"monitor": bool(o["b"])}
        for m in (x.status, x.mode) if o["k"] == "c" else (x,):
            m.reset_monitors(**kw)

    def do_onmain(self, o):
        m = self.env.main()
        k = o["k"]
        if k == 0:
            m.standby()
        elif k == 1:
            m.request(self.res[0])
        elif k == 2:
            m.wait(self.sts[0])
        elif k == 3:
            m.from_store(self.sto[0])
        else:
            m.to_store(self.sto[0], self.items[1])

    def do_skip(self, o):
        self.c[o["c"]].skip_standby(o["v"])

    def do_resetnow(self, o):
        before = self.env.now()
        self.env.reset_now(self.at(o["t"]))
        self.shift += before - o["t"] * self.ts

    def do_activate(self, o):
        kw = self.pu(o)
        if o["keep"]:
            kw["keep_request" if self.form % 2 else "keep_wait"] = True
        if o["d"]:
            if self.form % 3 == 0:
                self.moment(kw, "at", "delay", o["d"])
            else:
                kw["delay"] = self.dur(o["d"])
        if "proc" in o:
            kw["process"] = METHODS[o.get("m", 0)]
            if o.get("a"):
                kw["a"] = o["a"]
        self.c[o["c"]].activate(**kw)

    def do_activateat(self, o):
        self.c[o["c"]].activate(at=self.at(o["t"]), cap_now=True, **self.pu(o))

    def do_hold(self, o):
        kw = self.pu(o)
        if self.form % 3 == 0:
            self.moment(kw, "till", None, o["d"])
            self.c[o["c"]].hold(**kw)
        elif o["d"] == 0 and self.form % 3 == 1:
            self.c[o["c"]].hold(**kw)
        else:
            self.c[o["c"]].hold(self.dur(o["d"]), **kw)

    def do_holdtill(self, o):
        self.c[o["c"]].hold(till=self.at(o["t"]), cap_now=o["cap"], **self.pu(o))

    def do_holdint(self, o):
        self.c[o["c"]].hold(self.dur(o["d"]), interrupted=o["lv"], **self.md(o))

    def do_passivate(self, o):
        self.c[o["c"]].passivate(**self.md(o))

    def do_interrupt(self, o):
        self.c[o["c"]].interrupt(**self.md(o))

    def do_resume(self, o):
        self.c[o["c"]].resume(all=o["all"], **self.pu(o))

    def do_cancel(self, o):
        self.c[o["c"]].cancel(**self.md(o))

    def do_standby(self, o):
        self.c[o["c"]].standby(**self.md(o))

    def do_remdur(self, o):
        self.c[o["c"]].remaining_duration(o["d"] * self.ts, priority=o["p"] * self.ps, urgent=o["u"])

    def do_run(self, o):
        kw = {}
        if o["p"] != INF:
            kw["priority"] = o["p"] * self.ps
        if o["u"]:
            kw["urgent"] = True
        if o["t"] != -1:
            self.env.run(till=self.at(o["t"]), **kw)
        elif o["d"] != -1:
            self.env.run(self.dur(o["d"]), **kw)
        else:
            self.env.run(**kw)

    def fail(self, o):
        kw = self.pu(o)
        if o["f"] != -1:
            if self.form % 2:
                kw["fail_at"] = self.at(self.env.now() / self.ts + o["f"])
            else:
                kw["fail_delay"] = self.dur(o["f"])
        return kw

    def do_request(self, o):
        c = self.c[o["c"]]
        kw = self.fail(o)
        put = any(a["q"] < 0 for a in o["a"])
        a = o["a"]
        qs = self.qs
        args = [(self.res[x["r"] - 1], abs(x["q"]) * qs, x["p"] * self.ps) for x in a]
        if len({x["p"] for x in a}) == 1:
            if a[0]["p"] == 0 and len(a) == 1 and abs(a[0]["q"]) * qs == 1:
                args = [self.res[a[0]["r"] - 1]]
            else:
                args = [[self.res[x["r"] - 1], abs(x["q"]) * qs] for x in a]
                kw["request_priority"] = a[0]["p"] * self.ps
        if o["oneof"]:
            kw["oneof"] = True
        if put:
            c.put(*args, **kw)
        elif self.form % 4 == 0:
            c.get(*args, **kw)
        else:
            c.request(*args, **kw)

    def do_release(self, o):
        r = self.res[o["r"] - 1]
        if o["q"]:
            self.c[o["c"]].release((r, o["q"] * self.qs))
        else:
            self.c[o["c"]].release(r)

    def do_releases(self, o):
        args = [(self.res[x["r"] - 1], x["q"] * self.qs) if x["q"] else self.res[x["r"] - 1] if k % 2 else [self.res[x["r"] - 1]] for k, x in enumerate(o["a"])]
        self.c[o["c"]].release(*args)

    def do_releaseall(self, o):
        self.c[o["c"]].release()

    def do_rrelease(self, o):
        r = self.res[o["r"] - 1]
        if o["q"]:
            r.release(o["q"] * self.qs)
        else:
            r.release()

    def do_setcap(self, o):
        r = self.res[o["r"] - 1]
        if self.form % 2:
            r.capacity.value = o["v"] * self.qs
        else:
            r.set_capacity(o["v"] * self.qs)

    def do_set(self, o):
        s = self.sts[o["s"] - 1]
        v = self.sm[o["v"]]
        if self.form % 3 == 2:
            s.value.value = v
        elif o["v"] == 0 or self.form % 3 == 1:
            s.reset() if v is False else s.reset(v)
        else:
            s.set() if v is True else s.set(v)

    def do_trigger(self, o):
        s = self.sts[o["s"] - 1]
        kw = {}
        if o["v2"] != -1:
            kw["value_after"] = self.sm[o["v2"]]
        if o["m"] != -1:
            kw["max"] = o["m"]
        v = self.sm[o["v"]]
        s.trigger(**kw) if v is True else s.trigger(v, **kw)

    def do_wait(self, o):
        kw = self.fail(o)
        if "wf" in o:
            return self.waitfor(o, kw)
        args = []
        ps = {w["p"] for w in o["w"]}
        if len(ps) == 1:
            kw["request_priority"] = ps.pop() * self.ps
        for w in o["w"]:
            s = self.sts[w["s"] - 1]
            v = w["v"]
            higher = self.sm[v + 1 :]
            if w["k"] == "gt":
                x = f"$ > {v}" if self.sm is VALUES[0] else f"$ in {higher!r}" if self.form % 2 else (lambda val, comp, state, higher=higher: val in higher)
            elif w["k"] == "ne":
                x = (lambda val, comp, state, v=self.sm[v]: val != v) if self.form % 2 else f"$ != {self.sm[v]!r} and state is state and self is self"
            else:
                x = self.sm[v]
            arg = [s] if x is True and self.form % 2 else [s, x]
            if "request_priority" not in kw:
                arg = [s, x, w["p"] * self.ps]
            args.append(s if len(arg) == 1 else arg if self.form % 4 == 0 else tuple(arg))
        if o["all"]:
            kw["all"] = True
        self.c[o["c"]].wait(*args, **kw)

    def waitfor(self, o, kw):
        sts = []
        for w in o["w"]:
            s = self.sts[w["s"] - 1]
            if s not in sts:
                sts.append(s)
        F = {"eq": lambda x, v: x == v, "ne": lambda x, v: x != v, "gt": lambda x, v: x > v}
        ag = all if o["all"] else any
        cond = lambda: ag(F[w["k"]](self.sm.index(self.sts[w["s"] - 1].get()), w["v"]) for w in o["w"])
        self.c[o["c"]].wait_for(cond, sts, request_priority=o["w"][0]["p"] * self.ps, **kw)

    def flt(self, fl):
        return lambda item: self.iidx[item] in fl

    def do_fromstore(self, o):
        qs = [self.sto[q - 1] for q in o["qs"]]
        kw = self.fail({**o, "p": 0, "u": True})
        kw.pop("priority", None)
        if o["fl"]:
            kw["filter"] = self.flt(list(o["fl"]))
        if o["key"]:
            kw["key"] = lambda item: o["key"][self.iidx[item] - 1]
        if o["rp"]:
            kw["request_priority"] = o["rp"] * self.ps
        if o["p"]:
            kw["fail_priority"] = o["p"] * self.ps
        kw["urgent"] = o["u"]
        c = self.c[o["c"]]
        x = c.from_store(qs[0] if len(qs) == 1 else qs, **kw)
        if self.yieldless and self.env.current_component() is c and x is not c.from_store_item():
            self.err = "wrong item returned"

    def do_tostore(self, o):
        qs = [self.sto[q - 1] for q in o["qs"]]
        kw = self.fail({**o, "p": 0, "u": True})
        kw.pop("priority", None)
        if o["rp"]:
            kw["request_priority"] = o["rp"] * self.ps
        if o["ip"]:
            kw["priority"] = o["ip"] * self.ps
        if o["p"]:
            kw["fail_priority"] = o["p"] * self.ps
        kw["urgent"] = o["u"]
        self.c[o["c"]].to_store(qs[0] if len(qs) == 1 else qs, self.items[o["i"]], **kw)

    def do_filter(self, o):
        self.c[o["c"]].filter(self.flt(list(o["fl"])) if o["fl"] else (lambda item: True))

    def do_rescan(self, o):
        self.sto[o["q"] - 1].rescan()

    def do_setqcap(self, o):
        q = self.sto[o["q"] - 1]
        v = math.inf if o["v"] == INF else o["v"]
        if self.form % 2:
            q.capacity.value = v
        else:
            q.set_capacity(v)

    def do_ienter(self, o):
        if o["p"]:
            self.items[o["i"]].enter_sorted(self.sto[o["q"] - 1], o["p"] * self.ps)
        elif self.form % 2:
            self.sto[o["q"] - 1].add_sorted(self.items[o["i"]], 0)
        else:
            self.items[o["i"]].enter(self.sto[o["q"] - 1], 0)

    def do_ileave(self, o):
        if self.form % 2:
            self.sto[o["q"] - 1].remove(self.items[o["i"]])
        else:
            self.items[o["i"]].leave(self.sto[o["q"] - 1])

    # ------------------------------------------------------------------ run
    def execute(self):
        try:
            while True:
                self.do(self.next_op())
        except Done:
            pass
        return {"g": self.G, "b": self.b0, "ev": self.ev}


def run(G, chooser, yieldless=True):
    return World(G, chooser, yieldless).execute()


def scripted(script):
    it = iter(script)
    return lambda world: next(it, None)


def together(worlds, rng):
    """executes several worlds, alternating between their main programs"""
    live = list(worlds)
    while live:
        w = rng.choice(live)
        try:
            for _ in range(rng.choice((1, 1, 2, 4))):
                w.do(w.next_op())
        except Done:
            live.remove(w)
    return [{"g": w.G, "b": w.b0, "ev": w.ev} for w in worlds]
