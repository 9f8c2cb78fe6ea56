"""Random operation scripts (state dependent), per profile."""
import random

INF = 1000000

D = (0, 0, 1, 1, 2, 3)
PR = (0, 0, 0, 0, 1, -1)
MODED = {"activate", "activateat", "hold", "holdint", "passivate", "interrupt", "resume", "cancel", "standby", "request", "wait", "fromstore", "tostore"}


def mkG(rng, prof):
    n = rng.choice(prof.get("n", (3, 4)))
    res = []
    for _ in range(rng.choice(prof.get("nres", (0,)))):
        kind = rng.choice(prof.get("rkinds", ("plain",)))
        r = {"cap": rng.choice((1, 1, 2, 2, 3)), "anon": False, "pre": False, "hof": False, "hohp": False, "init": 0}
        if "anon" in kind:
            r["anon"] = True
            r["cap"] = rng.choice((1, 2, 3, 4))
            r["init"] = rng.randint(0, r["cap"])
        if "pre" in kind:
            r["pre"] = True
        if "hof" in kind:
            r["hof"] = True
        if "hohp" in kind:
            r["hohp"] = True
        res.append(r)
    sts = [rng.choice((0, 0, 1)) for _ in range(rng.choice(prof.get("nsts", (0,))))]
    caps = (0, 0, 1) if rng.random() < 0.2 else (1, 1, 2, 3, INF)
    sto = [{"cap": rng.choice(caps)} for _ in range(rng.choice(prof.get("nsto", (0,))))]
    items = rng.choice((2, 3, 4)) if sto else 0
    skip = [rng.random() < prof.get("skip", 0) for _ in range(n)]
    G = {"n": n, "res": res, "sts": sts, "sto": sto, "items": items, "skip": skip}
    if "acc" in prof:
        G["acc"] = rng.choice(prof["acc"])
    if rng.random() < 0.25:
        G["ts"] = rng.choice((0.25, 0.5, 3))
    if rng.random() < 0.2:
        G["ps"] = rng.choice((0.25, 5))
    if res and rng.random() < 0.3:
        G["qs"] = rng.choice((0.1, 0.1, 0.5, 7))
    return G


class Gen:
    def __init__(self, rng, G, prof, length):
        self.rng = rng
        self.G = G
        self.prof = prof
        self.left = length
        self.wts = prof["w"]
        self.calm = prof.get("calm", 0.0)

    # helpers
    def comps(self, w):
        return [i for i in range(1, self.G["n"] + 1) if w.c[i] is not None]

    def who(self, w, cur, other=0.35, status=None):
        """a component to call an operation on: mostly the current one"""
        rng = self.rng
        cs = self.comps(w)
        if status:
            cs = [i for i in cs if w.c[i].status() in status]
        oth = [i for i in cs if i != cur]
        if cur != 0 and (status is None or "current" in status) and (not oth or rng.random() >= other):
            return cur
        return rng.choice(oth) if oth else None

    def __call__(self, w):
        if self.left <= 0:
            return None
        self.left -= 1
        rng = self.rng
        cur = w.idx[w.env.current_component()]
        for _ in range(60):
            fam = rng.choices(list(self.wts), weights=list(self.wts.values()))[0]
            op = getattr(self, "g_" + fam)(w, cur)
            if op is not None and cur and w.me[0] == 2 and op.get("c", 0) == cur and op["op"] not in ("release", "releaseall", "filter", "skip"):
                op = None  # in yield mode a process that is not a generator cannot give up control
            if op is not None:
                if op["op"] in MODED and rng.random() < 0.15:
                    op["md"] = rng.choice((1, 2, 3))
                return op
        if cur == 0:
            return {"op": "run", "d": 1, "t": -1, "p": INF, "u": False}
        if w.me[0] == 2:
            return {"op": "end"}
        return {"op": "hold", "c": cur, "d": 1, "p": 0, "u": False}

    def now(self, w):
        return int(w.env.now() / w.ts)

    def pu(self):
        return {"p": self.rng.choice(PR), "u": self.rng.random() < 0.25}

    # families -----------------------------------------------------------------
    def g_create(self, w, cur):
        free = [i for i in range(1, self.G["n"] + 1) if w.c[i] is None]
        if not free:
            return None
        if self.rng.random() < 0.12:
            return {"op": "createdata", "c": free[0]}
        op = {"op": "create", "c": free[0], "d": self.rng.choice((0, 0, 0, 1, 2)), **self.pu()}
        if free[0] > 1 and self.rng.random() < self.prof.get("proc", 0.15):
            self.how(w, op)
        return op

    def how(self, w, op):
        """which process method, with what argument (one that is not a generator only when there are generators as well)"""
        if self.prof.get("proc"):
            op["m"] = self.rng.choice((0, 0, 1, 1, 2))
            if op["m"] == 2 and not any(c is not None and c.status() != "data" for c in w.c[1:2]) and not getattr(w, "any", False):
                op["m"] = 1
            w.any = True
            if self.rng.random() < 0.7:
                op["a"] = self.rng.choice((1, 2, 3))

    def g_run(self, w, cur):
        if cur != 0:
            return None
        rng = self.rng
        x = rng.random()
        if x < 0.15:
            return {"op": "run", "d": -1, "t": -1, "p": INF, "u": False}
        p = INF if rng.random() < 0.7 else rng.choice(PR)
        u = rng.random() < 0.15
        if x < 0.4:
            return {"op": "run", "d": -1, "t": max(0, self.now(w) + rng.choice(D)), "p": p, "u": u}
        return {"op": "run", "d": rng.choice((0, 1, 1, 2, 3, 5)), "t": -1, "p": p, "u": u}

    def g_hold(self, w, cur):
        c = self.who(w, cur, 0.2)
        if c is None:
            return None
        return {"op": "hold", "c": c, "d": self.rng.choice(D), **self.pu()}

    def g_holdtill(self, w, cur):
        if cur == 0:
            return None
        now = self.now(w)
        return {"op": "holdtill", "c": cur, "t": max(0, now + self.rng.choice((-1, 0, 1, 2))), "cap": self.rng.random() < 0.5, **self.pu()}

    def g_holdint(self, w, cur):
        c = self.who(w, cur, 0.3)
        if c is None:
            return None
        return {"op": "holdint", "c": c, "d": self.rng.choice(D), "lv": self.rng.choice((1, 1, 2))}

    def g_passivate(self, w, cur):
        c = self.who(w, cur, 0.3)
        return c and {"op": "passivate", "c": c}

    def g_activate(self, w, cur):
        c = self.who(w, cur, 0.8)
        if c is None:
            return None
        keep = self.rng.random() < self.prof.get("keep", 0.1)
        op = {"op": "activate", "c": c, "d": self.rng.choice((0, 0, 1, 2)), "keep": keep, **self.pu()}
        if self.rng.random() < self.prof.get("proc", 0.15):
            op["proc"] = True
            self.how(w, op)
        return op

    def g_resetnow(self, w, cur):
        return {"op": "resetnow", "t": self.rng.choice((0, 0, 1, 5))}

    def g_skip(self, w, cur):
        cs = self.comps(w)
        return {"op": "skip", "c": self.rng.choice(cs), "v": self.rng.random() < 0.5} if cs else None

    def g_activateat(self, w, cur):
        c = self.who(w, cur, 0.8)
        if c is None:
            return None
        now = self.now(w)
        return {"op": "activateat", "c": c, "t": max(0, now + self.rng.choice((-1, 0, 1, 2))), **self.pu()}

    def g_interrupt(self, w, cur):
        st = ("scheduled", "interrupted") if self.rng.random() < 0.9 else None
        c = self.who(w, cur, 1, st)
        return c and {"op": "interrupt", "c": c}

    def g_resume(self, w, cur):
        st = ("interrupted",) if self.rng.random() < 0.9 else None
        c = self.who(w, cur, 1, st)
        return c and {"op": "resume", "c": c, "all": self.rng.random() < 0.3, **self.pu()}

    def g_cancel(self, w, cur):
        c = self.who(w, cur, 0.6)
        return c and {"op": "cancel", "c": c}

    def g_standby(self, w, cur):
        c = self.who(w, cur, 0.2)
        return c and {"op": "standby", "c": c}

    def g_raise(self, w, cur):
        if not cur:
            return None
        self.left = 0
        return {"op": "raise", "e": self.rng.choice(("TypeError", "KeyError", "ValueError"))}

    def g_onmain(self, w, cur):
        if not cur:
            return None
        ks = [k for k, x in enumerate((1, w.res, w.sts, w.sto, w.sto)) if x]
        return {"op": "onmain", "k": self.rng.choice(ks)}

    def g_end(self, w, cur):
        return {"op": "end"} if cur else None

    def g_remdur(self, w, cur):
        c = self.who(w, cur, 1, ("scheduled", "passive", "interrupted", "requesting", "waiting", "standby"))
        return c and {"op": "remdur", "c": c, "d": self.rng.choice(D), **self.pu()}

    def f(self):
        return self.rng.choice(self.prof.get("f", (-1, -1, -1, 0, 1, 2, 3)))

    def g_request(self, w, cur):
        rng = self.rng
        R = self.G["res"]
        if not R:
            return None
        if rng.random() < 0.02:
            c = self.who(w, cur, 0.15)
            return c and {"op": "request", "c": c, "a": [], "oneof": False, "f": self.f(), **self.pu()}
        a = []
        anonput = False
        for _ in range(rng.choice((1, 1, 1, 2, 2, 3))):
            r = rng.randint(1, len(R))
            if R[r - 1]["pre"]:
                a = [r]
                break
            a.append(r)
        if len(a) > 1:
            a = [r for r in a if not R[r - 1]["pre"]]
        if all(R[r - 1]["anon"] for r in a):
            anonput = rng.random() < 0.5
        oneof = len(set(a)) > 1 and rng.random() < 0.4
        if oneof or anonput:
            a = list(dict.fromkeys(a))
        args = [{"r": r, "q": (-1 if anonput else 1) * rng.choice((1, 1, 1, 2, 2, 3)), "p": rng.choice((0, 0, 1, 1, 2, -1))} for r in a]
        if rng.random() < 0.5:
            for x in args:
                x["p"] = args[0]["p"]
        c = self.who(w, cur, 0.15)
        if c is None:
            return None
        if R[a[0] - 1]["pre"]:
            c = cur
            if not c or w.c[c].claimed_quantity(w.res[a[0] - 1]):
                return None
        return {"op": "request", "c": c, "a": args, "oneof": oneof, "f": self.f(), **self.pu()}

    def g_release(self, w, cur):
        rng = self.rng
        R = self.G["res"]
        hold = [(i, r) for i in self.comps(w) for r in range(1, len(R) + 1) if not R[r - 1]["anon"] and w.c[i].claimed_quantity(w.res[r - 1])]
        mine = [x for x in hold if x[0] == cur]
        if mine and rng.random() < 0.7:
            hold = mine
        if not hold:
            if rng.random() < 0.05 and cur and R and not R[0]["anon"]:
                return {"op": "release", "c": cur, "r": 1, "q": 0}
            return None
        c, r = rng.choice(hold)
        if rng.random() < 0.2:
            return {"op": "releaseall", "c": c}
        rs = [x for i, x in hold if i == c]
        if len(rs) > 1 and rng.random() < 0.4:
            rng.shuffle(rs)
            return {"op": "releases", "c": c, "a": [{"r": x, "q": rng.choice((0, 0, 1, 2))} for x in rs]}
        return {"op": "release", "c": c, "r": r, "q": rng.choice((0, 0, 1, 2))}

    def g_rrelease(self, w, cur):
        if not self.G["res"]:
            return None
        r = self.rng.randint(1, len(self.G["res"]))
        return {"op": "rrelease", "r": r, "q": self.rng.choice((0, 1, 1, 2)) if self.G["res"][r - 1]["anon"] else 0}

    def g_setcap(self, w, cur):
        if not self.G["res"]:
            return None
        return {"op": "setcap", "r": self.rng.randint(1, len(self.G["res"])), "v": self.rng.choice((0, 1, 2, 2, 3, 4))}

    def g_set(self, w, cur):
        if not self.G["sts"]:
            return None
        return {"op": "set", "s": self.rng.randint(1, len(self.G["sts"])), "v": self.rng.choice((0, 1, 1, 2))}

    def g_trigger(self, w, cur):
        if not self.G["sts"]:
            return None
        rng = self.rng
        return {"op": "trigger", "s": rng.randint(1, len(self.G["sts"])), "v": rng.choice((1, 1, 2, 0)), "v2": rng.choice((-1, -1, 0, 2)), "m": rng.choice((-1, -1, 0, 1, 1, 2))}

    def g_wait(self, w, cur):
        if not self.G["sts"]:
            return None
        rng = self.rng
        ws = []
        for _ in range(rng.choice((1, 1, 2, 2, 3))):
            k = rng.choice(("eq", "eq", "gt", "ne"))
            ws.append({"s": rng.randint(1, len(self.G["sts"])), "k": k, "v": rng.choice((0, 1, 1, 2)), "p": rng.choice((0, 0, 1, -1))})
        c = self.who(w, cur, 0.15)
        if c and rng.random() < 0.2:
            for x in ws:
                x["p"] = ws[0]["p"]
            return {"op": "wait", "c": c, "w": ws, "all": rng.random() < 0.5, "f": self.f(), "wf": True, **self.pu()}
        return c and {"op": "wait", "c": c, "w": ws, "all": rng.random() < 0.5, "f": self.f(), **self.pu()}

    def qs(self):
        m = list(range(1, len(self.G["sto"]) + 1))
        self.rng.shuffle(m)
        return m[: self.rng.choice((1, 1, 2, 3))]

    def fl(self):
        rng = self.rng
        if rng.random() < 0.35:
            return []
        its = list(range(1, self.G["items"] + 1))
        return sorted(rng.sample(its, rng.choice((1, 1, 2))))

    def g_fromstore(self, w, cur):
        if not self.G["sto"]:
            return None
        rng = self.rng
        c = self.who(w, cur, 0.1)
        key = []
        if rng.random() < 0.3:
            key = [rng.choice((0, 1, 2, -1)) for _ in range(self.G["items"])]
        u = rng.random() < 0.7
        return c and {"op": "fromstore", "c": c, "qs": self.qs(), "fl": self.fl(), "key": key, "rp": rng.choice((0, 0, 1, -1)), "f": self.f(), "p": rng.choice(PR), "u": u}

    def freeitem(self, w, allowin=0.1):
        """items that are in no store, and not on their way to one"""
        used = set()
        for q in w.sto:
            used.update(w.iidx[i] for i in q)
        for i in range(1, self.G["n"] + 1):
            if w.pend.get(i) and w.c[i] is not None and any(w.c[i] in q.to_store_requesters() for q in w.sto):
                used.add(w.pend[i])
        return [i for i in range(1, self.G["items"] + 1) if i not in used]

    def g_tostore(self, w, cur):
        if not self.G["sto"]:
            return None
        if not hasattr(w, "pend"):
            w.pend = {}
        rng = self.rng
        its = self.freeitem(w)
        c = self.who(w, cur, 0.1)
        if not its or c is None or w.c[c].status() == "data":
            return None
        i = rng.choice(its)
        w.pend[c] = i
        u = rng.random() < 0.7
        return {"op": "tostore", "c": c, "qs": self.qs(), "i": i, "rp": rng.choice((0, 0, 1, -1)), "ip": rng.choice((0, 0, 1, -1)), "f": self.f(), "p": rng.choice(PR), "u": u}

    def g_filter(self, w, cur):
        if not self.G["sto"]:
            return None
        cs = [i for i in self.comps(w) if any(w.c[i] in q.from_store_requesters() for q in w.sto)]
        return {"op": "filter", "c": self.rng.choice(cs), "fl": self.fl()} if cs else None

    def g_rescan(self, w, cur):
        return {"op": "rescan", "q": self.rng.randint(1, len(self.G["sto"]))} if self.G["sto"] else None

    def g_setqcap(self, w, cur):
        if not self.G["sto"]:
            return None
        return {"op": "setqcap", "q": self.rng.randint(1, len(self.G["sto"])), "v": self.rng.choice((0, 1, 2, 3, INF))}

    def g_ienter(self, w, cur):
        if not self.G["sto"]:
            return None
        if not hasattr(w, "pend"):
            w.pend = {}
        its = self.freeitem(w)
        if not its:
            return None
        return {"op": "ienter", "q": self.rng.randint(1, len(self.G["sto"])), "i": self.rng.choice(its), "p": self.rng.choice((0, 0, 1, -1))}

    def g_mon(self, w, cur):
        rng = self.rng
        ks = [k for k, x in (("r", w.res), ("s", w.sts), ("q", w.sto), ("c", self.comps(w))) if x]
        if not ks:
            return None
        k = rng.choice(ks)
        i = rng.choice(self.comps(w)) if k == "c" else rng.randint(1, len({"r": w.res, "s": w.sts, "q": w.sto}[k]))
        if rng.random() < 0.65:
            return {"op": "mon", "k": k, "i": i, "b": rng.random() < 0.6}
        return {"op": "monreset", "k": k, "i": i, "b": rng.choice((-1, -1, 0, 1))}

    def g_ileave(self, w, cur):
        qs = [k for k, q in enumerate(w.sto) if len(q)]
        if not qs:
            return None
        k = self.rng.choice(qs)
        return {"op": "ileave", "q": k + 1, "i": w.iidx[self.rng.choice(list(w.sto[k]))]}


LIFE = {"create": 10, "resetnow": 0.5, "onmain": 0.7, "run": 20, "hold": 14, "end": 3, "activate": 6, "passivate": 4}

PROFILES = {
    "order": {"n": (4, 6, 8, 10, 12), "w": {**LIFE, "create": 12, "hold": 25, "holdtill": 4, "activateat": 5, "activate": 10, "remdur": 4, "cancel": 2, "interrupt": 2, "resume": 4}},
    "life": {"n": (3, 4), "w": {**LIFE, "holdint": 3, "interrupt": 5, "resume": 6, "cancel": 3, "standby": 4, "remdur": 4, "activateat": 3, "holdtill": 3, "request": 4, "release": 3, "wait": 4, "set": 3}, "nres": (0, 1), "nsts": (0, 1), "keep": 0.2},
    "standby": {"n": (3, 4, 5, 6), "skip": 0.35, "w": {**LIFE, "skip": 1, "standby": 20, "cancel": 3, "hold": 12, "activate": 5, "interrupt": 1, "resume": 2}},
    "res": {"n": (3, 4, 5), "nres": (1, 2, 2, 3), "rkinds": ("plain", "plain", "plain", "hof", "hohp", "anon"), "w": {**LIFE, "hold": 6, "request": 25, "release": 16, "rrelease": 2, "setcap": 3, "cancel": 2, "interrupt": 2, "resume": 3}},
    "plain": {"n": (3, 4, 5), "nres": (1, 2, 2), "rkinds": ("plain",), "w": {**LIFE, "hold": 6, "request": 25, "release": 16, "rrelease": 2, "setcap": 3, "cancel": 2}},
    "hon": {"n": (4, 5), "nres": (1, 2, 2), "rkinds": ("hof", "hohp", "plain"), "w": {**LIFE, "hold": 6, "request": 30, "release": 16, "setcap": 2, "cancel": 2}},
    "pre": {"n": (4, 5), "nres": (1, 1, 2), "rkinds": ("pre", "pre", "pre", "plain"), "w": {**LIFE, "hold": 8, "request": 30, "release": 10, "setcap": 2, "cancel": 1, "interrupt": 2, "resume": 2, "wait": 2, "set": 1, "standby": 1}, "nsts": (0, 1)},
    "anon": {"n": (3, 4, 5), "nres": (1, 2), "rkinds": ("anon", "anon", "anon", "plain", "anon_hof"), "w": {**LIFE, "hold": 6, "request": 30, "release": 4, "rrelease": 6, "setcap": 3, "cancel": 2}},
    "state": {"n": (3, 4, 5), "nsts": (1, 2, 2, 3), "w": {**LIFE, "hold": 6, "wait": 28, "set": 16, "trigger": 10, "cancel": 2, "interrupt": 1, "resume": 2}},
    "store": {"n": (3, 4, 5), "nsto": (1, 2, 2, 3), "w": {**LIFE, "hold": 6, "fromstore": 22, "tostore": 22, "filter": 4, "rescan": 1, "setqcap": 4, "ienter": 4, "ileave": 4, "cancel": 2}},
    "mix": {
        "n": (4, 5), "nres": (1, 2), "nsts": (1,), "nsto": (1,), "skip": 0.1, "rkinds": ("plain", "hof", "anon", "pre"), "keep": 0.2,
        "w": {**LIFE, "request": 12, "release": 8, "rrelease": 1, "setcap": 1, "wait": 8, "set": 6, "trigger": 3, "fromstore": 6, "tostore": 6, "filter": 1, "setqcap": 1, "standby": 3, "interrupt": 3, "resume": 4, "cancel": 3, "remdur": 2, "holdint": 1},
    },
}
PROFILES["int"] = {"n": (2, 3, 4), "w": {**LIFE, "hold": 14, "holdint": 5, "interrupt": 14, "resume": 14, "remdur": 6, "cancel": 1, "activate": 4}}
PROFILES["run"] = {"n": (2, 3, 4), "w": {**LIFE, "run": 60, "hold": 16, "end": 5, "activate": 8, "standby": 2, "activateat": 3}}
PROFILES["fail"] = {**PROFILES["mix"], "f": (0, 1, 1, 2, 3), "n": (3, 4), "nsto": (1, 2, 2), "nsts": (1, 2), "nres": (1, 2, 2)}
PROFILES["stat"] = {**PROFILES["mix"], "acc": (0, 1, 3, 7), "nsts": (1, 2), "w": {**PROFILES["mix"]["w"], "mon": 9}}
PROFILES["statres"] = {**PROFILES["res"], "acc": (0, 1, 3, 7), "w": {**PROFILES["res"]["w"], "mon": 6, "setcap": 6}, "rkinds": ("plain", "plain", "anon", "pre")}
PROFILES["proc"] = {
    **PROFILES["mix"], "n": (2, 3, 4, 5), "nres": (0, 1), "nsts": (0, 1), "nsto": (0, 1), "proc": 0.6, "skip": 0.2,
    "w": {**PROFILES["mix"]["w"], "activate": 20, "end": 6, "cancel": 5, "standby": 7, "raise": 0.4},
}
PROFILES["failres"] = {**PROFILES["res"], "f": (0, 1, 1, 2, 3), "w": {**PROFILES["res"]["w"], "activate": 10}, "keep": 0.2, "rkinds": ("plain", "plain", "hof", "hohp", "anon", "pre")}
PROFILES["failstate"] = {**PROFILES["state"], "f": (0, 1, 1, 2, 3), "keep": 0.2}
PROFILES["failstore"] = {**PROFILES["store"], "f": (0, 1, 1, 2, 3), "nsto": (1, 2, 2, 3), "keep": 0.2}


def script(seed, profile, length):
    rng = random.Random(seed)
    prof = PROFILES[profile]
    G = mkG(rng, prof)
    return G, Gen(rng, G, prof, length)
