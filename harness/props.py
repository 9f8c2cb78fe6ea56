"""What each property's check explores."""
import engine_core as ec

SCHED = {"now", "mn", "cur", "err", "st", "sch", "pri", "rem", "lev", "fail", "ct", "md", "mt", "peek", "pr"}
RES = {"req", "cla", "rq", "cq", "cl", "cap", "av"}
STATE = {"sv", "wq"}
STORE = {"qi", "fq", "tq", "qav", "fi", "fst", "tst"}
ACC = {"ra", "rlos", "sa", "qa", "sd"}


def core(fields, cover=(), profiles=(), model=(), both=False, dated=False, tell=False):
    """cover: (scenario, quick depth, thorough depth); profiles: (profile, weight); model: (scenario, depth) thorough only"""

    def run(chk, tier):
        thorough = tier == "thorough"
        for scn, dq, dt in cover:
            ec.cover(chk, scn, dt if thorough else dq, fields, limit=120000 if thorough else 9000, alternate=not both, dated=dated, tell=tell)
        for scn, d in model:
            if thorough:
                ec.model(chk, scn, d)
        for prof, w in profiles:
            n = w * (12 if thorough else 2)
            ec.traces(chk, prof, n, 60 if thorough else 40, fields, both, dated, tell)
        chk.note(divergences_outside_this_property=len(chk.other))
        chk.assumptions += [
            "times, priorities and quantities are integers in the specification; the code's float arithmetic on them is exact",
            "observations are made through the public interface whenever user code is about to act",
        ]

    return run


PROPS = {
    "C01": core(SCHED, [("order", 4, 5), ("run", 4, 5)], [("order", 700), ("mix", 150)], [("order", 6)]),
    "C02": core(SCHED, [("life", 4, 5)], [("life", 600), ("mix", 300)], [("life", 6)]),
    "C03": core(SCHED, [("interrupt", 4, 6)], [("int", 700)], [("interrupt", 7)]),
    "C04": core(SCHED, [("standby", 5, 6)], [("standby", 700)], [("standby", 7)]),
    "C05": core(SCHED, [("run", 4, 5)], [("run", 700)], [("run", 6)]),
    "C06": core(SCHED | RES, [("plain", 3, 4), ("multi", 3, 4)], [("plain", 300), ("res", 250), ("mix", 100)], [("plain", 5)]),
    "C07": core(SCHED | RES, [("multi", 3, 4), ("hof", 3, 4), ("hohp", 3, 4)], [("hon", 400), ("res", 300)], [("multi", 5), ("hof", 5)]),
    "C08": core(SCHED | RES, [("pre", 4, 5)], [("pre", 600)], [("pre", 6)]),
    "C09": core(SCHED | RES, [("anon", 4, 4)], [("anon", 600)], [("anon", 5)]),
    "C10": core(SCHED | RES | STATE | STORE, [("fail", 4, 4)], [("fail", 300), ("failres", 150), ("failstate", 150), ("failstore", 200)], [("fail", 5)]),
    "C11": core(SCHED | STATE, [("state", 3, 4), ("state2", 3, 4)], [("state", 600)], [("state", 5), ("state2", 5)]),
    "C12": core(SCHED | STORE, [("store", 4, 4), ("store2", 3, 4)], [("store", 600)], [("store", 5)]),
}


STAT = SCHED | RES | STATE | STORE | ACC
PROPS["C14"] = core(STAT, [("monr", 4, 5), ("monq", 4, 5)], [("stat", 500), ("statres", 350)])

PROPS["C13"] = core(STAT, [("proc", 4, 4), ("mix", 3, 4)], [("proc", 500), ("mix", 200), ("store", 100), ("standby", 150)], [], both=True)



def independent(chk, tier):
    module("envd", "MCEnv", "EnvTrace", [("two", 3, 4)], [("time", 300), ("names", 300)], [], length=(30, 50))(chk, tier)
    ec.several(chk, ["mix", "proc", "order", "store", "standby"], 6000 if tier == "thorough" else 700, 30, STAT)
    chk.assumptions.append("the environments alternate at the level of their main programs (no run inside a process of another environment)")


PROPS["C23"] = independent

import engine as en  # noqa: E402


def module(drv, mc, tr, cover=(), profiles=(), model=(), assumptions=(), fields=None, length=(40, 60), factor=10):
    def run(chk, tier):
        thorough = tier == "thorough"
        for scn, dq, dt in cover:
            en.cover(chk, drv, mc, scn, dt if thorough else dq, limit=120000 if thorough else 9000, fields=fields)
        for scn, d in model:
            if thorough:
                en.model(chk, mc, scn, d)
        for prof, w in profiles:
            en.traces(chk, drv, tr, prof, w * (factor if thorough else 1), length[1] if thorough else length[0], fields=fields)
        chk.assumptions += list(assumptions)

    return run


MON_ASSUME = ["values, weights and times are integers in the specification, scaled by exactly representable factors in the code"]
PROPS["C17"] = module("mon", "MCMon", "MonTrace", [("level", 4, 5), ("levelso", 4, 5)], [("level", 1200)], [("level", 6)], MON_ASSUME)
PROPS["C18"] = module("mon", "MCMon", "MonTrace", [("tally", 4, 5), ("tallyso", 3, 4)], [("tally", 1200)], [], MON_ASSUME)
PROPS["C19"] = module("mon", "MCMon", "MonTrace", [("slice", 3, 4), ("nslice", 3, 4), ("merge", 4, 5), ("nmerge", 4, 4)], [("derive", 1200)], [], MON_ASSUME)
Q_ASSUME = ["priorities and times are integers in the specification, scaled by exactly representable factors in the code"]
PROPS["C15"] = module("que", "MCQueue", "QueueTrace", [("order", 3, 4), ("iter", 4, 5)], [("order", 1200)], [], Q_ASSUME)
PROPS["C16"] = module("que", "MCQueue", "QueueTrace", [("stats", 4, 5), ("cap", 3, 4), ("sets", 3, 4)], [("bulk", 1200)], [], Q_ASSUME)
GEN_ASSUME = ["times are integers in the specification, scaled by exactly representable factors in the code; the random stream delivers multiples of 1/8"]
PROPS["C20"] = module("cgen", "MCGen", "GenTrace", [("iat", 4, 5), ("spread", 4, 5)], [("gen", 1500)], [], GEN_ASSUME, length=(25, 40))

ENV_ASSUME = ["moments and durations are whole seconds, in all time units; conversions are compared to nine digits"]
PROPS["C22"] = module("envd", "MCEnv", "EnvTrace", [("names", 3, 3)], [("names", 1500)], [], ENV_ASSUME, length=(25, 40))


def times(chk, tier):
    module("envd", "MCEnv", "EnvTrace", [("clock", 3, 4), ("units", 3, 4)], [("time", 1500)], [("clock", 5)], ENV_ASSUME, length=(30, 50))(chk, tier)
    core(SCHED | RES | STATE | STORE, [("fail", 2, 3)], [("order", 200), ("fail", 150), ("run", 150)], dated=True)(chk, tier)


PROPS["C21"] = times

DIST_ASSUME = ["the random stream delivers each of N evenly spread numbers with equal probability at each call (all behaviours enumerated); quantiles of Triangular, Exponential and Weibull are compared to hundredths"]
PROPS["C24"] = module("dist", "MCDist", "DistTrace", [("leaf", 1, 1), ("expr", 1, 1), ("bound", 1, 1)], [("terms", 1200)], [], DIST_ASSUME, length=(25, 40), factor=4)
PROPS["C25"] = module("dist", "MCDist", "DistTrace", [("streams", 4, 5)], [("streams", 500)], [], ["samples of different draws are assumed to differ in the first six digits"], length=(30, 45))

# what the trace tells
PROPS["C26"] = core({"tr"}, [("order", 3, 4), ("multi", 3, 3), ("interrupt", 3, 5), ("pre", 3, 4), ("fail", 3, 4), ("standby", 3, 5)], [("mix", 250), ("res", 100), ("fail", 100), ("pre", 80), ("run", 40), ("standby", 80)], tell=True)
