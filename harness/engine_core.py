"""Checks on the simulation core: SalabimCore.tla against the real code, in both directions."""
import json
import os
import random

import core
import gen
from lib import SEED, TLCError, Check, parallel, scratch, tlc

ALL = None


# ---------------------------------------------------------------- spec -> code: every transition of the bounded state graph
def _replay(item):
    G, ops, exp, modes, k, variant, tell = item
    bad = []
    for yl in modes:
        w = core.World(G, core.scripted(ops), yl, quiet=True, trace=k % 25 == 0, variant=variant, tell=tell)
        w.execute()
        got = {**w.last, **w.acc}
        d = {k: [v, got.get(k)] for k, v in exp.items() if got.get(k) != v and (k != "tr" or k in got)}
        if d:
            bad.append({"yieldless": yl, "diff": d})
    return bad


def cover(chk, scenario, depth, fields, modes=(True, False), alternate=True, limit=None, dated=False, tell=False):
    """TLC enumerates the transitions of a scenario up to depth; each is replayed on the real code"""
    G = []
    trans = []

    def on(t):
        if t[0] == "G":
            G.append(json.loads(t[1]))
        elif t[0] == "T":
            trans.append((t[1], t[2]))
        elif t[0] == "FAIL":
            raise AssertionError(f"the specification itself violates {t[1]}: {t[2]}")

    done, _ = tlc("MCCore", {"SCENARIO": scenario, "DEPTH": depth, "EMIT": 1}, on=on)
    chk.states += done[1]
    chk.transitions += done[2]
    trans.sort()
    total = len(trans)
    if limit and total > limit:
        trans = random.Random(f"{SEED}-{scenario}").sample(trans, limit)
    items = []
    for k, (o, e) in enumerate(trans):
        m = (modes[k % len(modes)],) if alternate else tuple(modes)
        items.append((G[0], json.loads(o), json.loads(e), m, k, 0 if "ts" in G[0] else k * 4 + 3 if dated else k // 2, tell))
    res = parallel(_replay, items)
    chk.traces += len(items)
    for it, r in zip(items, res):
        report(chk, fields, it[0], it[1], r, f"replay of a transition of scenario {scenario}")
    c = chk.extra.setdefault("scenarios", {})
    c[scenario] = {"depth": depth, "states": done[1], "transitions": done[2], "replayed": len(items), "exhaustive": len(items) == total}
    if items:
        chk.sample({"scenario": scenario, "operations": items[len(items) // 2][1]})


def report(chk, fields, G, ops, r, what):
    if isinstance(r, dict) and "crash" in r:
        chk.violation(f"{what}: {r['crash']}", {"G": G, "ops": ops, "crash": r})
        return
    for b in r:
        d = b["diff"]
        rel = {k: v for k, v in d.items() if fields is ALL or k in fields}
        if rel:
            chk.violation(f"{what}: yieldless={b['yieldless']} [expected, observed]: {json.dumps(rel)[:400]}", {"G": G, "ops": ops, **b})
        else:
            chk.other.append(sorted(d))


def model(chk, scenario, depth):
    """model checking only (deeper than what is replayed)"""
    bad = []
    done, _ = tlc("MCCore", {"SCENARIO": scenario, "DEPTH": depth, "EMIT": 0}, on=lambda t: bad.append(t))
    if bad:
        raise AssertionError(f"the specification itself violates {bad[0]}")
    chk.states += done[1]
    chk.transitions += done[2]
    chk.extra.setdefault("model_only", {})[scenario] = {"depth": depth, "states": done[1], "transitions": done[2]}


# ---------------------------------------------------------------- code -> spec: recorded traces are validated by TLC
def _record(item):
    k, profile, length, yl, seed, dated, tell = item
    G, ch = gen.script(f"{SEED}-{profile}-{seed}", profile, length)
    if dated:
        G.pop("ts", None)
    variant = 0 if "ts" in G else k * 4 + 3 if dated else k // 2
    w = core.World(G, ch, yl, trace=k % 13 == 3, variant=variant, tell=tell)
    tr = w.execute()
    tr["id"] = k
    tr["yieldless"] = yl
    tr["variant"] = variant
    return tr


def _record_several(item):
    k, profiles, length = item
    rng = random.Random(f"{SEED}-several-{k}")
    worlds = []
    for j in range(rng.choice((2, 2, 3))):
        profile = rng.choice(profiles)
        G, ch = gen.script(f"{SEED}-several-{profile}-{k}-{j}", profile, length)
        default = rng.random() < 0.5
        w = core.World(G, ch, rng.random() < 0.5, trace=rng.random() < 0.1, variant=0 if "ts" in G else rng.randint(0, 40), default=default)
        worlds.append(w)
    trs = core.together(worlds, rng)
    for j, tr in enumerate(trs):
        tr["id"] = k * 10 + j
        tr["yieldless"] = worlds[j].yieldless
    return trs


def several(chk, profiles, n, length, fields):
    """several environments in one process, alternating: each has to behave as if it were alone"""
    items = [(k, profiles, length) for k in range(n)]
    res = parallel(_record_several, items, limit=30)
    good = []
    for it, r in zip(items, res):
        if isinstance(r, dict):
            chk.violation(f"recording {it}: {r['crash']}", {"item": it, "crash": r})
        else:
            good += r
    validate(chk, "several environments", good, fields)


def traces(chk, profile, n, length, fields, both=False, dated=False, tell=False):
    """both: each program is executed in yieldless and in yield mode"""
    items = [(k, profile, length, k % 2 == 0, k // 2 if both else k, dated, tell) for k in range(n)]
    res = parallel(_record, items, limit=20)
    good = []
    for it, r in zip(items, res):
        if "crash" in r:
            chk.violation(f"recording {it}: {r['crash']}", {"item": it, "crash": r})
        else:
            good.append(r)
    validate(chk, profile, good, fields)


def validate(chk, profile, good, fields):
    path = os.path.join(scratch(), "traces.ndjson")
    with open(path, "w") as f:
        for r in good:
            f.write(json.dumps({k: r[k] for k in ("id", "g", "b", "ev")}) + "\n")
    fails = []
    try:
        done, _ = tlc("CoreTrace", {"TRACE_FILE": path}, on=lambda t: fails.append(t))
    except TLCError as e:
        if not e.evaluation:
            raise
        chk.violation(f"traces of {profile} cannot be interpreted by the specification: {str(e)[-500:]}", {"profile": profile})
        return
    os.remove(path)
    chk.states += done[2]
    chk.transitions += done[3]
    chk.traces += len(good)
    byid = {r["id"]: r for r in good}
    for t in fails:
        _, tid, n, kind, what, op = t
        r = byid[tid]
        exp = json.loads(what)
        ops = [e["o"] for e in r["ev"][:n]]
        obs = dict(r["b"])
        for e in r["ev"][:n]:
            obs.update(e["b"])
        data = {"G": r["g"], "ops": ops, "yieldless": r["yieldless"], "step": n}
        if kind == "property":
            chk.violation(f"trace {profile}/{tid} step {n}: property {exp} violated after {op}", data)
            continue
        d = {k: [v, obs.get(k)] for k, v in exp.items()}
        rel = {k: v for k, v in d.items() if fields is ALL or k in fields}
        if rel:
            chk.violation(f"trace {profile}/{tid} step {n} after {op}: [expected, observed]: {json.dumps(rel)[:400]}", {**data, "diff": d})
        else:
            chk.other.append(sorted(d))
    c = chk.extra.setdefault("profiles", {})
    c[profile] = {"traces": len(good), "events": sum(len(r["ev"]) for r in good)}
    ops = c[profile].setdefault("operations", {})
    for r in good:
        for e in r["ev"]:
            ops[e["o"]["op"]] = ops.get(e["o"]["op"], 0) + 1
    if good:
        chk.sample({"profile": profile, "operations": [e["o"] for e in good[0]["ev"][:8]]})
