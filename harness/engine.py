"""Generic engine: a specification module against a driver, in both directions.

A driver module offers  replay(G, ops, variant) -> observation  and  script(seed, profile, length) -> trace."""
import importlib
import json
import os
import random

from lib import SEED, TLCError, parallel, scratch, tlc


def _replay(item):
    drv, G, ops, exp, variant = item
    got = importlib.import_module(drv).replay(G, ops, variant)
    return {k: [v, got.get(k)] for k, v in exp.items() if got.get(k) != v}


def _record(item):
    drv, k, profile, length = item
    tr = importlib.import_module(drv).script(f"{SEED}-{profile}-{k}", profile, length)
    tr["id"] = k
    return tr


def small(d):
    """the differing part only"""
    out = {}
    for k, (e, o) in d.items():
        if isinstance(e, list) and isinstance(o, list) and len(e) == len(o):
            for i, (x, y) in enumerate(zip(e, o)):
                if x != y:
                    if isinstance(x, dict) and isinstance(y, dict):
                        out[f"{k}[{i + 1}]"] = {f: [x.get(f), y.get(f)] for f in x if x.get(f) != y.get(f)}
                    else:
                        out[f"{k}[{i + 1}]"] = [x, y]
        else:
            out[k] = [e, o]
    return out


def cover(chk, drv, mc, scenario, depth, limit=None, fields=None):
    G, trans = [], []

    def on(t):
        if t[0] == "G":
            G.append(json.loads(t[1]))
        elif t[0] == "T":
            trans.append((t[1], t[2]))
        elif t[0] == "FAIL":
            raise AssertionError(f"the specification itself violates {t[1]}: {t[2]}")

    done, _ = tlc(mc, {"SCENARIO": scenario, "DEPTH": depth, "EMIT": 1}, on=on)
    chk.states += done[1]
    chk.transitions += done[2]
    trans.sort()
    total = len(trans)
    if limit and total > limit:
        trans = random.Random(f"{SEED}-{scenario}").sample(trans, limit)
    items = [(drv, G[0], json.loads(o), json.loads(e), k) for k, (o, e) in enumerate(trans)]
    res = parallel(_replay, items)
    chk.traces += len(items)
    for it, r in zip(items, res):
        what = f"replay of a transition of {mc}/{scenario}"
        data = {"driver": drv, "G": it[1], "ops": it[2], "variant": it[4]}
        if "crash" in r and "item" in r:
            chk.violation(f"{what}: {r['crash']}", {**data, "crash": r})
        else:
            judge(chk, r, fields, what, {**data, "diff": r})
    c = chk.extra.setdefault("scenarios", {})
    c[f"{mc}/{scenario}"] = {"depth": depth, "states": done[1], "transitions": done[2], "replayed": len(items), "exhaustive": len(items) == total}
    if items:
        chk.sample({"scenario": scenario, "operations": items[len(items) // 2][2]})


def judge(chk, d, fields, what, data):
    if not d:
        return
    rel = {k: v for k, v in d.items() if fields is None or k in fields}
    if rel:
        chk.violation(f"{what}: [expected, observed]: {json.dumps(small(rel))[:500]}", data)
    else:
        chk.other.append(sorted(d))


def model(chk, mc, scenario, depth):
    bad = []
    done, _ = tlc(mc, {"SCENARIO": scenario, "DEPTH": depth, "EMIT": 0}, on=lambda t: bad.append(t))
    if bad:
        raise AssertionError(f"the specification itself violates {bad[0]}")
    chk.states += done[1]
    chk.transitions += done[2]
    chk.extra.setdefault("model_only", {})[f"{mc}/{scenario}"] = {"depth": depth, "states": done[1], "transitions": done[2]}


def traces(chk, drv, trace_spec, profile, n, length, fields=None, limit=20):
    items = [(drv, k, profile, length) for k in range(n)]
    res = parallel(_record, items, limit=limit)
    good = []
    for it, r in zip(items, res):
        if "crash" in r:
            chk.violation(f"recording {it}: {r['crash']}", {"item": it, "crash": r})
        else:
            good.append(r)
    path = os.path.join(scratch(), "traces.ndjson")
    with open(path, "w") as f:
        for r in good:
            f.write(json.dumps({k: r[k] for k in ("id", "g", "b", "ev")}) + "\n")
    fails = []
    try:
        done, _ = tlc(trace_spec, {"TRACE_FILE": path}, on=lambda t: fails.append(t))
    except TLCError as e:
        if not e.evaluation:
            raise
        chk.violation(f"traces of {profile} cannot be interpreted by the specification: {str(e)[-3000:]}", {"profile": profile})
        return
    os.remove(path)
    chk.states += done[2]
    chk.transitions += done[3]
    chk.traces += len(good)
    byid = {r["id"]: r for r in good}
    for _, tid, n, kind, what, op in fails:
        r = byid[tid]
        exp = json.loads(what)
        data = {"driver": drv, "G": r["g"], "ops": [e["o"] for e in r["ev"][:n]], "step": n}
        if kind == "property":
            chk.violation(f"trace {profile}/{tid} step {n}: property {exp} violated after {op}", data)
            continue
        obs = r["b"] if n == 0 else r["ev"][n - 1]["b"]
        d = {k: [v, obs.get(k)] for k, v in exp.items()}
        judge(chk, d, fields, f"trace {profile}/{tid} step {n} after {op}", {**data, "diff": d})
    c = chk.extra.setdefault("profiles", {})
    c[profile] = {"traces": len(good), "events": sum(len(r["ev"]) for r in good)}
    ops = c[profile].setdefault("operations", {})
    for r in good:
        for e in r["ev"]:
            ops[e["o"]["op"]] = ops.get(e["o"]["op"], 0) + 1
    if good:
        chk.sample({"profile": profile, "operations": [e["o"] for e in good[0]["ev"][:8]]})
