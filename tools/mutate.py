"""Mutation campaign on salabim.py: which small changes does the machinery not notice?
usage: mutate.py AREA [sample size] [seed]      (AREA: see FUNCS)
Prints the mutants that survive a reduced version of the checks of that area.  Not a registered check."""
import ast, concurrent.futures, os, random, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/salabim/salabim.py"
FUNCS = {
    "sched": "core:Component._push Component._remove Component._check_fail Component._reschedule Component.activate Component.hold Component.passivate Component.interrupt Component.resume Component.cancel Component.standby Component.remaining_duration Environment.step Environment.run Environment._terminate Environment.peek Environment.reset_now Component.__init__ Component.set_mode Component.interrupted_status Component.interrupt_level Component.scheduled_time Component.isclaiming Component.isbumped",
    "res": "core:Component.request Component._tryrequest Component._request Component.honor_all Component.honor_any Component._release Component.release Resource._tryrequest Resource.release Resource.set_capacity Component.requested_quantity Component.claimed_quantity Component.requested_resources Component.claimed_resources Resource.claimed_quantity Resource.available_quantity Resource.occupancy Resource._set_capacity Resource.monitor Resource.reset_monitors Component.priority",
    "state": "core:State.set State.reset State.trigger State._trywait Component.wait Component._trywait Component.wait_for State.get State.monitor State.reset_monitors Component.from_store Component.to_store Store.rescan Store._rescan_to Component.leave Component.enter_sorted Component.from_store_item Component.from_store_store Component.to_store_item Component.to_store_store Component.filter Qmember.insert_in_front_of Store.set_capacity Component.enter",
    "queue": "que:Queue.* Qmember.* Component.enter Component.enter_sorted Component.enter_at_head Component.enter_in_front_of Component.enter_behind Component.leave Component.priority Component.successor Component.predecessor Component.enter_time Component.count Component.index Component.queues",
    "mon": "mon:Monitor.* _StatusMonitor.* _CapacityMonitor.* _ModeMonitor.* _SystemMonitor.*",
    "gen": "cgen:ComponentGenerator.*",
    "env": "envd:Environment.reset_now Environment.spec_to_time Environment.spec_to_duration Environment.time_to_str Environment.duration_to_str Environment.datetime_to_t Environment.t_to_datetime Environment.timedelta_to_duration Environment.duration_to_timedelta Environment.datetime0 Environment.time_unit Environment.to_time_unit Environment.to_years Environment.to_weeks Environment.to_days Environment.to_hours Environment.to_minutes Environment.to_seconds Environment.to_milliseconds Environment.to_microseconds Environment.seconds Environment.hours Environment.days Environment.minutes Environment._now_str _set_name Environment.time_to_str_format Environment.duration_to_str_format Component.name Component.base_name Component.sequence_number Queue.name Store.name Resource.name State.name Monitor.name",
    "dist": "dist:Uniform.* IntUniform.* Triangular.* Constant.* Poisson.* Cdf.* Pdf.* CumPdf.* Pmf.* _Expression.* Map.* Bounded.* Distribution.* Exponential.* _Distribution.* Weibull.* random_seed External.* Erlang.* Normal.*",
}
FAST = {
    "core": [("core", p, 60) for p in ("order", "life", "int", "standby", "run", "plain", "res", "hon", "pre", "anon", "fail", "failstore", "failstate", "state", "store", "stat", "statres", "proc", "mix")],
    "que": [("que", "order", 150), ("que", "bulk", 150)],
    "mon": [("mon", "level", 100), ("mon", "tally", 100), ("mon", "derive", 100)],
    "cgen": [("cgen", "gen", 200)],
    "envd": [("envd", "time", 150), ("envd", "names", 150)],
    "dist": [("dist", "terms", 100), ("dist", "streams", 80)],
}
TR = {"que": "QueueTrace", "mon": "MonTrace", "cgen": "GenTrace", "envd": "EnvTrace", "dist": "DistTrace"}


def fast(area):
    sys.path.insert(0, V + "/harness")
    import lib

    class Found(BaseException):
        pass

    class Chk(lib.Check):
        def violation(self, what, data):
            print("CAUGHT", str(what)[:300])
            raise Found

    chk = Chk.__new__(Chk)
    chk.states = chk.transitions = chk.traces = 0
    chk.samples, chk.violations, chk.other, chk.extra, chk.assumptions, chk.known = [], [], [], {}, [], []
    try:
        import engine as en
        import engine_core as ec

        if area == "core":
            good = []
            for k, (_, p, n) in enumerate(FAST[area]):
                for j in range(n):
                    r = lib._guard((ec._record, (j, p, 40, j % 2 == 0, j, False, k % 2 == 0), 20))
                    if "crash" in r:
                        chk.violation(r["crash"], {})
                    r["id"] += k * 1000
                    good.append(r)
                if k % 7 == 6 or k == len(FAST[area]) - 1:
                    ec.validate(chk, "all", good, ec.ALL)
                    good = []
        else:
            for _, p, n in FAST[area]:
                en.traces(chk, area, TR[area], p, n, 40)
    except Found:
        return 1
    except Exception as e:
        print("CAUGHT?", type(e).__name__, str(e)[:200])
        return 1
    finally:
        lib.cleanup()
    print("SURVIVED")
    return 0


CMP = {ast.Lt: ["<="], ast.LtE: ["<"], ast.Gt: [">="], ast.GtE: [">"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}


def mutants(patterns):
    src = open(SRC, encoding="utf8", newline="").read()
    nl = "\r\n" if "\r\n" in src else "\n"
    tree = ast.parse(src)
    lines = src.split(nl)
    want = patterns.split()
    fs = []
    for n in tree.body:
        if isinstance(n, ast.ClassDef):
            for f in n.body:
                if isinstance(f, (ast.FunctionDef,)) and (f"{n.name}.{f.name}" in want or n.name + ".*" in want):
                    fs.append((f"{n.name}.{f.name}", f))
        elif isinstance(n, ast.FunctionDef) and n.name in want:
            fs.append((n.name, n))
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def add(name, n, new):
        out.append((name, n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new))

    for name, f in fs:
        if f.name in ("print_info", "print_statistics", "print_histogram", "print_histograms", "__repr__", "animate", "histogram_autoscale", "as_dataframe", "_print_legend", "x", "show_distribution"):
            continue
        for n in ast.walk(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                for op in CMP[type(n.ops[0])]:
                    add(name, n, f"({seg(n.left)} {op} {seg(n.comparators[0])})")
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, (ast.Constant, ast.JoinedStr)) or isinstance(n, ast.BinOp) and type(n.op) in BIN and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
                if not any(isinstance(x, ast.JoinedStr) or isinstance(x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(n)):
                    add(name, n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})")
            elif isinstance(n, ast.BoolOp):
                add(name, n, "(" + (" or " if isinstance(n.op, ast.And) else " and ").join("(" + seg(v) + ")" for v in n.values) + ")")
                if len(n.values) == 2:
                    add(name, n, f"({seg(n.values[0])})")
                    add(name, n, f"({seg(n.values[1])})")
            elif isinstance(n, ast.Constant) and type(n.value) in (int, bool) and not isinstance(getattr(n, "parent", None), ast.Subscript):
                add(name, n, repr(not n.value) if type(n.value) is bool else str(n.value + 1))
            elif isinstance(n, (ast.If, ast.While)) and not isinstance(n.test, (ast.Compare, ast.BoolOp)):
                add(name, n.test, f"(not ({seg(n.test)}))")
            elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(name, n, "pass")
            elif isinstance(n, ast.Break):
                add(name, n, "pass")
    res = []
    for name, l0, c0, l1, c1, new in out:
        b0 = len(lines[l0 - 1].encode()[:c0].decode())
        b1 = len(lines[l1 - 1].encode()[:c1].decode())
        t = lines[: l0 - 1] + [lines[l0 - 1][:b0] + new + lines[l1 - 1][b1:]] + lines[l1:]
        text = nl.join(t)
        if any(x in lines[l0 - 1] for x in ("raise ", "_trace", "print_trace", "Error(", "animat")):
            continue
        try:
            ast.parse(text)
        except SyntaxError:
            continue
        res.append((name, l0, lines[l0 - 1].strip()[:110], t[l0 - 1].strip()[:110], text))
    return res


def one(m):
    name, l, old, new, text, area = m
    w = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        os.mkdir(w + "/salabim")
        for f in os.listdir("/repo/salabim"):
            if f not in ("salabim.py", "__pycache__"):
                os.symlink(f"/repo/salabim/{f}", f"{w}/salabim/{f}")
        with open(w + "/salabim/salabim.py", "w", encoding="utf8", newline="") as f:
            f.write(text)
        try:
            o = subprocess.run(["/opt/venv/bin/python", os.path.abspath(__file__), "--fast", area], capture_output=True, text=True, timeout=400, env=dict(os.environ, VERIF_REPO=w, VERIF_NCPU="1", PYTHONHASHSEED="0"))
        except subprocess.TimeoutExpired:
            return "TIMEOUT", name, l, old, new, ""
        return ("survived" if o.returncode == 0 else "caught" if o.returncode == 1 else "?"), name, l, old, new, (o.stdout + o.stderr)[-200:]
    finally:
        shutil.rmtree(w)


if __name__ == "__main__":
    if sys.argv[1] == "--fast":
        sys.exit(fast(sys.argv[2]))
    area, pats = FUNCS[sys.argv[1]].split(":")
    ms = mutants(pats)
    k = int(sys.argv[2]) if len(sys.argv) > 2 else 100
    print(len(ms), "mutants")
    if k < len(ms):
        ms = random.Random(sys.argv[3] if len(sys.argv) > 3 else "1").sample(ms, k)
    n = {}
    with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for r in ex.map(one, [m + (area,) for m in ms]):
            n[r[0]] = n.get(r[0], 0) + 1
            if r[0] != "caught":
                print(f"{r[0]} {r[1]}:{r[2]}\n    - {r[3]}\n    + {r[4]}" + (f"\n   {r[5]}" if r[0] == "?" else ""), flush=True)
    print(n)
