"""Common machinery of the checks: running TLC, running the real code in parallel, evidence, verdicts."""
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1"))
NCPU = int(os.environ.get("VERIF_NCPU", 0)) or min(8, os.cpu_count() or 1)

_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="salabim_verif_")
    return _scratch


def cleanup():
    if _scratch:
        shutil.rmtree(_scratch, ignore_errors=True)


class TLCError(Exception):
    @property
    def evaluation(self):
        """the specification could not interpret what was recorded (e.g. a string where a number is expected)"""
        return any(x in str(self) for x in ("Attempted to", "was evaluating", "The error occurred when TLC was evaluating"))


def tlc(module, env=None, cfg=None, workers=NCPU, extra=(), timeout=800, on=None):
    """run TLC on spec/<module>.tla; tuples printed by PrintT are passed to on(tuple) (or collected).

    TLC 1.8.0 has a race between its workers and the writer of its state queue that (rarely) ends a run with a
    NullPointerException: such a run is thrown away as a whole and repeated, the last time with one worker."""
    t_end = time.time() + timeout
    for attempt in range(3):
        try:
            done, out = _tlc(module, env, cfg, workers if attempt < 2 else 1, extra, t_end - time.time())
            break
        except TLCError as e:
            if attempt == 2 or time.time() > t_end or not any(x in str(e) for x in ("StatePoolWriter", "StatePoolReader", "NullPointerException", "is null")):
                raise
    if on:
        for t in out:
            on(t)
        out = []
    return done, out


def _tlc(module, env, cfg, workers, extra, timeout):
    meta = tempfile.mkdtemp(dir=scratch())
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    e["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.DiskStateQueue.BufSize=1000000"
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg", *extra, module + ".tla"]
    p = subprocess.Popen(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    out = []
    tail = []
    killer = threading.Timer(timeout, p.kill)
    killer.start()
    done = None
    try:
        for line in p.stdout:
            if line.startswith("<<"):
                try:
                    t = json.loads("[" + line.rstrip()[2:-2].replace("TRUE", "true").replace("FALSE", "false") + "]") if "<<" not in line[2:] else None
                except ValueError:
                    t = None
                if t:
                    if t[0] == "DONE":
                        done = t
                    else:
                        out.append(t)
                    continue
            if line.startswith(("Parsing file", "Semantic processing", "Linting", "Progress(")):
                continue
            tail.append(line)
            if len(tail) > 60:
                tail.pop(0)
        rc = p.wait()
    finally:
        killer.cancel()
        if p.poll() is None:
            p.kill()
        shutil.rmtree(meta, ignore_errors=True)
    if rc != 0 or done is None:
        raise TLCError(f"TLC on {module} ended with {rc}\n" + "".join(tail))
    return done, out


# ---------------------------------------------------------------------------- parallel execution of the real code
class Timeout(BaseException):
    pass


def _alarm(sig, frame):
    raise Timeout()


def _guard(args):
    fn, item, limit = args
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return fn(item)
    except Timeout:
        return {"crash": "timeout", "item": item}
    except Exception as e:  # an error in the code under test that the driver did not expect
        import traceback

        return {"crash": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-1500:], "item": item}
    except RecursionError as e:
        return {"crash": f"RecursionError: {e}", "item": item}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _chunk(args):
    fn, items, limit = args
    out = []
    timeouts = 0
    for it in items:
        r = _guard((fn, it, limit))
        out.append(r)
        if isinstance(r, dict) and r.get("crash") == "timeout":
            timeouts += 1
            if timeouts == 3:  # enough: the result is then shorter
                break
    return out


def _limits():
    import resource

    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def parallel(fn, items, limit=10.0, chunk=None, max_crashes=12):
    """fn applied to all items by worker processes; an item that crashes or does not end yields {"crash": ...}.
    After max_crashes crashes the remaining items are not tried (the result is then shorter)."""
    items = list(items)
    if not items:
        return []
    ctx = mp.get_context("fork")
    chunk = chunk or max(1, min(50, len(items) // (NCPU * 4) or 1))
    out = []
    crashes = 0
    chunks = [items[k : k + chunk] for k in range(0, len(items), chunk)]
    with ctx.Pool(NCPU, initializer=_limits) as pool:
        it = pool.imap(_chunk, [(fn, c, limit) for c in chunks])
        for c in chunks:
            try:
                rs = it.next(timeout=120 + limit * 4)
            except mp.TimeoutError:  # a worker was killed or hangs beyond the reach of its alarm
                out.append({"crash": "no answer (worker killed or hanging)", "item": c[0]})
                break
            out.extend(rs)
            crashes += sum(1 for r in rs if isinstance(r, dict) and "crash" in r)
            if len(rs) < len(c) or crashes >= max_crashes:
                break
        pool.terminate()
    return out


# ---------------------------------------------------------------------------- verdicts and evidence
class Check:
    def __init__(self, prop, tier, level="model_checking"):
        self.prop = prop
        self.tier = tier
        self.level = level
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.violations = []
        self.other = []
        self.extra = {}
        self.assumptions = []
        self.known = []
        os.makedirs(EVID, exist_ok=True)
        for f in os.listdir(EVID):
            if f.startswith(f"replay_{prop}_"):
                os.remove(os.path.join(EVID, f))

    def violation(self, what, data):
        n = len(self.violations)
        path = os.path.join(EVID, f"replay_{self.prop}_{n}.json")
        self.violations.append(what)
        if n < 20:
            with open(path, "w") as f:
                json.dump({"property": self.prop, "what": what, **data}, f, indent=1, default=str)
        if n < 5:
            print(f"VIOLATION property={self.prop} replay={path}")
            print("   ", str(what)[:600])
            sys.stdout.flush()

    def sample(self, x):
        if len(self.samples) < 3:
            self.samples.append(x)

    def note(self, **kw):
        self.extra.update(kw)

    def finish(self):
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": SEED,
            "level": self.level,
            "coverage": {
                "states": self.states,
                "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "samples": self.samples,
                **self.extra,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        with open(os.path.join(EVID, f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        cleanup()
        if self.violations:
            print(f"{self.prop}: {len(self.violations)} violation(s)")
            return 1
        print(f"{self.prop}: held; {self.states} states, {self.transitions} transitions, {self.traces} traces, {ev['wall_s']} s")
        return 0
