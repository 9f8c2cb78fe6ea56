"""runs the check of each planted bug's property against a scratch copy of the code with the bug applied
usage: runseeds.py [-j N] [ids...]"""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time
V = __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))
args = sys.argv[1:]
jobs = 1
if args[:1] == ["-j"]:
    jobs = int(args[1])
    args = args[2:]


def one(i):
    d = f"{V}/seeded/{i}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="rs_", dir="/tmp")
    try:
        shutil.copytree("/repo/salabim", f"{w}/salabim", ignore=shutil.ignore_patterns("__pycache__"))
        subprocess.check_call(["git", "apply", "--unsafe-paths", f"--directory={w}", f"{d}/patch.diff"], cwd="/")
        t = time.time()
        o = subprocess.run([f"{V}/check", prop, "quick"], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=w))
        caught = o.returncode == 1 and f"VIOLATION property={prop}" in o.stdout
        first = next((x for x in o.stdout.splitlines() if x.startswith("    ")), "")
        return i, prop, "CAUGHT" if caught else f"MISSED rc={o.returncode}", round(time.time() - t), "s", first.strip()[:260] if caught else (o.stdout + o.stderr)[-300:]
    finally:
        shutil.rmtree(w)


with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
    for r in ex.map(one, args or sorted(os.listdir(f"{V}/seeded"))):
        print(*r, flush=True)
