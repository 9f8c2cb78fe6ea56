"""seed(id, property, edits, demo, needs, breaks): make and confirm a planted bug in a scratch copy"""
import json, os, shutil, subprocess, sys, tempfile, pathlib
V = __import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))

def run(cmd, cwd, timeout=300):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONUTF8="1")
    try:
        return subprocess.run(cmd, cwd=cwd, env=e, timeout=timeout, capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess(cmd, 99, "", "timeout")

def seed(id, prop, edits, demo, needs, breaks, check=True):
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    try:
        r = f"{w}/repo"
        os.mkdir(r)
        subprocess.check_call("cp -a salabim tests *.toml " + r, shell=True, cwd="/repo")
        subprocess.check_call("git init -q . && git config core.autocrlf false && git add salabim/*.py && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=r)
        f = pathlib.Path(r, "salabim/salabim.py")
        s = f.read_bytes().decode()
        nl = "\r\n" if "\r\n" in s else "\n"
        for a, b in edits:
            a, b = a.replace("\n", nl), b.replace("\n", nl)
            assert s.count(a) == 1, (id, s.count(a), a)
            s = s.replace(a, b)
        d = f"{V}/seeded/{id}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nimport salabim as sim\n" + demo)
        open(f"{d}/demo.sh", "w").write('#!/bin/bash\n# cwd: the repository\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
        o = run(["bash", f"{d}/demo.sh"], r)
        assert o.returncode == 0, (id, "demo fails on clean tree", o.stdout[-600:], o.stderr[-1500:])
        f.write_bytes(s.encode())
        p = subprocess.run(["git", "diff"], cwd=r, capture_output=True).stdout
        open(f"{d}/patch.diff", "wb").write(p)
        o = run(["bash", f"{d}/demo.sh"], r)
        assert o.returncode != 0, (id, "demo passes with the patch", o.stdout[-600:])
        fail = (o.stdout + o.stderr).strip().splitlines()[-1:]
        o = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], r)
        stable = o.returncode == 0
        print(id, prop, "tests", "ok" if stable else "FAIL " + "|".join([l for l in o.stdout.splitlines() if "FAILED" in l or "Error" in l][:4]), "demo:", fail)
        if not stable:
            shutil.rmtree(d)
        return stable
    finally:
        shutil.rmtree(w)
