"""rewrites the table of planted bugs at the end of DESIGN.md; results are read from the output of runseeds.py given as argument(s)"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = f"{V}/tools/seed_results.json"
res = json.load(open(f)) if os.path.exists(f) else {}
for a in sys.argv[1:]:
    for l in open(a):
        m = re.match(r"(s\d+\S*) (C\d+) (CAUGHT|MISSED)", l)
        if m:
            res[m.group(1)] = m.group(3)
json.dump(res, open(f, "w"), indent=0, sort_keys=True)
d = open(f"{V}/DESIGN.md").read().split("## Planted bugs")[0]
d += "## Planted bugs\n\nEach is run with `tools/runseeds.py` against the quick check of its property.\n\n| bug | property | what it breaks | quick check |\n|---|---|---|---|\n"
for i in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{i}/meta.json"))
    res_i = {"CAUGHT": "caught", "MISSED": "missed"}.get(res.get(i), "-")
    d += f"| {i} | {m['property']} | {m['what_it_breaks'].replace('|', '/')} | {res_i} |\n"
open(f"{V}/DESIGN.md", "w").write(d)
