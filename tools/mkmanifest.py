"""writes MANIFEST.json from properties.jsonl and the table of checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
TECH = "TLA+ specification checked by TLC; every transition of its bounded state graph replayed on the code and recorded executions validated against it by TLC"
NOTE = ("Exhaustive on the specification within the scenario and depth bounds; on the code: all of those transitions (a fixed random sample when there are more than the tier's limit) "
        "plus recorded executions of seeded random programs, in yieldless and yield mode. Trusts TLC, the driver's mapping of operations to public calls, and integer-valued times and quantities.")
notes = {}
na = []
try:
    notes = json.load(open(f"{V}/tools/notes.json"))
except FileNotFoundError:
    pass
m = {"version": 1, "setup_cmd": "bash harness/setup.sh",
     "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick", "thorough_cmd": f"./check {p['id']} thorough",
                 "technique": notes.get(p["id"], {}).get("technique", TECH), "level": "model_checking", "level_note": notes.get(p["id"], {}).get("note", NOTE)} for p in props],
     "not_applicable": na,
     "notes": "No hooks: everything is observed through salabim's public interface. See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
