import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from plan import PLAN
NOTE = ("TLC explores the TLA+ specification of this part of the parser within the bounds of tools/plan.py; every behaviour is replayed in the real "
        "parser and the outcomes are compared. The bounds are finite: what lies beyond them is argued by the structure of the specification, not proved.")
m = {"version": 1, "setup_cmd": "cd harness && cargo build --offline --quiet", "checks": [], "not_applicable": []}
for pid in sorted(PLAN):
    m["checks"].append({"property": pid, "quick_cmd": f"python3 tools/check.py {pid} quick", "thorough_cmd": f"python3 tools/check.py {pid} thorough",
                        "evidence_file": f"evidence/{pid}.json", "technique": PLAN[pid].get("technique", "TLA+ specification explored by TLC, behaviours replayed in the real parser"),
                        "level": PLAN[pid]["level"], "level_note": PLAN[pid].get("note", NOTE)})
json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1)
