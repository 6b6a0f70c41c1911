"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, LEVELS
from na import NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the real (source-transformed) Rust code with z3 deciding branches and assertions; counterexamples replayed natively"
lines, checks = [], []
for k in sorted(PROPS):
    p = PROPS[k]
    lines.append({"id": k, "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                  "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                                                          "hook_needed": None}})
    checks.append({"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough",
                   "technique": p["technique"] or TECH, "level": LEVELS[k], "level_note": p["note"] or p["bounds"]})
for l in NOT_APPLICABLE:
    lines.append(l["line"])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(l) + "\n" for l in lines))
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks,
     "not_applicable": [{"property": l["line"]["id"], "reason": l["reason"]} for l in NOT_APPLICABLE]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
