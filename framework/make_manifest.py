"""Writes MANIFEST.json from registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/framework")
from registry import PROPERTIES
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl") if l.strip()]
NA = json.load(open(V + "/framework/not_applicable.json")) if os.path.exists(V + "/framework/not_applicable.json") else {}
checks = []
for p in ids:
    if p not in PROPERTIES: continue
    s = PROPERTIES[p]
    b = s["bounds"]
    shim = any(h for h in s["harness"] if h in ()) 
    note = "Every execution of the bounded space is run on the real code and compared with a reference model; nothing is sampled. Quick bounds: %s. Trusts: %s." % (
        b["quick"] if isinstance(b, dict) else b, "; ".join(s.get("assumptions", ["the compiler"])))
    checks.append({"property": p, "quick_cmd": "python3 framework/check.py %s --tier quick" % p,
                   "thorough_cmd": "python3 framework/check.py %s --tier thorough" % p,
                   "technique": s["technique"], "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 -B -c \"import sys; sys.path.insert(0,'framework'); import registry\" && g++ --version > /dev/null",
     "checks": checks, "not_applicable": [{"property": p, "reason": NA[p]} for p in ids if p not in PROPERTIES],
     "notes": "No hooks in /repo. See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
