import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H + "/vc", H + "/vc/units"]
sys.dont_write_bytecode = True
import registry
props = [json.loads(l)["id"] for l in open(H + "/properties.jsonl")]
NA = registry.NOT_APPLICABLE
checks = []
for p in props:
    if p in registry.QUICK:
        n = registry.NOTE.get(p, "")
        checks.append({"property": p, "quick_cmd": "python3-vt check.py %s --tier quick" % p,
                       "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
                       "technique": "contract-based deductive verification of the instantiated library code (LLVM IR regenerated from /repo on every run), "
                                    "obligations discharged by a lock-step VC generator with z3",
                       "level": "proof", "level_note": registry.level_note(p)})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks,
     "not_applicable": [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in registry.QUICK]}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
open(H + "/MANIFEST.json", "a").write("\n")
