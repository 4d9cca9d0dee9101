"""writes MANIFEST.json from the plans"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
props = [json.loads(l) for l in open(plans.VERIF + "/properties.jsonl")]
NA = getattr(plans, "NOT_APPLICABLE", {})
checks = []; na = []
for p in props:
    i = p["id"]
    if i in plans.PLANS:
        q = plans.PLANS[i]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": q.get("technique", "symbolic execution of the real code + SMT (z3), counterexamples replayed natively"), "level": q["level"],
                       "level_note": "Bounded, solver-decided. Bounds: " + q["bounds"] + ". Assumes: " + "; ".join(q["assumptions"]) + "."})
    else: na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: private members and parts of the program are reached by the harness build (see DESIGN.md). fix: commits in /repo are listed in known-findings.jsonl."}
json.dump(m, open(plans.VERIF + "/MANIFEST.json", "w"), indent=1)
