#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""
import json, os, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
sys.dont_write_bytecode = True
import runner, plans

def main():
    a = sys.argv[1:]; prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    t0 = time.time(); budget = float(os.environ.get("VF_BUDGET", "420" if tier == "quick" else "840"))
    s = runner.Scratch(prop); res = runner.Result()
    try:
        plan = plans.PLANS[prop]
        if replay: return plans.replay(prop, json.load(open(replay)), s)
        try: plan["run"](prop, tier, s, res, t0 + budget)
        except runner.BuildError as ex:
            print("cannot build: %s" % ex)
            if ex.kind == "repo": return 2
            print("INCONCLUSIVE property=%s: the harness does not fit these sources, nothing was decided" % prop)
            res.incon.append({"task": "build", "name": "harness", "why": str(ex)[:1500]})
        meta = {"explanation": plan["explanation"], "bounds": plan["bounds"], "level": plan["level"], "assumptions": plan["assumptions"]}
        return runner.finish(prop, tier, res, meta, time.time() - t0)
    finally: s.close()
sys.exit(main())
