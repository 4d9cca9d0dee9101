"""Fills the generated parts of DESIGN.md: what each check explores, planted changes, findings (not used by any check)."""
import json, glob, os, re, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plans
V = plans.VERIF
def put(t, mark, text):
    a, b = "<!-- %s -->\n" % mark, "<!-- end %s -->" % mark
    i, j = t.index(a) + len(a), t.index(b)
    return t[:i] + text + "\n" + t[j:]
t = open(V + "/DESIGN.md").read()
o = []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l); q = plans.PLANS.get(p["id"])
    o.append("**%s %s.** %s *Technique:* %s. *Bounds:* %s.\n" % (p["id"], p["title"], q["explanation"], q.get("technique", "symbolic execution of the real code + SMT (z3), counterexamples replayed natively"), q["bounds"]) if q else "**%s** not applicable\n" % p["id"])
t = put(t, "properties", "\n".join(o))
rows = ["| id | property | caught | what it breaks: what it needs |", "|---|---|---|---|"]
for d in sorted(glob.glob(V + "/seeded/*"), key=lambda d: (len(d), d)):
    m = json.load(open(d + "/meta.json")); rows.append("| %s | %s | %s | %s: %s |" % (os.path.basename(d), m["property"], m.get("caught", "yes"), m["what_it_breaks"], m["needs"]))
t = put(t, "planted", "\n".join(rows))
t = put(t, "findings", "\n".join("* %s (%s, %s): %s" % (j["id"], j["property"], j.get("commit", j["status"]), j["what"].split(" ", 3)[-1]) for j in map(json.loads, open(V + "/known-findings.jsonl"))))
open(V + "/DESIGN.md", "w").write(t)
