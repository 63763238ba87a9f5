#!/opt/veriftools/pyvenv/bin/python
"""Write properties.jsonl and MANIFEST.json from tools/spec.py (claimed = a module pbt/props/pXX.py exists)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from spec import P
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"] is None and os.path.exists(os.path.join(V, "pbt", "props", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "./check %s" % p["id"], "thorough_cmd": "./check %s --tier thorough" % p["id"],
                       "technique": p["technique"] or "property-based testing (Hypothesis, generated cases against an independent model, shrinking)",
                       "level": "exploration", "level_note": p["level_note"]})
    else:
        na.append({"property": p["id"], "reason": p["na"] or "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks import pytracer from /repo's working tree. Known findings and repairs: known_findings.txt."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
# DESIGN.md: the two generated tables
import importlib.util, re
sys.path.insert(0, os.path.join(V, "pbt"))
d = open(os.path.join(V, "DESIGN.src.md")).read()
t = []
for p in P:
    f = os.path.join(V, "pbt", "props", p["id"].lower() + ".py")
    t.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    if p["na"] is None and os.path.exists(f):
        import importlib
        m = importlib.import_module("props." + p["id"].lower())
        t.append("Decided by: %s\n" % m.RULE)
        t.append("Checks: %s (quick case counts; thorough multiplies by 12 unless given).\n" % ", ".join("`%s` %d" % (c.name, c.quick) for c in m.CHECKS))
        t.append("Bounds and assumptions: %s\n" % ("; ".join(m.ASSUMPTIONS) or "none"))
    else:
        t.append("Not claimed: %s\n" % (p["na"] or "no check built yet"))
b = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json"))) if os.path.exists(os.path.join(V, "tools", "caught.json")) else {}
sd = os.path.join(V, "seeded")
for n in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    try:
        m = json.load(open(os.path.join(sd, n, "meta.json")))
    except OSError:
        continue
    b.append("| %s | %s | %s | %s |" % (n, m["property"], m["needs"], caught.get(n, "not run")))
open(os.path.join(V, "DESIGN.md"), "w").write(d.replace("@@TABLE@@", "\n".join(t)).replace("@@BUGS@@", "\n".join(b)))
