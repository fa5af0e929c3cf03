#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py; a property is claimed when contracts/<id>.py exists"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from tools.props import PROPS, NOT_APPLICABLE
PY = "/opt/venv/bin/python"
lines, checks, na = [], [], []
for p in PROPS:
    q = {"id": p["id"], "title": p["title"], "statement": p["statement"],
         "quantifier": {"over": p["over"], "text": p["all"]}, "why_tests_cant": p["why"],
         "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}}
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps(q))
    if os.path.exists(os.path.join(HERE, "contracts", p["id"] + ".py")):
        c = "%s /verif/check.py %s --tier %%s" % (PY, p["id"])
        checks.append({"property": p["id"], "quick_cmd": c % "quick", "thorough_cmd": c % "thorough",
                       "technique": "contract-based deductive verification: contracts executed over symbolic inputs on the real, mechanically instrumented source; every postcondition, invariant and frame condition discharged by normal form + z3/cvc5",
                       "level": "proof", "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na") or "contracts for this property are not built yet"})
for i, r in NOT_APPLICABLE:
    na.append({"property": i, "reason": r})
open(os.path.join(HERE, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({"version": 1, "setup_cmd": "%s /verif/selftest.py" % PY, "checks": checks, "not_applicable": na,
           "notes": "One runner (check.py) per property; see DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(lines), "properties,", len(checks), "claimed")
