#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and lib/plan.py."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "lib"))
from plan import PLAN
NA = {}
checks, na = [], []
for l in open(os.path.join(R, "properties.jsonl")):
    p = json.loads(l)
    i = p["id"]
    if i in PLAN:
        pl = PLAN[i]
        mods = ", ".join(m["module"] for m in pl.get("mc", []))
        checks.append({
            "property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
            "technique": "TLA+ specification checked with TLC (%s), bound by trace validation (%s) of recorded executions of the real code" % (mods or "trace specification only", pl["tv"]),
            "level": "model_checking",
            "level_note": pl.get("note", "Exact-arithmetic specification explored exhaustively within its bounds by TLC; every event recorded from the real code on specification behaviours and seeded programs must be a step of the specification. Bounded model, sampled programs; trusts TLC, the projection in drivers/, and that floats within 1e-9 of an exact value are that value."),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "not claimed yet: its check is under construction")})
json.dump({"version": 1, "setup_cmd": "sh -c 'command -v tlc && test -x /opt/venv-pypy/bin/python'",
           "checks": checks, "not_applicable": na,
           "notes": "One TLA+ specification family under spec/; see DESIGN.md."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
