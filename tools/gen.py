#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EB = "causalnex/ebaybbn/bbn.py"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note, state=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "state": state or [], "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "observe_at": observe, "hook_needed": None}, technique=technique, note=note, na=na))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")

checks = [{
    "property": p["id"],
    "quick_cmd": "./check %s --tier quick" % p["id"],
    "thorough_cmd": "./check %s --tier thorough" % p["id"],
    "evidence_file": "evidence/%s.json" % p["id"],
    "technique": p["technique"],
    "level": "model_checking",
    "level_note": p["note"],
} for p in P if not p["na"]]
man = {"version": 1, "setup_cmd": "true", "checks": checks,
       "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
       "notes": "No hooks in /repo are needed. See DESIGN.md; known_findings.json lists recorded and repaired defects."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
