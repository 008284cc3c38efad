#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_*.md, the property table, the bounds in the check modules and the planted bugs."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, "tools")


def literals(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("MEANING", "BOUNDS", "ASSUMPTIONS"):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


def decided():
    """tools/design_how.md: one '## CNN' paragraph group per property."""
    res, cur = {}, None
    for line in open(os.path.join(T, "design_how.md")):
        if line.startswith("## "):
            cur = line[3:].strip()
            res[cur] = ""
        elif cur:
            res[cur] += line
    return {k: v.strip() for k, v in res.items()}


props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"))]
how = decided()
seeds = {}
for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
    seeds.setdefault(m["property"], []).append((d, m))

with open(os.path.join(HERE, "DESIGN.md"), "w") as fh:
    fh.write(open(os.path.join(T, "design_head.md")).read().rstrip() + "\n\n## The properties, one by one\n\n")
    fh.write("The statements are in `properties.jsonl`; `state`, `transition` and `trace` are what the evidence files count.\n")
    for p in props:
        i = p["id"]
        lit = literals(os.path.join(HERE, "mc", "checks", i.lower() + ".py"))
        fh.write("\n### %s %s\n\n%s\n\n" % (i, p["title"], how[i]))
        fh.write("* *Explored*: %s.\n" % lit["MEANING"])
        fh.write("* *Bounds, quick*: %s.\n* *Bounds, thorough*: %s.\n" % (lit["BOUNDS"]["quick"], lit["BOUNDS"]["thorough"]))
        if lit.get("ASSUMPTIONS"):
            fh.write("* *Assumed*: %s.\n" % "; ".join(lit["ASSUMPTIONS"]))
        fh.write("* *Out of reach of tests*: %s\n" % p["why_tests_cant"])
        for d, m in seeds.get(i, []):
            fh.write("* *Planted bug* `%s`: needs %s; %s.\n" % (d, m["needs"], m["what_it_breaks"]))
    fh.write("\n" + open(os.path.join(T, "design_tail.md")).read())
