#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section for each property (prose below, bounds from specs.py), tools/design_tail.md."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import specs
from design_text import TEXT
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
fixed = {}
for f in json.load(open(os.path.join(HERE, "known-findings.json")))["fixed"]:
    _, p, c, what = f.split(" ", 3)
    fixed.setdefault(p.split("=")[1], []).append((c, what))
out = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), "", "## The properties", ""]
for p in props:
    pid = p["id"]
    t = TEXT[pid]
    out += ["### %s. %s" % (pid, p["title"]), "", p["statement"], ""]
    if pid not in specs.PROPS:
        out += ["Not applicable: " + t["na"], ""]
        continue
    out += ["*Encoded and decided.* " + t["how"], ""]
    out += ["*Why tests cannot settle it.* " + p["why_tests_cant"][0].upper() + p["why_tests_cant"][1:] + ".", ""]
    out += ["*Bounds.*", ""]
    for r in specs.PROPS[pid]["runs"]:
        c = r.get("cfg", {})
        tags = [x for x in ("with log" if c.get("pwal") else "", "thorough tier only" if r.get("tier") == "thorough" else "") if x]
        out.append("* `%s`%s: %s" % (r.get("name", r["entry"]), " (" + ", ".join(tags) + ")" if tags else "", r["bounds"]))
    out.append("")
    if t.get("not"):
        out += ["*Outside, or judged leniently.* " + t["not"], ""]
    for a in specs.PROPS[pid].get("assumptions", []):
        out += ["*Assumption.* " + a[0].upper() + a[1:] + ".", ""]
    out += ["*Cost.* " + t["cost"], ""]
    if pid in fixed:
        out += ["*Found here and repaired in /repo.*", ""] + ["* `%s` %s" % x for x in fixed[pid]] + [""]
out += [open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip(), ""]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(out))
