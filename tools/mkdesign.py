#!/usr/bin/env python3
"""Assemble DESIGN.md: tools/design_head.md + one section per property + tools/design_tail.md."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "vendor"), "/repo/src"]
from harness import core
out = [open(os.path.join(V, "tools", "design_head.md")).read()]
man = {c["property"]: c for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]}
for ln in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(ln)
    subs = core.load(p["id"])
    out.append(f"### {p['id']} {p['title']}\n\n{p['statement']}\n")
    out.append(f"Generated: {p['quantifier']['text']}.  Oracle: {man[p['id']]['technique'].split(': ', 1)[1]}.  "
               f"Why tests cannot settle it: {p['why_tests_cant']}.\n")
    out.append("| sub | cases (quick) | precision | what is generated, oracle, non-trivial rule |\n|---|---|---|---|")
    for s in subs:
        out.append(f"| {s.name} | {s.n} | {'float64' if s.x64 else 'float32'} | {s.rule.replace('|', '/')} |")
    out.append("")
out.append(open(os.path.join(V, "tools", "design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
