#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design_head.md, the property table and the rules' own RULE texts."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V); sys.path.insert(0, V + "/tools")
from props import P, TB
from design_data import SCOPE, CATCH
head = open(V + "/tools/design_head.md").read()
o = [head, "\n## Properties\n"]
for p in sorted(P, key=lambda p: p["id"]):
    if "na" in p:
        continue
    m = importlib.import_module("rules." + p["id"].lower())
    note = p["note"][len(TB):].strip()
    o.append(f"### {p['id']} {p['title']}\n")
    o.append(f"*Statement.* {p['statement']}\n")
    o.append(f"*Rule decided.* {' '.join(m.RULE.split())}\n")
    o.append(f"*Method.* {p['technique']}. Crates analysed: {', '.join(m.PKGS)}. Anchors: " + "; ".join(f"{a}: `{b}`" for a, b in p["mech"]) + ".\n")
    o.append(f"*Why tests cannot.* {p['why']} The rule is over {p['quant']}.\n")
    s = " ".join(x for x in (note, SCOPE.get(p["id"], "")) if x)
    if s:
        o.append(f"*Not claimed.* {s}\n")
o.append("## Not applicable\n")
for p in sorted(P, key=lambda p: p["id"]):
    if "na" in p:
        o.append(f"* **{p['id']} {p['title']}**: {p['na']}")
o.append("\n## Planted bugs and what catches them\n")
o.append("| bug | property | what it breaks | caught by |\n|---|---|---|---|")
for b in sorted(os.listdir(V + "/seeded")) if os.path.isdir(V + "/seeded") else []:
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    o.append(f"| {b} | {m['property']} | {m['what_it_breaks']} | {CATCH.get(b, m['property'])} |")
o.append("\n## Findings\n\nOne line each; `fixed:` entries were repaired by the commit named, the others are reported as KNOWN-FINDING.\n")
for l in open(V + "/known-findings.txt"):
    if l.strip() and not l.startswith("#"):
        o.append("* " + l.strip())
o.append("\n" + open(V + "/tools/design_tail.md").read())
open(V + "/DESIGN.md", "w").write("\n".join(o))
