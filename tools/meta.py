#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py (one place, so that they stay in step)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []
for p in P:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"].split(), "text": p["quant"]},
                  "why_tests_cant": p["why"],
                  "anchors": {"files": sorted({m[1].split(":")[0].split(" ")[0] for m in p["mech"]}),
                              "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        assert os.path.exists(f"{V}/rules/{p['id'].lower()}.py"), p["id"]
        checks.append({"property": p["id"], "quick_cmd": f"python3 check.py {p['id']}",
                       "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
                       "technique": p["technique"], "level": "other", "level_note": p["note"]})
assert len({p["id"] for p in props}) == len(props)
for p in props:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, p["id"]
open(f"{V}/properties.jsonl", "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in props))
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis over the compiler's MIR of /repo's current sources; see DESIGN.md. No hooks in /repo."},
          open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
print(len(props), "properties,", len(checks), "checks,", len(na), "not applicable")
