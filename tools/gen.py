#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (development aid)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NA
built = {f[:-3].upper() for f in os.listdir(V + "/lib/rules") if f.endswith(".py")}
with open(V + "/properties.jsonl", "w") as f:
    for p in PROPS + [n for n in NA if "title" in n]:
        d = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in PROPS:
    if p["id"] in built:
        checks.append({"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']}", "thorough_cmd": f"python3 bin/check.py {p['id']} --thorough",
                       "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p.get("level", "other"), "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "the static rules for this property are not built yet"})
na += [{"property": n["id"], "reason": n["reason"]} for n in NA]
json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Every check re-extracts facts (resolved MIR, types, impls) from /repo's working tree through a rustc_private driver; nothing of pywr is run."},
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
