#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(here, "tools"))
import props
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        q = {k: v for k, v in p.items() if k not in ("check", "na")}
        f.write(json.dumps(q) + "\n")
checks, na = [], []
for p in props.PROPS:
    if "check" in p:
        c = p["check"]
        checks.append(dict(property=p["id"], quick_cmd=f"./run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id']}",
                           technique=c["technique"], level=c.get("level", "proof"), level_note=c["note"]))
    else:
        na.append(dict(property=p["id"], reason=p["na"]))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         hooks=dict(guard="none", enable="no hooks: the checks read /repo's sources as they are", source_commits=[]),
         notes="See DESIGN.md. Every check re-reads /repo's working tree on each run.")
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not claimed")
