#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
T = {}
exec(open(os.path.join(root, "tools", "claims.py")).read(), T)
claims, na = T["claims"], T["not_applicable"]
checks = []
for p in props:
    c = claims.get(p["id"])
    if not c:
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"bash run.sh {p['id']}",
        "thorough_cmd": f"bash run.sh {p['id']}",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": c[0],
        "level": c[1],
        "level_note": c[2],
    })
doc = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "checks": checks,
    "not_applicable": [{"property": p["id"], "reason": na.get(p["id"], "check not built yet")}
                       for p in props if p["id"] not in claims],
    "notes": "No hooks are needed in /repo: everything is reached through the crates' public API and the at-asm command. "
             "VERIF_TIER selects the tier, VERIF_SEED every random choice. See DESIGN.md.",
}
json.dump(doc, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(doc["not_applicable"]), "not applicable")
