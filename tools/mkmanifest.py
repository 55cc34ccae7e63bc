#!/usr/bin/env python3
import json
V = "/verif"
c = json.load(open(V + "/contracts/cones.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    s = c["properties"].get(i)
    if not s:
        na.append({"property": i, "reason": c.get("not_applicable", {}).get(i, "contracts of this half are not in place yet")})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": s.get("technique", "contract-based deductive verification of the extracted code with Verus (Z3); concrete cross-check on the real crate"),
        "level": "proof",
        "level_note": s.get("note", "") or c["note"],
        "theorems": s.get("theorems", []),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the functions are extracted from the compiler's macro-expanded source on every run. See DESIGN.md."}
for k in checks:
    if not k["theorems"]: del k["theorems"]
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
