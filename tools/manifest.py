#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, sys
from pathlib import Path
V = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(V))
from checks import CHECKS
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines() if l.strip()]
NA = json.loads((V / "tools" / "not_applicable.json").read_text()) if (V / "tools" / "not_applicable.json").exists() else {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            evidence_file=f"evidence/{i}.json",
            technique=c.get("technique", "symbolic execution of the compiled LLVM IR of the real headers, assertions decided by Z3 on every path within bounds"),
            level=c.get("level", "model_checking"),
            level_note=(c.get("note", "") + " Bounds (quick): " + str(c.get("bounds", {}).get("quick", "see DESIGN.md")) + " Outside: " + str(c.get("outside", "larger sizes")))[:1800].strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no solver-based check has been built for it yet")))
m = dict(version=1, setup_cmd="make -C engine && python3 check.py --warm", checks=checks, not_applicable=na,
    notes="All checks share one engine (engine/): a symbolic executor for LLVM 18 bitcode over Z3. No hooks are needed in /repo. DESIGN.md lists bounds, stubs, assumptions and which planted bugs each check catches.")
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", [x["property"] for x in na])
