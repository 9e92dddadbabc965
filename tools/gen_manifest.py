#!/usr/bin/env python3
"""Write MANIFEST.json from sa/registry.py and the list of properties."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sa.registry import RULES, NOT_APPLICABLE  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if pid in RULES:
        r = RULES[pid]
        checks.append({
            "property": pid,
            "quick_cmd": f"python3 check.py {pid}",
            "thorough_cmd": f"python3 check.py {pid} --thorough",
            "technique": r["technique"],
            "level": "other",
            "level_note": r["note"] or ("Static: decided from the source on every run, nothing is executed. " + " ".join(r["assumptions"])),
        })
    else:
        na.append({"property": pid, "reason": NOT_APPLICABLE.get(pid, "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 -m py_compile check.py sa/*.py sa/rules/*.py", "checks": checks, "not_applicable": na,
     "notes": "All checks are static analyses of /repo's current source (own value-flow engine in sa/). No hooks in /repo."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
