#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import config
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    if i in config.PROPS:
        c = config.PROPS[i]
        checks.append({"property": i, "quick_cmd": "python3 lib/driver.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 lib/driver.py %s" % i,
                       "technique": c.get("technique", "contract-based deductive verification (Verus) of the extracted functions; bounded stand-in on the real code"),
                       "level": c["level"], "level_note": c["note"] or "see DESIGN.md"})
na = [{"property": p["id"], "reason": config.NOT_APPLICABLE.get(p["id"], "no check built yet")} for p in props if p["id"] not in config.PROPS]
m = {"version": 1, "setup_cmd": "bash lib/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "Every check extracts the functions under contract from /repo/src, verifies them with Verus, and runs its bounded stand-ins on the real code."}
hooks = getattr(config, "HOOKS", None)
if hooks:
    m["hooks"] = hooks
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
