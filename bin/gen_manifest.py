#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from bin/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/bin")
from registry import CHECKS, NOT_APPLICABLE, HOOK_COMMITS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks = []
for p in props:
    c = CHECKS.get(p["id"])
    if not c: continue
    checks.append(dict(property=p["id"], quick_cmd="python3 bin/check.py %s --tier quick" % p["id"], thorough_cmd="python3 bin/check.py %s --tier thorough" % p["id"],
        technique=c["technique"], level="model_checking", level_note=c["note"]))
na = [dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "no check built yet")) for p in props if p["id"] not in CHECKS]
m = dict(version=1, setup_cmd="python3 bin/setup.py",
    hooks=dict(guard="GAPP_VERIF_RNG", enable="the checks compile /repo/src with -DGAPP_VERIF_RNG and define gapp_verif_next_random(), which then supplies every raw random number", source_commits=HOOK_COMMITS),
    checks=checks, not_applicable=na)
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
