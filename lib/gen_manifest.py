#!/usr/bin/env python3
"""writes MANIFEST.json from the list of built checks (run by hand; the output is committed)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
exec(open(V + "/lib/claims.py").read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="VERIF_TIER=quick bin/check " + i, thorough_cmd="VERIF_TIER=thorough bin/check " + i,
                           technique=tech, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason=NA[i]))
m = dict(version=1, setup_cmd="python3 lib/setup.py", checks=checks, not_applicable=na)
if HOOKS: m["hooks"] = HOOKS
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(checks), "claimed", len(na), "not")
except ImportError: print("not validated")
