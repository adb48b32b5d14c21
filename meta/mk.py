#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, "sim")]
from properties import PROPERTIES, NOT_APPLICABLE
from props import PROPS
import jsonschema

with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    schema = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPERTIES:
        for x in p["anchors"]["files"]:
            if not os.path.exists("/repo/" + x):
                print("no such file:", p["id"], x)
        jsonschema.validate(p, schema)
        assert p["statement"].count(". ") < 3, p["id"]
        f.write(json.dumps(p) + "\n")
checks, na = [], []
for p in PROPERTIES:
    i = p["id"]
    if i in PROPS:
        checks.append({
            "property": i, "quick_cmd": "python3 run_check.py " + i, "thorough_cmd": "python3 run_check.py %s --thorough" % i,
            "technique": "deterministic simulation with fault injection: seeded search over " + PROPS[i].get("search", "histories and faults"),
            "level": "exploration",
            "level_note": PROPS[i].get("note", PROPS[i]["rule"]),
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE.get(i, "Planned; its simulation is not built yet.")})
m = {"version": 1, "setup_cmd": "python3 run_check.py --selftest",
     "hooks": {"guard": "none", "enable": "No hooks: every seam is below the code (libc calls interposed at link time), the serial-port interface the code already depends on, or a clock reading.", "source_commits": []},
     "checks": checks, "not_applicable": na}
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(m, open(os.path.join(VERIF, "MANIFEST.json"), "w"), indent=1)
print(len(PROPERTIES), "properties", len(checks), "claimed", [x["property"] for x in na])
