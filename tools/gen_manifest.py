#!/usr/bin/env python3
"""writes MANIFEST.json from props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from props import PROPS
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        P = PROPS[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "technique": P.get("technique", "property-based testing: generated inputs against an independent oracle, with shrinking"),
            "level": P.get("level", "exploration"),
            "level_note": P.get("note", "Held on every generated case of the run; the generators, the oracle in harness/ and the sanitizer runtime are trusted.")})
    else: na.append({"property": i, "reason": "not claimed yet: its check is still being built"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "python3 run.py <property> --replay FILE replays one recorded case. No hooks in /repo."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(checks), "claimed", len(na), "not")
