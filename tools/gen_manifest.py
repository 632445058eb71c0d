#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the registry in checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import PROPS, NOTES, NA
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPS:
        spec = sorted(set(t["module"] for t in PROPS[i]["traces"]) | set(m["module"] for m in PROPS[i].get("models", [])))
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification checked with TLC; traces of the real code validated against it (%s)" % ", ".join(spec),
                           level="model_checking", level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "not built yet")))
json.dump(dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
