#!/usr/bin/env python3
"""Write MANIFEST.json from lib/checks.py, properties.jsonl and tools/not_applicable.json."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
out = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": [], "not_applicable": []}
for p in props:
  i = p["id"]
  if i in checks.CHECKS:
    c = checks.CHECKS[i]
    out["checks"].append({
        "property": i, "quick_cmd": "bin/check %s --quick" % i, "thorough_cmd": "bin/check %s --thorough" % i,
        "technique": c.get("technique", "TLA+ specification; TLC validates recorded executions of the real code against it (trace validation)"),
        "level": c.get("level", "model_checking"),
        "level_note": c.get("note", checks.DEFAULT_NOTE)})
  else:
    out["not_applicable"].append({"property": i, "reason": na.get(i, "machinery for this property is not built yet")})
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not applicable")
