#!/usr/bin/env python3
"""Fill the generated lists of DESIGN.md (defects repaired, planted bugs)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
fx = [l for l in open(os.path.join(V, "known_findings.jsonl")) if "fixed: property=" in l]
rows = []
for l in fx:
  m = re.search(r"fixed: property=(\S+) (\S+) (.*)", l)
  rows.append((m.group(1), m.group(2)[:8], m.group(3).strip().rstrip('"}').strip()))
rows.sort(key=lambda r: r[0])
t = "\n".join("* %s `%s`: %s" % r for r in rows)
s = re.sub(r"<!-- fixes -->.*?(?=\n## |\Z)", lambda m: "<!-- fixes -->\n" + t + "\n", s, flags=re.S)
c = json.load(open(os.path.join(V, "tools/bugs/caught.json")))
out = ["| bug | needs | caught by |", "|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
  m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
  out.append("| %s | %s | %s |" % (i, m["needs"].replace("|", "/"), c.get(i, {}).get("caught_by", "?")))
s = re.sub(r"<!-- bugs -->.*?(?=\n## |\Z)", lambda m: "<!-- bugs -->\n" + "\n".join(out) + "\n", s, flags=re.S)
open(p, "w").write(s)
