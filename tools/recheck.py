#!/usr/bin/env python3
"""recheck.py [id ...]: run the quick check of its property against every planted bug (in a scratch copy) and
record the outcome in tools/bugs/caught.json."""
import sys, os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt-recheck"
def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)
want = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
p = os.path.join(V, "tools/bugs/caught.json")
shutil.rmtree(WT, ignore_errors=True)
sh("cp -a /repo %s" % WT)
for i in want:
  sh("git checkout -q -- .", cwd=WT)
  m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
  if sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=WT).returncode:
    print(i, "DOES NOT APPLY"); continue
  c = sh("VERIF_REPO=%s VERIF_SEED=1 %s/bin/check %s" % (WT, V, m["property"]))
  vio = [l for l in c.stdout.splitlines() if "clause" in l]
  d = json.load(open(p)) if os.path.exists(p) else {}
  d[i] = {"property": m["property"], "caught_by": "%s (%s)" % (m["property"], vio[0].split()[1]) if c.returncode == 1 and vio else "-"}
  json.dump(d, open(p, "w"), indent=1, sort_keys=True)
  print(i, c.returncode, d[i]["caught_by"], flush=True)
shutil.rmtree(WT, ignore_errors=True)
