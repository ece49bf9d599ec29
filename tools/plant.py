#!/usr/bin/env python3
"""Author planted bugs: plant.py FILE.py [id ...]
FILE.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], demo, needs, breaks)].
For each: patch a scratch copy of /repo, run demo on both, the stable tests, and the property's check;
write seeded/<id>/."""
import sys, os, subprocess, json, shutil, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
SH = """#!/bin/bash
cd "${REPO_DIR:-$PWD}"
export PYTHONPATH="$PWD" TF_USE_LEGACY_KERAS=1 TF_CPP_MIN_LOG_LEVEL=3 CUDA_VISIBLE_DEVICES= PYTHONDONTWRITEBYTECODE=1
H="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
exec /opt/venv/bin/python "$H/demo.py"
"""
def sh(cmd, **kw):
  return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)

def record(i, prop, by):
  p = os.path.join(V, "tools/bugs/caught.json")
  d = json.load(open(p)) if os.path.exists(p) else {}
  d[i] = {"property": prop, "caught_by": by}
  json.dump(d, open(p, "w"), indent=1, sort_keys=True)

def main():
  spec = importlib.util.spec_from_file_location("bugs", sys.argv[1])
  m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
  want = set(a for a in sys.argv[2:] if not a.startswith("--"))
  notest = "--notest" in sys.argv
  shutil.rmtree(WT, ignore_errors=True)
  sh("cp -a /repo %s" % WT)
  for b in m.BUGS:
    if want and b["id"] not in want:
      continue
    sh("git checkout -q -- . ", cwd=WT)
    ok = True
    for f, old, new in b["edits"]:
      p = os.path.join(WT, f)
      s = open(p).read()
      if s.count(old) != 1:
        print(b["id"], "EDIT NOT UNIQUE/FOUND", f, s.count(old)); ok = False; break
      open(p, "w").write(s.replace(old, new))
    if not ok:
      continue
    d = os.path.join(V, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    diff = sh("git diff", cwd=WT).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH); os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(b["demo"].lstrip())
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    e = dict(os.environ); e.pop("PYTHONPATH", None)
    r0 = sh("bash %s/demo.sh" % d, cwd="/repo", env=e)
    r1 = sh("bash %s/demo.sh" % d, cwd=WT, env=e)
    res = "demo %d/%d" % (r0.returncode, r1.returncode)
    if r0.returncode != 0: res += " BAD-CLEAN " + r0.stderr[-300:]
    if r1.returncode == 0: res += " BAD-PATCHED"
    c = sh("VERIF_REPO=%s VERIF_SEED=1 %s/bin/check %s" % (WT, V, b["prop"]))
    vio = [l for l in c.stdout.splitlines() if "clause" in l][:2]
    res += " check rc=%d %s" % (c.returncode, vio[0][:160] if vio else c.stdout[-300:])
    if not notest:
      t = sh("bash %s/tools/stable.sh %s" % (V, WT))
      res += " tests: " + t.stdout.strip().replace("\n", " ")[-200:]
    if "BAD-" in res or "BROKEN" in res:
      shutil.rmtree(d)
      res += " (dropped)"
    else:
      record(b["id"], b["prop"], "%s (%s)" % (b["prop"], vio[0].split()[1]) if c.returncode == 1 and vio else "-")
    print(b["id"], b["prop"], res, flush=True)
  shutil.rmtree(WT, ignore_errors=True)
main()
