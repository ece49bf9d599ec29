"""Check runner: for one property, run the TLC models, record traces of the real
code with the drivers, let TLC judge every trace against the specification."""
import concurrent.futures as cf
import fnmatch, glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = ":".join(sorted(glob.glob("/opt/veriftools/tla/*.jar")))
PY = "/opt/venv/bin/python"
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Infra(Exception):
  pass


def env(extra=None):
  e = dict(os.environ)
  e.update(PYTHONPATH=REPO, TF_USE_LEGACY_KERAS="1", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           VERIF_REPO=REPO)
  e.update(extra or {})
  return e


def run(cmd, timeout, **kw):
  p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                       start_new_session=True, **kw)
  try:
    out, err = p.communicate(timeout=timeout)
    return p.returncode, out, err, False
  except subprocess.TimeoutExpired:
    try:
      os.killpg(p.pid, signal.SIGKILL)
    except OSError:
      pass
    out, err = p.communicate()
    return -9, out, err, True


def tlc(module, tmp, cfg=None, trace=None, args=(), timeout=800, mem="3g", extra=None, workers=1):
  d = tempfile.mkdtemp(dir=tmp)
  spec = os.path.join(VERIF, "spec")
  cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m",
         "-XX:TieredStopAtLevel=4", "-cp", JARS, "-DTLA-Library=" + spec, "tlc2.TLC",
         "-workers", str(workers), "-noTE", "-metadir", os.path.join(d, "m"),
         "-config", os.path.join(spec, (cfg or module) + ".cfg")] + list(args) + [os.path.join(spec, module + ".tla")]
  x = {}
  if trace:
    x["TRACE"] = trace
  x.update(extra or {})
  rc, out, err, to = run(cmd, timeout, env=env(x), cwd=d)
  shutil.rmtree(d, ignore_errors=True)
  return rc, out, err, to


def unq(line):
  return json.loads(json.loads(line)[5:])


def parse_tlc(out):
  fails, done, extra = [], [], []
  for line in out.splitlines():
    if line.startswith('"FAIL '):
      fails.append(unq(line))
    elif line.startswith('"DONE '):
      done.append(unq(line))
    elif line.startswith('"'):
      extra.append(line)
  m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
  st = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
  return fails, done, extra, st


def load_known(prop):
  out = []
  if os.path.exists(KNOWN):
    for line in open(KNOWN):
      line = line.strip()
      if line and not line.startswith("#"):
        k = json.loads(line)
        if k.get("property") == prop and k.get("status") == "known":
          out.append(k)
  return out


def lookup(step, path):
  cur = step
  for p in path.split("."):
    if isinstance(cur, list) and p.lstrip("-").isdigit() and -len(cur) <= int(p) < len(cur):
      cur = cur[int(p)]
    elif isinstance(cur, dict) and p in cur:
      cur = cur[p]
    else:
      return None
  return cur


def match_known(k, step, clause):
  """A known finding names op, clause and the specific argument values that fail."""
  if k["clause"] != clause or k["op"] != step.get("op"):
    return False
  for path, want in k.get("match", {}).items():
    got = lookup(step, path)
    if isinstance(want, dict) and "in" in want:
      if got not in want["in"]:
        return False
    elif isinstance(want, dict) and "like" in want:
      if not isinstance(got, str) or not fnmatch.fnmatch(got, want["like"]):
        return False
    elif got != want:
      return False
  return True


class Result:
  def __init__(self):
    self.fails = []      # dict(prop clause, trace, step...)
    self.states = 0
    self.transitions = 0
    self.traces = 0
    self.steps = 0
    self.ops = {}
    self.distinct = set()
    self.samples = []
    self.models = []
    self.notes = []


def shape_key(step):
  """Structure of a step without tensor data: what makes two steps the same case."""
  def strip(x):
    if isinstance(x, dict):
      if "d" in x and "s" in x and "c" in x:
        return ["T", x["s"], x["c"]]
      return {k: strip(v) for k, v in x.items()}
    if isinstance(x, list):
      return [strip(v) for v in x]
    return x
  return hashlib.md5(json.dumps([step.get("op"), strip(step.get("a")), step.get("ok")], sort_keys=True).encode()).hexdigest()


def shard(job, tmp, seed, prop, deadline):
  """One driver run plus its TLC validation."""
  r = Result()
  tag = "%s-%s-%s" % (job["driver"].replace(".py", ""), job.get("backend", "numpy"), job["shard"])
  path = os.path.join(tmp, tag + "-%d.ndjson" % seed)
  cmd = [job.get("py", PY), os.path.join(VERIF, "drivers", job["driver"]), "--out", path, "--seed", str(seed),
         "--n", str(job["n"]), "--shard", str(job["shard"]), "--profile", job.get("profile", ""),
         "--backend", job.get("backend", "numpy"), "--secs", str(job.get("secs", 120))]
  if job.get("script"):
    cmd += ["--script", job["script"]]
  tmo = max(60, min(500, deadline - time.time()))
  rc, out, err, to = run(cmd, tmo, env=env(job.get("env")), cwd=tmp)
  if to:
    r.fails.append(dict(clause=prop + ":no_answer", op="driver", id=tag, step=0,
                        detail="the program under test did not finish within %d s" % tmo, job=job, seed=seed))
    return r
  if rc != 0 or not os.path.exists(path):
    tb = err[-3000:]
    frames = re.findall(r'File "([^"]+)", line (\d+)', tb)
    if frames and any(f.startswith(REPO + "/tensornetwork") for f, _ in frames[-3:]):
      r.fails.append(dict(clause=prop + ":driver_error", op="driver", id=tag, step=0, detail=tb[-600:], job=job, seed=seed))
      return r
    raise Infra("driver %s failed (rc %s): %s" % (tag, rc, tb[-1500:]))
  traces = [json.loads(l) for l in open(path)]
  if not traces:
    raise Infra("driver %s wrote no traces" % tag)
  tmo = max(60, deadline - time.time())
  rc, out, err, to = tlc(job["module"], tmp, trace=path, timeout=tmo, mem=job.get("mem", "3g"))
  fails, done, extra, st = parse_tlc(out)
  by = {t["id"]: t for t in traces}
  r.states += st[1]
  r.traces = len(done)
  for t in traces:
    r.steps += len(t["steps"])
    for s in t["steps"]:
      r.ops[s["op"]] = r.ops.get(s["op"], 0) + 1
      if s.get("ok", 1) == 1 or s["op"] == "bad" or s.get("exc"):
        r.distinct.add(shape_key(s))
  r.transitions = max(0, st[1] - len(traces))
  for f in fails:
    t = by.get(f["id"])
    step = t["steps"][f["step"] - 1] if t and f["step"] else {}
    for c in f["clauses"]:
      r.fails.append(dict(clause=c, op=f["op"], id=f["id"], step=f["step"], detail=step.get("exc", ""), stepdata=step,
                          trace=t, job=job, seed=seed))
  if len(done) != len(traces):
    if to:
      raise Infra("TLC on %s timed out after %d of %d traces" % (tag, len(done), len(traces)))
    missing = [t for t in traces if t["id"] not in {d["id"] for d in done}]
    msg = "\n".join(l for l in out.splitlines() if not l.startswith('"'))[-3000:]
    # the specification could not even interpret a recorded step
    m = re.search(r"/\\ tr = (\d+)", msg)
    bad = traces[int(m.group(1)) - 1] if m and int(m.group(1)) <= len(traces) else missing[0]
    ms = re.findall(r"/\\ l = (\d+)", msg)
    stepno = int(ms[-1]) + 1 if ms else 0
    r.fails.append(dict(clause=prop + ":uninterpretable", op=(bad["steps"][stepno - 1]["op"] if 0 < stepno <= len(bad["steps"]) else "?"),
                        id=bad["id"], step=stepno, detail=msg[-1500:], trace=bad, job=job, seed=seed))
  t = traces[0]
  r.samples.append({"trace": t["id"], "backend": job.get("backend", "numpy"),
                    "calls": [[s["op"], "ok" if s.get("ok", 1) else s.get("exc", "")[:60]] for s in t["steps"]][:12]})
  os.unlink(path)
  return r


def merge(rs):
  a = Result()
  for r in rs:
    a.fails += r.fails
    a.states += r.states
    a.transitions += r.transitions
    a.traces += r.traces
    a.steps += r.steps
    a.distinct |= r.distinct
    a.samples += r.samples
    a.models += r.models
    a.notes += r.notes
    for k, v in r.ops.items():
      a.ops[k] = a.ops.get(k, 0) + v
  return a


def run_model(m, tmp, seed, prop, deadline, tier="quick"):
  """Exhaustive (or simulated) check of a specification model on its own."""
  args = []
  if m.get("simulate"):
    args = ["-simulate", "num=%d" % m["simulate"], "-depth", str(m.get("depth", 50)), "-seed", str(seed)]
  cfg = m.get("deep", m.get("cfg")) if tier == "thorough" else m.get("cfg")
  rc, out, err, to = tlc(m["module"], tmp, cfg=cfg, args=args, timeout=max(60, deadline - time.time()),
                         mem=m.get("mem", "4g"), extra=m.get("env"), workers=m.get("workers", 2))
  r = Result()
  fails, done, extra, st = parse_tlc(out)
  if m.get("simulate"):
    mm = re.findall(r"The number of states generated: (\d+)", out)
    st = (int(mm[-1]), int(mm[-1])) if mm else st
  ok = "No error has been found" in out or (m.get("simulate") and "Error:" not in out)
  r.models.append({"module": m["module"], "cfg": cfg or m["module"], "states": st[1], "generated": st[0],
                   "mode": "simulate" if m.get("simulate") else "exhaustive"})
  r.states, r.transitions = st[1], st[0]
  if not ok:
    raise Infra("model %s is broken on its own: %s" % (m["module"], out[-1500:]))
  if m.get("emit"):
    progs = [json.loads(json.loads(x)[5:]) for x in extra if x.startswith('"PROG ')]
    p = os.path.join(tmp, m["module"] + "-%d.progs" % seed)
    seen = set()
    with open(p, "w") as f:
      for q in progs:
        k = json.dumps(q)
        if k not in seen:
          seen.add(k)
          f.write(k + "\n")
    r.notes.append("%d programs generated by %s" % (len(seen), m["module"]))
    r.progs = p
  return r


def check(prop, spec, tier, seed, only_shard=None):
  t0 = time.time()
  budget = spec.get("thorough_s", 600) if tier == "thorough" else 0
  deadline = t0 + (850 if tier == "quick" else budget + 900)
  tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
  res = []
  rounds = 0
  try:
    while True:
      sd = seed + 1000003 * rounds
      with cf.ThreadPoolExecutor(8) as ex:
        models = spec.get("models", []) if only_shard is None else []
        gens = [m for m in models if m.get("emit")]
        plain = [m for m in models if not m.get("emit")]
        fut = [ex.submit(run_model, m, tmp, sd, prop, deadline, tier) for m in plain] if rounds == 0 else []
        gfut = [(m, ex.submit(run_model, m, tmp, sd, prop, deadline, tier)) for m in gens]
        jobs = []
        for j in spec["jobs"]:
          if j.get("from_model"):
            continue
          if only_shard is not None and j["shard"] not in only_shard:
            continue
          jobs.append(j)
        fut += [ex.submit(shard, j, tmp, sd, prop, deadline) for j in jobs]
        for m, g in gfut:
          r = g.result()
          res.append(r)
          for j in spec["jobs"]:
            if j.get("from_model") == m["module"]:
              fut.append(ex.submit(shard, dict(j, script=r.progs), tmp, sd, prop, deadline))
        for f in fut:
          res.append(f.result())
      rounds += 1
      if tier == "quick" or time.time() - t0 > budget or any(x["clause"].startswith(prop + ":") for r in res for x in r.fails):
        break
    a = merge(res)
  finally:
    shutil.rmtree(tmp, ignore_errors=True)
  known = load_known(prop)
  mine = [f for f in a.fails if f["clause"].startswith(prop + ":")]
  unlisted, listed = [], {}
  for f in mine:
    hit = None
    for k in known:
      if match_known(k, f.get("stepdata", {}), f["clause"]):
        hit = k
    if hit is None:
      unlisted.append(f)
    else:
      listed[hit["id"]] = hit
  for k in sorted(listed):
    print("KNOWN-FINDING: property=%s %s" % (prop, listed[k]["what"]))
  others = {}
  for f in a.fails:
    if not f["clause"].startswith(prop + ":"):
      others[f["clause"]] = others.get(f["clause"], 0) + 1
  rdir = os.path.join(VERIF, "evidence", "replay")
  os.makedirs(rdir, exist_ok=True)
  seen = set()
  nv = 0
  for f in unlisted:
    key = (f["clause"], f["op"])
    nv += 1
    if key in seen or len(seen) > 12:
      continue
    seen.add(key)
    p = os.path.join(rdir, "%s-%s-%d.json" % (prop, re.sub(r"[^A-Za-z0-9_]+", "_", f["clause"] + "_" + f["op"]), seed))
    t = f.get("trace")
    if t is not None:
      t = dict(t, steps=t["steps"][:f["step"]] if f["step"] else t["steps"])
    job = {k: v for k, v in f["job"].items()}
    with open(p, "w") as fh:
      json.dump({"property": prop, "clause": f["clause"], "op": f["op"], "trace": f["id"], "step": f["step"],
                 "detail": f.get("detail", ""), "seed": f["seed"], "job": job,
                 "rerun": "VERIF_SEED=%d %s/bin/check %s" % (f["seed"], VERIF, prop), "recorded": t}, fh, indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, p))
    print("  clause %s at step %s (%s) of trace %s %s" % (f["clause"], f["step"], f["op"], f["id"], (f.get("detail") or "")[:300].replace("\n", " | ")))
  level = spec.get("level", "model_checking")
  ev = {"property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {"states": a.states, "transitions": a.transitions, "traces_validated_against_impl": a.traces,
                     "evaluations": a.steps, "distinct_nontrivial": len(a.distinct), "rule": spec.get("rule",
                       "one evaluation per recorded public call; two calls are the same case when operation, arguments "
                       "(tensors reduced to shape and kind) and outcome coincide"),
                     "calls_by_operation": a.ops, "models": a.models, "rounds": rounds, "samples": a.samples[:4],
                     "other_clauses_seen": others, "notes": a.notes},
        "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": nv}
  with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as fh:
    json.dump(ev, fh, indent=1)
  print("%s %s: %d traces, %d calls judged, %d states, %d model(s), %.1f s, %d violation(s)%s" % (
      prop, tier, a.traces, a.steps, a.states, len(a.models), time.time() - t0, nv,
      (" [other: %s]" % others) if others else ""))
  return 1 if nv else 0


def main():
  sys.path.insert(0, os.path.join(VERIF, "lib"))
  import checks
  prop = sys.argv[1]
  tier = os.environ.get("VERIF_TIER", "quick")
  if "--thorough" in sys.argv:
    tier = "thorough"
  if "--quick" in sys.argv:
    tier = "quick"
  seed = int(os.environ.get("VERIF_SEED", "1"))
  try:
    part = os.environ.get("VP_SHARDS")        # development: only some shards, no models
    sys.exit(check(prop, checks.CHECKS[prop], tier, seed, only_shard={int(x) for x in part.split(",")} if part else None))
  except Infra as e:
    print("ERROR: %s" % e)
    sys.exit(2)


if __name__ == "__main__":
  main()
