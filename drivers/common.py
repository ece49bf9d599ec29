"""Shared helpers of the trace-recording drivers (run under /opt/venv/bin/python)."""
import json, os, sys, random, warnings
warnings.filterwarnings("ignore")
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("TF_USE_LEGACY_KERAS", "1")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "")
import numpy as np

BIG = 2 ** 28

class NotExact(Exception):
  pass

def ints(x, tol=1e-3):
  """Exact integer projection of an array: (shape, flat list, c, exact)."""
  a = np.asarray(x)
  shape = [int(d) for d in a.shape]
  flat = a.reshape(-1)
  exact = 1
  if a.dtype == object:
    return shape, [], 0, 0
  if not np.all(np.isfinite(flat)):
    return shape, [0] * flat.size, 0, 0
  if np.iscomplexobj(flat):
    re, im = np.rint(flat.real), np.rint(flat.imag)
    if flat.size and (np.max(np.abs(flat.real - re)) > tol or np.max(np.abs(flat.imag - im)) > tol):
      exact = 0
    if flat.size and max(np.max(np.abs(re)), np.max(np.abs(im))) > BIG:
      exact = 0
      re = np.clip(re, -BIG, BIG); im = np.clip(im, -BIG, BIG)
    return shape, [[int(p), int(q)] for p, q in zip(re, im)], 1, exact
  f = flat.astype(np.float64)
  r = np.rint(f)
  if f.size and np.max(np.abs(f - r)) > tol:
    exact = 0
  if r.size and np.max(np.abs(r)) > BIG:
    exact = 0
    r = np.clip(r, -BIG, BIG)
  return shape, [int(v) for v in r], 0, exact

def tj(x, tol=1e-3):
  """JSON tensor record of the specification ([s,d,c]); x = 'exact' flag."""
  s, d, c, e = ints(x, tol)
  return {"s": s, "d": d, "c": c, "x": e}

def maxabs(x):
  a = np.asarray(x)
  if a.size == 0 or a.dtype == object:
    return 0
  return float(np.max(np.abs(a)))

def rand_tensor(rng, shape, kind="float", lo=-2, hi=2):
  n = int(np.prod(shape)) if len(shape) else 1
  vals = [rng.choice([v for v in range(lo, hi + 1) if v or rng.random() < .4] or [1])
          for _ in range(n)]
  a = np.array(vals, dtype=np.float64).reshape(shape)
  if kind == "int":
    return a.astype(np.int64)
  if kind == "complex":
    im = np.array([rng.randint(lo, hi) for _ in range(n)], dtype=np.float64).reshape(shape)
    return a + 1j * im
  if kind == "float32":
    return a.astype(np.float32)
  return a

def block_imports(*names):
  for n in names:
    sys.modules[n] = None

def write_traces(path, traces):
  with open(path, "w") as f:
    for t in traces:
      f.write(json.dumps(t, separators=(",", ":")) + "\n")

def parse_args():
  import argparse
  p = argparse.ArgumentParser()
  p.add_argument("--out", required=True)
  p.add_argument("--seed", type=int, default=1)
  p.add_argument("--n", type=int, default=100)
  p.add_argument("--shard", type=int, default=0)
  p.add_argument("--profile", default="")
  p.add_argument("--backend", default="numpy")
  p.add_argument("--script", default="")
  p.add_argument("--secs", type=float, default=600)
  return p.parse_args()
