"""Histories of infinite matrix product states (M01, M02)."""
import time
from common import *
from decomp_inputs import apx as apx_
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
B = args.backend
F = 8192
apx = lambda x: apx_(x, F)
num = np.asarray

class Skip(Exception):
  pass

def cellmat(ts):
  t = num(ts[0])
  for a in ts[1:]:
    t = np.tensordot(t, num(a), (t.ndim - 1, 0))
  return t.reshape(t.shape[0], -1, t.shape[-1])

def fixed(t):
  """leading eigenvalue, gap, l, r of the transfer matrix of a cell tensor (D, s, D)."""
  D = t.shape[0]
  E = np.einsum("asb,csd->acbd", t, t.conj()).reshape(D * D, D * D)
  w, vr = np.linalg.eig(E)
  wl, vl = np.linalg.eig(E.T)
  o = np.argsort(-abs(w)); ol = np.argsort(-abs(wl))
  gap = abs(w[o[1]]) / abs(w[o[0]]) if D > 1 else 0
  def herm(v):
    m = v.reshape(D, D)
    tr = np.trace(m)
    if abs(tr) < 1e-9:
      raise Skip
    m = m / tr
    return (m + m.conj().T) / 2
  return abs(w[o[0]]), gap, herm(vl[:, ol[0]]), herm(vr[:, o[0]])

def fine(t):
  lam, gap, l, r = fixed(t)
  el, er = np.linalg.eigvalsh(l), np.linalg.eigvalsh(r)
  if not (.3 < lam < 6 and gap < .9 and min(el) > max(el) * 4e-3 and min(er) > max(er) * 4e-3):
    return False
  sl = np.linalg.cholesky(l).conj().T; sr = np.linalg.cholesky(r)
  s = np.linalg.svd(sl.conj() @ sr, compute_uv=False)
  s2 = np.linalg.svd(sl @ sr, compute_uv=False)
  return min(s) > .1 * max(s) and min(s2) > .1 * max(s2)

def small(x):
  return np.all(np.isfinite(x)) and maxabs(x) < 3.5

def steps_fit(ts, M, d):
  """no product or partial sum of the transfer leaves 32-bit integers."""
  nrm = np.linalg.norm
  for t in (ts if d == 1 else ts[::-1]):
    p = np.tensordot(t, M, (0 if d == 1 else 2, 0))
    if nrm(t) * nrm(M) > 25 or nrm(p) * nrm(t) > 25:
      return False
    M = np.tensordot(p, t.conj(), ((0, 2), (1, 0)) if d == 1 else ((1, 2), (1, 2)))
  return True

def cell_fits(ts):
  p, q = None, 0
  for t in map(num, ts):
    if not np.all(np.isfinite(t)):
      return True
    q = max(q, np.linalg.norm(t))
    if p is not None:
      q = max(q, np.linalg.norm(p) * np.linalg.norm(t))
      t = np.tensordot(p, t, (p.ndim - 1, 0))
    p = t
  return max(q, np.linalg.norm(p) ** 2) < 25

class World:
  def __init__(self, rng):
    self.rng, self.steps, self.mps, self.given = rng, [], None, []
    self.cx = rng.random() < .5

  def cell(self):
    return [num(self.mps.get_tensor(k)) for k in range(len(self.mps))]

  bounded = False  # the operation has to keep the cell small

  def log(self, op, a, f, conv=None, cert=None):
    base = {"site": 0, "dir": 0, "norm": 0, "maxx": 0, "maxsv": 0, "x": apx(1.), "y": apx(1.), "z": apx(1.), "lam": apx(1.), "m": apx(1.)}
    base.update(a)
    try:
      o = f()
      ok, exc = 1, ""
    except Exception as e:
      ok, exc, o = 0, "%s: %s" % (type(e).__name__, str(e)[:200]), None
    if ok and cert:
      base.update(cert(o))
    ev = {"op": op, "a": base, "ok": ok, "exc": exc, "r": conv(o) if ok and conv else {}}
    c = self.mps.center_position
    cell = self.cell()
    ev.update(c=-1 if c is None else int(c), ts=[apx(num(t)) for t in self.mps.tensors], cell=[apx(t) for t in cell],
              alias=int(any(not np.array_equal(x, y) for x, y in self.given)))
    if not cell_fits(cell) or not cell_fits(self.mps.tensors):
      if not self.bounded:
        raise Skip
      ev["cell"][0]["x"] = 0
    self.steps.append(ev)

  def init(self):
    rng = self.rng
    rnd = rng.random() < .15
    for _ in range(400):
      n = rng.choice([1, 1, 2, 2, 3])
      d = [rng.choice([2, 2, 3] if n < 3 else [2]) for _ in range(n)]
      D = [rng.choice([1, 2, 2, 3]) for _ in range(n)]
      D.append(D[0])
      if rnd:
        np.random.seed(rng.randrange(10 ** 6))
        m = tn.InfiniteMPS.random(d, D, np.complex128 if self.cx else np.float64, backend=B)
        ts = [num(t) for t in m.tensors]
      else:
        ts = [rand_tensor(rng, [D[k], d[k], D[k + 1]], "complex" if self.cx else "float", -3, 3) for k in range(n)]
      t = cellmat(ts)
      if not np.any(t):
        continue
      try:
        lam = fixed(t)[0]
      except Skip:
        continue
      if not 1e-6 < lam < 1e9:
        continue
      if rnd:
        if lam > 6 or max(maxabs(t) for t in ts) > 3.5:
          continue
      else:
        per = lam ** (1 / (2 * n)) / rng.choice([.7, 1., 1.4])
        ts = [t / 2. ** round(np.log2(per)) for t in ts]
      t = cellmat(ts)
      if small(t) and fine(t) and all(small(x) for x in ts):
        break
    else:
      raise Skip
    arrs = [x.copy() for x in ts]
    if not rnd:
      self.given = [(x, x.copy()) for x in arrs]
      c = rng.choice([None, 0, rng.randrange(n)])
      m = tn.InfiniteMPS(arrs, center_position=c, backend=B)
    self.mps = m
    self.log("init", {}, lambda: None)

  def canon(self):
    rng = self.rng
    m = self.mps
    old = cellmat(self.cell())
    if not fine(old):
      raise Skip
    D = old.shape[0]
    a = {}
    kw = {}
    if rng.random() < .3:
      a["maxx"], a["maxsv"] = 1, rng.randint(1, D + 1)
      kw["D"] = a["maxsv"]
    for k in ("left_initial_state", "right_initial_state"):
      if rng.random() < .25:
        kw[k] = np.eye(D).astype(old.dtype) + (.1 * rand_tensor(rng, [D, D]) if rng.random() < .5 else 0)
    def cert(o):
      new = cellmat(self.cell())
      if new.shape[1] != old.shape[1] or not np.all(np.isfinite(new)):
        return {}
      Dn = new.shape[0]
      M = np.einsum("asb,csd->bdac", new.conj(), old).reshape(Dn * D, Dn * D)
      w, v = np.linalg.eig(M)
      j = np.argmax(abs(w))
      X = v[:, j].reshape(Dn, D)
      X = X / np.linalg.norm(X, 2)
      if not np.iscomplexobj(old) and maxabs((X / X.flat[np.argmax(abs(X))]).imag) < 1e-9:
        X = (X / X.flat[np.argmax(abs(X))]).real
        X = X / np.linalg.norm(X, 2)
      z = 1 / w[j] if abs(w[j]) > 1e-6 else 1.
      Y = np.linalg.pinv(X)
      conn = self.mps.connector_matrix
      lam = np.linalg.pinv(num(conn)) if conn is not None else np.eye(Dn)
      return {"x": apx(X), "y": apx(Y), "z": apx(complex(z)), "lam": apx(lam)}
    self.bounded = True
    self.log("canon", a, lambda: m.canonicalize(**kw), None, cert)

  def position(self):
    rng = self.rng
    m = self.mps
    n = len(m)
    site = rng.randrange(n) if rng.random() < .9 else rng.choice([-1, n])
    norm = int(rng.random() < .5)
    old = cellmat(self.cell())
    cert = lambda o: {"z": apx(float(np.linalg.norm(old) / max(1e-9, np.linalg.norm(cellmat(self.cell())))))}
    self.bounded = any(s["op"] == "canon" and not s["a"]["maxx"] for s in self.steps)
    self.log("position", {"site": site, "norm": norm}, lambda: m.position(site, normalize=bool(norm)), None, cert)

  def mat(self, n, k=None):
    return rand_tensor(self.rng, [n, k or n], "complex" if self.cx else "float", -1, 1)

  def transfer(self):
    rng = self.rng
    m = self.mps
    n = len(m)
    d = rng.choice([1, -1]) if rng.random() < .95 else 0
    name = {1: [1, "l", "left"], -1: [-1, "r", "right"], 0: [0, "up", "L"]}[d]
    name = rng.choice(name)
    ts = [num(t) for t in m.tensors]
    if not all(small(t) for t in ts):
      return
    if rng.random() < .5 and n > 0:
      s = rng.randrange(n)
      M = self.mat(ts[s].shape[2 if d == -1 else 0])
      a = {"site": s, "dir": d, "m": dict(apx(M), e=0)}
      if not steps_fit([ts[s]], M, d or 1):
        return
      f = lambda: m.apply_transfer_operator(s, name, M)
    else:
      M = self.mat(ts[0].shape[0])
      a = {"site": -9, "dir": d, "m": dict(apx(M), e=0)}
      if not steps_fit(ts, M, d or 1):
        return
      f = lambda: m.unit_cell_transfer_operator(name, M)
    self.log("transfer", a, f, lambda o: {"m": apx(num(o))})

  def eigs(self):
    rng = self.rng
    m = self.mps
    ts = [num(t) for t in m.tensors]
    t = cellmat(ts)
    try:
      if not small(t) or not fine(t) or not all(small(x) for x in ts):
        return
    except Skip:
      return
    d = rng.choice([1, -1])
    name = rng.choice({1: [1, "l", "left"], -1: [-1, "r", "right"]}[d])
    kw = {}
    D = t.shape[0]
    if rng.random() < .3:
      x = np.eye(D).astype(t.dtype) + (.1 * self.mat(D) if rng.random() < .5 else 0)
      kw["initial_state"] = x if rng.random() < .5 else x.reshape(-1)
    def cert(o):
      v = num(o[1])
      tr = np.trace(v)
      z = abs(tr) / tr if abs(tr) > 1e-9 else 1.
      w, u = np.linalg.eigh((v * z + (v * z).conj().T) / 2)
      x = np.diag(np.sqrt(np.maximum(w, 0))) @ u.conj().T
      return {"x": apx(x), "z": apx(complex(z))}
    if not steps_fit(ts, np.eye(D) * (fixed(t)[0] if D == 1 else 1), d):
      return
    self.log("eigs", {"dir": d}, lambda: m.transfer_matrix_eigs(name, **kw), lambda o: {"z": apx(num(o[0]).reshape(1)), "m": apx(num(o[1]))}, cert)

  def ortho(self):
    rng = self.rng
    m = self.mps
    if not all(small(x) for x in self.cell()):
      return
    s = rng.randrange(len(m)) if rng.random() < .95 else rng.choice([-1, len(m)])
    d = rng.choice([1, -1]) if rng.random() < .95 else 0
    name = rng.choice({1: ["l", "left"], -1: ["r", "right"], 0: ["x", "L"]}[d])
    self.log("ortho", {"site": s, "dir": d}, lambda: m.check_orthonormality(name, s), lambda z: {"z": apx(num(z).reshape(1))})

  def go(self, n):
    self.init()
    ops = {"M01": ["canon"] * 4 + ["position"] * 4 + ["ortho"],
           "M02": ["transfer"] * 5 + ["eigs"] * 4 + ["canon", "position"]}[args.profile]
    for _ in range(n):
      getattr(self, self.rng.choice(ops))()

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 29)
  traces = []
  t0 = time.time()
  for i in range(args.n):
    if time.time() - t0 > args.secs:
      break
    w = World(rng)
    try:
      w.go(rng.randint(2, 7))
    except Skip:
      pass
    except Exception as e:
      if os.environ.get("VP_DEBUG"):
        raise
      if w.steps:
        op = {"M01": "canon", "M02": "eigs"}[args.profile]
        w.steps.append(dict(w.steps[-1], op=op, ok=0, exc="unreadable %s: %s" % (type(e).__name__, str(e)[:200])))
    if w.steps:
      traces.append({"id": "imps-%s-%d-%d" % (B, args.shard, i), "steps": w.steps})
  write_traces(args.out, traces)

main()
