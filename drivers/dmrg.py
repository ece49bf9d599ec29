"""Histories of one DMRG object: centre moves, environments, sweeps (M05)."""
import time
from common import *
from decomp_inputs import apx as apx_
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
os.dup2(os.open(os.devnull, os.O_WRONLY), 1)  # progress messages
B = args.backend
F = 8192
T32 = B == "jax"
num = np.asarray

def apx(x):
  r = apx_(x, F)
  if T32:
    r["e"] = max(r["e"], 8)
  return r

def exact(x):
  r = apx_(x, F)
  if np.array_equal(np.rint(x * F), x * F):
    r["e"] = 0
  return r

class Skip(Exception):
  pass

def dense(ts):
  t = np.ones((1, 1))
  for a in ts:
    t = np.tensordot(t, num(a), (t.ndim - 1, 0))
  return t[0, ..., 0]

def densemat(ws):
  t = None
  for a in ws:
    t = a if t is None else np.einsum("abij,bckl->acikjl", t, a).reshape(t.shape[0], a.shape[1], t.shape[2] * a.shape[2], -1)
  return t[0, 0]

class World:
  def __init__(self, rng):
    self.rng, self.steps, self.dm = rng, [], None
    self.want = None  # what a program of the specification (DmrgModel.tla) starts from

  def mpo(self, d, cx):
    """tensors of a Hermitian operator, entries multiples of 1/4."""
    rng = self.rng
    n = len(d)
    k = rng.random()
    dt = np.complex128 if cx else np.float64
    q = lambda m: np.array([rng.randint(-4, 4) for _ in range(m)]) / 4
    if n > 1 and set(d) == {2} and k < .35:
      m = tn.FiniteXXZ(q(n - 1), q(n - 1) * 2, q(n) / 2, dt, backend="numpy")
      return [num(t) for t in m.tensors]
    if n > 1 and set(d) == {2} and k < .6:
      m = tn.FiniteTFI(q(n - 1), q(n), dt, backend="numpy")
      return [num(t) for t in m.tensors]
    M = [1] + [rng.randint(1, 3) for _ in range(n - 1)] + [1]
    ws = []
    for j in range(n):
      w = np.zeros((M[j], M[j + 1], d[j], d[j]), dt)
      for x in range(M[j]):
        for y in range(M[j + 1]):
          h = rand_tensor(rng, [d[j], d[j]], "complex" if cx else "float", -1, 1)
          h = h + h.conj().T
          w[x, y] = h * (rng.random() < .7) / (4 if M[j] * M[j + 1] > 2 else 2)
      ws.append(w)
    return ws

  def state(self):
    m = self.dm.mps
    p = dense(m.tensors)
    c = m.center_position
    ks = sorted(self.dm.left_envs), sorted(self.dm.right_envs)
    envs = [{"k": int(k), "t": apx(num(e[k]))} for e in (self.dm.left_envs,) for k in ks[0]], \
           [{"k": int(k), "t": apx(num(e[k]))} for e in (self.dm.right_envs,) for k in ks[1]]
    if any(np.max(np.abs(num(x))) > 10 for e in (self.dm.left_envs, self.dm.right_envs) for x in e.values()):
      raise Skip
    if not .25 < np.linalg.norm(p) < 1.9 or any(np.max(np.abs(num(t))) > 3 for t in m.tensors):
      raise Skip
    return {"psi": apx(p), "c": -1 if c is None else int(c), "ts": [apx(num(t)) for t in m.tensors], "L": envs[0], "R": envs[1],
            "alias": int(any(not np.array_equal(a, b) for a, b in self.given))}

  def log(self, op, a, f, conv=lambda o: {}):
    base = {"site": 0, "sweeps": 0, "maxb": 0, "kry": 0, "full": 0, "valid": 1, "max1": 1}
    base.update(a)
    try:
      o = f()
      ok, exc = 1, ""
    except Exception as e:
      ok, exc, o = 0, "%s: %s" % (type(e).__name__, str(e)[:200]), None
    ev = {"op": op, "a": base, "ok": ok, "exc": exc, "r": conv(o) if ok else {}}
    if self.dm is not None:
      ev.update(self.state())
    else:
      ev.update({"psi": {}, "c": -1, "ts": [], "L": [], "R": [], "alias": 0})
    self.steps.append(ev)
    return ok

  def init(self):
    rng = self.rng
    n = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 4] + [5] * (rng.random() < .3))
    if self.want:
      n = self.want[0]
    d = [2] * n if rng.random() < .7 else [rng.choice([2, 2, 3, 1]) for _ in range(n)]
    if np.prod(d) > 36:
      d = [2] * n
    cx = rng.random() < .4
    full = [1] * (n + 1)
    for k in range(1, n):
      full[k] = int(min(np.prod(d[:k]), np.prod(d[k:])))
    if rng.random() < .4:
      D = list(full)
    else:
      D = [1] + [rng.choice([1, 2, 2, 3, 4]) for _ in range(n - 1)] + [1]
    self.full = full
    self.d = d
    ws = self.mpo(d, cx)
    H = densemat(ws)
    w, V = np.linalg.eigh(H)
    if np.max(np.abs(w)) > 6:
      return self.init()
    self.H, self.w, self.V = H, w, V
    r = np.random.RandomState(rng.randrange(2 ** 31))
    ts = [r.randn(D[k], d[k], D[k + 1]) + (1j * r.randn(D[k], d[k], D[k + 1]) if cx else 0) for k in range(n)]
    c = rng.randrange(n)
    dt = ts[0].dtype
    mode = rng.random()
    if self.want:
      c, mode = self.want[1], rng.choice([.5, .9])
    bad = ""
    mdt, mws = dt, ws
    if mode < .04:
      bad = "dtype"; mws = [x.astype(np.float32 if not cx else np.float64) if not cx else x.real for x in ws]
    elif mode < .07 and n > 1:
      bad = "len"; mws = ws + [np.eye(2, dtype=ws[0].dtype).reshape(1, 1, 2, 2)]
    if B == "jax":
      ts = [x.astype(np.complex64 if cx else np.float32) for x in ts]
      mws = [x.astype(np.complex64 if cx else np.float32) for x in mws]
      if bad == "dtype":
        mws = [x.astype(np.float32 if cx else np.complex64) for x in mws]
    mps = tn.FiniteMPS([x.copy() for x in ts], center_position=c, canonicalize=True, backend=B)
    self.given = []
    if mode > .85:
      # canonical tensors handed over as they are: nothing may write into them
      arrs = [num(x).copy() for x in mps.tensors]
      sc = rng.choice([1, 1.5, .5])
      arrs[c] = arrs[c] * sc
      mps = tn.FiniteMPS(arrs, canonicalize=False, backend=B)
      mps.center_position = c
      if B == "numpy":
        self.given = [(x, x.copy()) for x in arrs]
    elif mode < .1 and mode >= .07:
      bad = "centre"
      mps = tn.FiniteMPS(ts, canonicalize=False, backend=B)
    mp = tn.FiniteMPO([x.copy() for x in mws], backend=B)
    if B == "numpy":
      self.given += [(x, num(x).copy()) for x in mp.tensors]
    a = {"W": [tj(16 * x) for x in ws], "H": exact(H), "V": apx_(V, F), "w": apx_(w, F), "valid": int(not bad), "bad": bad,
         "d": d}
    def f():
      self.dm = tn.FiniteDMRG(mps, mp)
    if not self.log("init", a, f):
      raise Skip

  def gs(self):
    """does the state overlap with the ground space?"""
    p = dense(self.dm.mps.tensors).reshape(-1)
    g = self.V[:, self.w < self.w[0] + 1e-6]
    return np.linalg.norm(g.conj().T @ p) > .15 * np.linalg.norm(p)

  def e(self, o):
    x = complex(o)
    return {"E": apx_(float(x.real), F), "im": int(abs(x.imag) > 1e-3)}

  def script(self, prog):
    """Executes one program of the specification (DmrgModel.tla)."""
    self.want = prog[0][1:]
    self.init()
    for p in prog[1:]:
      self.step(p)

  def step(self, p=None):
    rng = self.rng
    dm = self.dm
    n = len(dm.mps)
    op = rng.choice(["position"] * 4 + ["left", "right"] + ["energy"] * 2 + ["run1"] * 3 + ["run2"] * 3)
    if p:
      op = p[0]
    if B == "tensorflow" and op in ("run1", "run2"):
      op = "position"
    if op == "position":
      s = rng.randrange(n) if rng.random() < .93 else rng.choice([-1, n, n + 2])
      if p:
        s = p[1]
      self.log(op, {"site": s}, lambda: dm.position(s), lambda o: {"self": int(o is dm)})
    elif op == "left":
      self.log(op, {}, dm.compute_left_envs)
    elif op == "right":
      self.log(op, {}, dm.compute_right_envs)
    elif op == "energy":
      self.log(op, {}, dm.compute_energy, self.e)
    else:
      if n == 1:
        op = "run1"
      sw = rng.choice([0, 1, 1, 2, 3, 4])
      if p:
        sw = p[1]
      kry = rng.choice([2, 3, 5, 10, 12, 20]) if not T32 else rng.choice([4, 10])
      kw = {"num_sweeps": sw, "num_krylov_vecs": kry, "verbose": rng.choice([0, 0, 1, 2])}
      if rng.random() < .3:
        kw["ndiag"] = rng.choice([1, 2, 5])
      coarse = not p and rng.random() < .3
      if coarse:  # the run ends at whichever sweep changes the energy by less
        kw["precision"] = rng.choice([1e-2, 1e-1, 3e-1, 1.])
        kw["num_sweeps"] = sw = rng.choice([2, 4, 6])
        kw["num_krylov_vecs"] = kry = rng.choice([2, 2, 3]) if not T32 else 4
      bd = [int(x) for x in dm.mps.bond_dimensions]
      enough = int(not coarse and sw >= 3 and kry >= 12 and not T32 and self.gs())
      if op == "run1":
        self.log(op, {"sweeps": sw, "kry": kry, "full": int(enough and bd == self.full)}, lambda: dm.run_one_site(**kw), self.e)
      else:
        mb = rng.choice([1, 2, 2, 3, 4, 4, 16])
        self.log(op, {"sweeps": sw, "kry": kry, "maxb": mb, "full": int(enough and mb >= max(self.full)), "max1": int(mb >= max(self.full))},
                 lambda: dm.run_two_site(mb, **kw), self.e)

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 43)
  traces = []
  t0 = time.time()
  progs = None
  if args.script:
    with open(args.script) as f:
      progs = [json.loads(l) for l in f]
    random.Random(args.seed).shuffle(progs)
    progs = progs[args.shard % 4::4][:args.n]
  for i in range(len(progs) if progs is not None else args.n):
    if args.secs and time.time() - t0 > args.secs:
      break
    w = World(rng)
    try:
      if progs is not None:
        w.script(progs[i])
      else:
        w.init()
        for _ in range(rng.randint(1, 5)):
          w.step()
    except Skip:
      pass
    if w.steps:
      traces.append({"id": "dmrg-%s-%d-%d" % (B, args.shard, i), "steps": w.steps})
  write_traces(args.out, traces)

main()
