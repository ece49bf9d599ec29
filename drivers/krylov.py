"""Histories of iterative solver calls sharing operators and arrays (K01, K02)."""
import time
from common import *
from decomp_inputs import apx as apx_
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.linalg import krylov as KL
B = args.backend
F = 8192
be = backend_factory.get_backend(B)
if B == "jax":
  import jax
  import jax.numpy as jnp
  jax.config.update("jax_enable_x64", True)
SYM = B == "symmetric"

def apx(x, single=False):
  r = apx_(x, F)
  if single:
    r["e"] = 8
  return r

def apply_(x, H):
  """the operator: contracts the second half of H's axes with x."""
  n = x.ndim
  return be.tensordot(H, x, (list(range(n, 2 * n)), list(range(n))))

SEEN = set()
def apply_tn(x, H):
  SEEN.update((x.backend.name, H.backend.name))
  n = x.array.ndim
  return tn.tensordot(H, x, (list(range(n, 2 * n)), list(range(n))))

def ident(x, *a):
  return x

class Boom(Exception):
  pass

def dense(x):
  if isinstance(x, tn.Tensor):
    x = x.array
  return np.asarray(x.todense() if hasattr(x, "todense") else x)

class World:
  def __init__(self, rng):
    self.rng, self.steps = rng, []
    self.pool, self.vals = {}, {}     # name -> object, name -> dense value
    self.cfg = []
    self.fresh, self.seeds = {}, []
    if B != "jax":
      ch = [rng.choice([[0, 1], [0, 1, 1], [0, 1, -1, 1]])] if SYM else None
    shapes = [[4], [2, 2], [3], [5], [2, 3], [6], [8], [1, 4], [4, 1]] if B != "jax" else [[4], [2, 2], [5], [1, 4]]
    for k in range(rng.randint(1, 2)):
      self.family(k, rng.choice(shapes))

  # -- arrays
  def add(self, name, obj):
    self.pool[name] = obj
    self.vals[name] = dense(obj).copy()

  def conv(self, a):
    return jnp.array(a) if B == "jax" else a.copy()

  def family(self, k, shape):
    """operators and vectors that live on one space."""
    rng = self.rng
    cx = rng.random() < .35
    if SYM:
      q = rng.choice([[0, 1], [0, 1, 1], [0, 0, 1], [0, 1, -1]])
      nd = rng.choice([2, 2, 3]) if len(q) == 2 else 2
      ix = [tn.Index(tn.U1Charge(np.array(q)), bool(j % 2)) for j in range(nd)]
      shape = [len(q)] * nd
      tot = np.zeros(shape, int)
      for j in range(nd):
        tot = tot + (1 - 2 * (j % 2)) * np.array(q).reshape([-1 if t == j else 1 for t in range(nd)])
      sec = np.flatnonzero(tot.reshape(-1) == 0)
      mk = lambda a: tn.BlockSparseTensor.fromdense(ix, a)
      mkH = lambda a: tn.BlockSparseTensor.fromdense([i.copy() for i in ix] + [i.copy().flip_flow() for i in ix], a)
    else:
      sec = np.arange(int(np.prod(shape)))
      mk = mkH = self.conv
    m = len(sec)
    if m < 2:
      return self.family(k, rng.choice([[4], [5]]))
    n = int(np.prod(shape))
    dt = rng.choice([np.float64, np.float64, np.float32]) if not cx else rng.choice([np.complex128, np.complex128, np.complex64])
    def vec():
      a = np.zeros(n, dtype=complex)
      a[sec] = rand_tensor(rng, [m], "complex" if cx else "float", -2, 2)
      if not np.any(a):
        a[sec[0]] = 1
      return (a if cx else a.real).astype(dt).reshape(shape)
    for j in range(2):
      self.add("v%d.%d" % (k, j), mk(vec()))
    f = {"k": k, "shape": shape, "sec": sec, "m": m, "dt": dt, "ops": [], "index": ix if SYM else shape}
    for j, kind in enumerate([rng.choice(["herm", "herm", "gen", "dom"]) for _ in range(2)] + ["herm", "dom"]):
      h = rand_tensor(rng, [m, m], "complex" if cx else "float", -2, 2)
      if kind == "herm":
        h = np.tril(h, -1); h = h + h.conj().T + np.diag([rng.randint(-3, 3) for _ in range(m)])
        if m > 3 and rng.random() < .35 and np.dtype(dt).itemsize in (8, 16) and dt not in (np.complex64,) and B != "jax":
          # one level far from the others is found long before them
          j0 = rng.randrange(m)
          h[j0, j0] -= rng.choice([30, 100, -100])
      elif kind == "dom":
        h = h + np.diag([rng.choice([-1, 1]) * (2 * m + rng.randint(0, 2)) for _ in range(m)])
      big = np.zeros((n, n), dtype=complex)
      if SYM:
        # an operator on the whole space that conserves the charge
        tf = tot.reshape(-1)
        big = np.where(tf[:, None] == tf[None, :], rand_tensor(rng, [n, n], "float", -1, 1), 0).astype(complex)
      big[np.ix_(sec, sec)] = h
      big = (big if cx else big.real).astype(dt)
      nm = "H%d.%d" % (k, j)
      self.add(nm, mkH(big.reshape(shape * 2)))
      f["ops"].append((nm, h, kind))
    self.cfg.append(f)

  def state(self):
    out = {}
    for n, o in self.pool.items():
      out[n] = tj(dense(o).reshape(-1))
    return {"pool": out, "cache": int(self.caching() != [False, True]) if SYM else 0}

  def caching(self):
    from tensornetwork import block_sparse as bs
    return [bool(bs.get_caching_status()), bool(bs.get_cacher().is_empty)]

  def coords(self, f, x):
    return dense(x).reshape(-1)[f["sec"]]

  def same_shape(self, f, x):
    d = dense(x)
    out = np.delete(d.reshape(-1), f["sec"]) if d.shape == tuple(f["shape"]) else np.ones(1)
    return int(d.shape == tuple(f["shape"]) and not np.any(out))

  def step(self):
    # the call is a function of its seed; who calls it is not
    if self.seeds and self.rng.random() < .4:
      seed = self.rng.choice(self.seeds)
    else:
      seed = self.rng.randrange(2 ** 31)
      self.seeds.append(seed)
    rng = random.Random(seed)
    f = rng.choice(self.cfg)
    solver = rng.choice(["lanczos", "eigs", "gmres"] + (["eigsh"] if B == "jax" else []))
    herm = [o for o in f["ops"] if o[2] == "herm"]
    nm, h, kind = rng.choice(herm if solver in ("lanczos", "eigsh") else f["ops"])
    m = f["m"]
    special = ""
    if rng.random() < .08:
      special, h, kind = "ident", np.eye(m), "herm"
    elif rng.random() < .04:
      special = "boom"
    x0 = rng.choice([None, 0, 1, 0, 1, 0])
    bv = rng.randrange(2)
    lin = int(rng.random() < .3)     # through tensornetwork.linalg.krylov
    p = {}
    bad = ""
    if solver == "lanczos":
      far = np.max(np.abs(h)) > 20
      p["reorthogonalize"] = far or rng.random() < .6
      p["numeig"] = rng.choice([1, 1, 2, 3] if not far else [1, 2, 2, 3]) if p["reorthogonalize"] else 1
      p["num_krylov_vecs"] = rng.choice([m, m, m, 2 * m, 3, 20] if not far else [m, m, 20] if B != "jax" else [m, m, 3])
      if p["num_krylov_vecs"] < p["numeig"]:
        bad = "numeig"
      if rng.random() < .03:
        p["reorthogonalize"], p["numeig"], bad = False, 2, "reorth"
      if rng.random() < (.5 if far else .2) and B != "jax":
        p["ndiag"] = rng.choice([1, 2, 3] if not far else [1])
      p["tol"] = rng.choice([1e-9, 1e-5, 1e-5]) if far else 1e-9
    elif solver in ("eigs", "eigsh"):
      if m < 4 and B != "jax":
        solver = "gmres"
      else:
        p["numeig"] = rng.choice([1, 2]) if m > 3 else 1
        p["num_krylov_vecs"] = m if B != "jax" else rng.choice([m, m, p["numeig"] + 2])
        if solver == "eigs":
          p["which"] = rng.choice(["LR", "LM"] + (["SR", "SM"] if B == "numpy" else []))
        else:
          p["which"] = rng.choice(["SA", "LA", "LM"])
        p["maxiter"] = rng.choice([100, 200]) if B != "jax" else rng.choice([30, 30, 30, 1, 2])
        if B == "jax" and rng.random() < .1:
          p["numeig"] = p["num_krylov_vecs"] = m
        if rng.random() < .03:
          p["which"], bad = "SI", "which"
    if solver == "gmres":
      p = {"tol": rng.choice([1e-5, 1e-3, 1e-6])}
      if rng.random() < .3:
        p["atol"] = rng.choice([1e-5, 1e-2])
      if rng.random() < .7:
        p["num_krylov_vectors"] = rng.choice([m, m, max(1, m - 1), 2, 1])
      p["maxiter"] = rng.choice([1, 1, 2, 10])
      if rng.random() < .03:
        p["tol"], bad = -1e-3, "tol"
    if SYM and p.get("num_krylov_vectors", 1) > m:
      p["num_krylov_vectors"] = m
    shared = self.rng.random() < .75
    usedargs = int(special != "ident" and rng.random() < .75)
    H = self.pool[nm]
    base = apply_tn if lin else apply_
    W = (lambda a: tn.Tensor(a, backend=B)) if lin else (lambda a: a)
    def make(share):
      if special == "ident":
        return ident if share else (lambda x, *a: x)
      if special == "boom":
        def g(x, *a):
          raise Boom
        return g
      if usedargs:
        return base if share else (lambda x, H: base(x, H))
      kk = (nm, lin)
      if share and kk in self.fresh:
        return self.fresh[kk]
      Hc = W(H)
      g = lambda x: base(x, Hc)
      if share:
        self.fresh[kk] = g
      return g
    fn = make(shared)
    if x0 is None and solver != "gmres":
      if SYM or B == "jax" or rng.random() < .5:
        if SYM:
          x0 = 0
    v0 = None if x0 is None else "v%d.%d" % (f["k"], x0)
    b = "v%d.%d" % (f["k"], bv)
    if rng.random() < .1:
      v0 = None if v0 is None else b
    # keyword arguments
    kw = dict(p)
    A_args = [W(H)] if usedargs else []
    mod = KL if lin else be
    name = {"lanczos": "eigsh_lanczos", "eigs": "eigs", "eigsh": "eigsh", "gmres": "gmres"}[solver]
    if lin and not hasattr(mod, name):
      lin, mod, W = 0, be, (lambda a: a)
      base = apply_
      fn = make(shared)
      A_args = [H] if usedargs else []
    lays = [rng.choice(["", "", "perm", "fuse"]) for _ in range(2)] if SYM else ["", ""]
    if "fuse" in lays:
      lays = ["fuse", "fuse"] if not lin else ["", ""]
    n0 = len(f["shape"])
    def lay(x, how):
      """the same tensor, stored in another order or seen through one fused leg"""
      if how == "perm":
        p = list(range(n0))[::-1]
        return x.transpose(p).contiguous().transpose(p)
      if how == "fuse":
        return x.reshape((int(np.prod(f["shape"])),))
      return x
    if lays[0] == "fuse":
      inner = fn
      unf = lambda x: x.reshape(tuple(f["shape"]))
      def fn(x, *a):
        if x.ndim != 1:
          raise TypeError("the operator was given a vector of another shape than the initial state")
        return inner(unf(x), *a).reshape((int(np.prod(f["shape"])),))
    if solver == "gmres":
      bobj = W(lay(self.pool[b], lays[1]))
      if v0 is not None:
        kw["x0"] = W(lay(self.pool[v0], lays[0]))
        if rng.random() < .03 and not SYM:
          kw["x0"] = W(self.conv(np.ones(f["m"] + 1, dtype=f["dt"])))
          bad = "x0"
      if A_args or rng.random() < .5:
        kw["A_args"] = A_args
      call = lambda: getattr(mod, name)(fn, bobj, **kw)
    else:
      if v0 is None:
        kw["shape"], kw["dtype"] = tuple(f["shape"]), f["dt"]
        if lin:
          kw["backend"] = B
      else:
        kw["x0" if lin else "initial_state"] = W(lay(self.pool[v0], lays[0]))
      if A_args or rng.random() < .5:
        kw["args"] = A_args
      call = lambda: getattr(mod, name)(fn, **kw)
    if lin and B != "numpy" and self.rng.random() < .4:
      # the same operator function has been in use with another backend
      KL.eigsh_lanczos(apply_tn, args=[tn.Tensor(np.diag([1., 2.]), backend="numpy")], x0=tn.Tensor(np.ones(2), backend="numpy"), num_krylov_vecs=2)
    SEEN.clear()
    np.random.seed(self.rng.randrange(2 ** 31))
    st0 = self.caching() if SYM else None
    try:
      o = call()
      if lays[0] == "fuse" and (v0 is not None or solver == "gmres"):
        o = (unf(o[0]), o[1]) if solver == "gmres" else (o[0], [unf(t) for t in o[1]])
      ok, exc = 1, ""
    except Exception as e:
      ok, exc, o = 0, "%s: %s" % (type(e).__name__, str(e)[:300]), None
    single = np.dtype(f["dt"]) in (np.dtype(np.float32), np.dtype(np.complex64))
    a = {"solver": solver, "H": tj(h), "op": "identity" if special == "ident" else nm, "kind": kind, "b": b if solver == "gmres" else "", "x0": v0 or "",
         "sec": [int(s) + 1 for s in f["sec"]], "det": int(v0 is not None or (solver == "gmres" and not SYM)), "valid": int(not bad and special != "boom"),
         "bad": bad or special, "m": m, "single": int(single), "lin": lin, "shared": int(shared), "args": usedargs,
         "numeig": p.get("numeig", 0), "kry": p.get("num_krylov_vecs", p.get("num_krylov_vectors", m)), "reorth": int(p.get("reorthogonalize", 0)),
         "which": p.get("which", ""), "maxiter": p.get("maxiter", 0), "tolr": int(round(max(p.get("tol", 0), 0) * 1e6)), "tola": int(round(p.get("atol", max(p.get("tol", 0), 0)) * 1e6))}
    a["key"] = "%s %s x0=%s b=%s %s sh=%s" % (solver, a["op"] + "." + str(f["k"]), v0, a["b"], sorted(p.items()), f["shape"])
    if any(lays):
      a["key"] += " " + "/".join(lays)
    r = {}
    if ok:
      r = self.result(f, solver, h, o, a, single)
    if solver != "gmres" and a["valid"]:
      self.certify(f, h, a, v0, single)
    a["backend"] = B
    if ok:
      outs = [] if not lin else [o[0]] if solver == "gmres" else list(o[1])
      r["labels"] = sorted(SEEN | set(t.backend.name for t in outs))
    ev = {"op": "call", "a": a, "ok": ok, "exc": exc, "r": r}
    ev.update(self.state())
    self.steps.append(ev)
    if ok and self.rng.random() < .3 and B != "jax":
      # whoever called may write into the results
      for t in ([o[0]] if solver == "gmres" else o[1]):
        t = t.array if isinstance(t, tn.Tensor) else t
        if SYM:
          t.data[...] = 77
        else:
          t[...] = 77
      ev = {"op": "scribble", "a": {"valid": 1}, "ok": 1, "exc": "", "r": {}}
      ev.update(self.state())
      self.steps.append(ev)

  def result(self, f, solver, h, o, a, single):
    if solver == "gmres":
      x, info = o
      c = self.coords(f, x) if self.same_shape(f, x) else np.zeros(f["m"])
      fin = bool(np.all(np.isfinite(c))) and np.max(np.abs(c)) < 30
      return {"x": apx(c, single), "info": int(info), "shape": self.same_shape(f, x), "finite": int(bool(np.all(np.isfinite(c)))), "small": int(fin)}
    w, vs = o
    w = np.asarray(dense(w) if not isinstance(w, (list, tuple)) else np.array([complex(t) for t in w])).reshape(-1)
    sh = int(all(self.same_shape(f, v) for v in vs))
    cs = [self.coords(f, v) if sh else np.zeros(f["m"]) for v in vs]
    fin = bool(np.all(np.isfinite(w)) and all(np.all(np.isfinite(c)) for c in cs))
    return {"w": [apx(complex(t) if solver == "eigs" else float(np.real(t)), single) for t in w] if fin else [],
            "im": int(solver != "eigs" and fin and bool(np.max(np.abs(np.imag(w)), initial=0) > 1e-3)),
            "v": [apx(c, single) for c in cs] if fin else [], "shape": sh, "finite": int(fin)}

  def certify(self, f, h, a, v0, single):
    """spectrum with eigenvectors, and whether the start vector sees all of it."""
    herm = a["kind"] == "herm" or np.array_equal(h, h.conj().T)
    ok = 0
    if herm:
      w, V = np.linalg.eigh(h)
      V1 = V.conj().T
    else:
      w, V = np.linalg.eig(h)
      if np.linalg.cond(V) < 20:
        V1 = np.linalg.inv(V)
      else:
        V1 = None
    gap = min([abs(w[i] - w[j]) for i in range(len(w)) for j in range(i)] or [1.])
    if V1 is not None and gap > .15:
      if v0 is None:
        ok = int(a["solver"] != "lanczos" or True)
      else:
        x = self.coords(f, self.pool[v0])
        ok = int(np.min(np.abs(V1 @ x)) > .05 * np.linalg.norm(x))
    # order
    wh = a["which"] if a["solver"] != "lanczos" else "SA"
    ck = {"SA": lambda t: t.real, "SR": lambda t: t.real, "LR": lambda t: -t.real, "LA": lambda t: -t.real,
          "LM": lambda t: -abs(t), "SM": lambda t: abs(t)}.get(wh, lambda t: 0)
    p = sorted(range(len(w)), key=lambda j: (round(float(ck(w[j])), 6), float(np.imag(w[j]))))
    w, V = w[p], V[:, p]
    k = a["numeig"]
    sep = int(0 < k <= len(w) and (k == len(w) or ck(w[k]) - ck(w[k - 1]) > .1))
    a["cert"] = {"w": apx_(w.astype(complex), F), "V": apx_(V.astype(complex), F), "sees": ok, "sep": sep, "herm": int(herm)}

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 47)
  traces = []
  t0 = time.time()
  for i in range(args.n):
    if args.secs and time.time() - t0 > args.secs:
      break
    w = World(rng)
    for j in range(rng.randint(2, 9)):
      w.step()
    traces.append({"id": "krylov-%s-%d-%d" % (B, args.shard, i), "steps": w.steps})
  write_traces(args.out, traces)

main()
