"""Model MPOs and infinite MPO unit cells (M04)."""
from common import *
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
from tensornetwork.matrixproductstates import mpo as M
B = args.backend
num = np.asarray

def densemat(ts):
  t = None
  for a in ts:
    a = num(a).astype(np.complex128)
    t = a if t is None else np.einsum("abij,bckl->acikjl", t, a).reshape(t.shape[0], a.shape[1], t.shape[2] * a.shape[2], -1)
  return t[0, 0] if t.shape[:2] == (1, 1) else np.full((1, 1), np.nan)

def code(t):
  """a tensor as a string: equality is all that matters."""
  t = num(t)
  return "%s %s" % (t.shape, t.reshape(-1).tolist())

def kind(d):
  return str(np.dtype(d).kind)

class World:
  def __init__(self, rng):
    self.rng, self.steps, self.m = rng, [], None

  def log(self, op, a, f, conv):
    try:
      o = f()
      ok, exc = 1, ""
    except Exception as e:
      ok, exc, o = 0, "%s: %s" % (type(e).__name__, str(e)[:200]), None
    self.steps.append({"op": op, "a": a, "ok": ok, "exc": exc, "r": conv(o) if ok else {},
                       "cell": [code(t) for t in self.m.tensors] if self.m is not None else []})

  def model(self):
    rng = self.rng
    op = rng.choice(["xxz", "tfi", "ff2d"])
    q = rng.choice([1, 1, 2, 4])
    dt = rng.choice([np.float64, np.float64, np.complex128, np.float32, np.complex64])
    v = lambda n: [rng.randint(-4, 4) for _ in range(n)]
    arr = lambda x: np.array(x, dtype=rng.choice([np.float64, np.float32]) if q > 1 else rng.choice([np.float64, np.int64])) / (q if q > 1 else 1)
    n = rng.choice([2, 2, 3, 3, 4, 4, 5])
    kw = {} if rng.random() < .3 and B == "numpy" else {"backend": B}
    if op == "xxz":
      a = {"Jz": v(n - 1), "Jxy": v(n - 1), "Bz": v(n)}
      given = [arr(a["Jz"]), arr(a["Jxy"]), arr(a["Bz"])]
      cls = M.FiniteXXZ
    elif op == "tfi":
      a = {"Jx": v(n - 1), "Bz": v(n)}
      given = [arr(a["Jx"]), arr(a["Bz"])]
      cls = M.FiniteTFI
    else:
      N1, N2 = rng.choice([(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 2), (1, 4), (4, 1)] + [(2, 3), (3, 2)] * (rng.random() < .25) + [(1, 5), (5, 1)])
      t = v(3)
      a = {"t1": t[0], "t2": t[1], "v": t[2], "N1": N1, "N2": N2}
      given = [x / q for x in t]
      f = lambda: M.FiniteFreeFermion2D(*given, N1, N2, dt, **kw)
    keep = [np.array(x) for x in given]
    a["kind"] = kind(dt)
    if op != "ff2d":
      f = lambda: cls(*given, dt, **kw)
    def conv(m):
      h = densemat(m.tensors) * 4 * q
      h = h if kind(dt) == "c" else h.real
      bd = m.bond_dimensions
      return {"len": len(m), "h": tj(h), "kind": kind(num(m.tensors[0]).dtype), "ends": [int(bd[0]), int(bd[-1])],
              "alias": int(not all(np.array_equal(x, y) for x, y in zip(given, keep)) or [code(t) for t in m] != [code(t) for t in m.tensors])}
    self.m = None
    self.log(op, a, f, conv)

  def cell(self):
    rng = self.rng
    n = rng.choice([1, 2, 3, 4, 5])
    D = [rng.randint(1, 3) for _ in range(n)]
    D.append(D[0] if rng.random() < .93 else D[0] + 1)
    ts = [rand_tensor(rng, [D[k], D[k + 1], 2, 2]) for k in range(n)]
    if rng.random() < .05 and n > 1:
      ts[rng.randrange(1, n)] = np.ones((1, 1, 2, 2), dtype=np.int32)
    valid = int(D[0] == D[-1] and all(t.dtype == ts[0].dtype for t in ts))
    def f():
      self.m = M.InfiniteMPO(ts, backend=B)
      return self.m
    self.m = None
    self.log("cell", {"cell": [code(np.asarray(t, dtype=np.float32 if B == "jax" else None)) for t in ts], "D": D, "valid": valid}, f,
             lambda m: {"D": [int(x) for x in m.bond_dimensions]})
    if self.m is None:
      return
    for _ in range(rng.randint(1, 4)):
      k = rng.choice([0, 1, 1, 2, n - 1, n, n + 1, -1, -n, rng.randint(-7, 12)])
      self.log("roll", {"k": k}, lambda: self.m.roll(k), lambda o: {})

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 41)
  traces = []
  for i in range(args.n):
    w = World(rng)
    for _ in range(rng.randint(1, 3)):
      w.model() if rng.random() < .6 else w.cell()
    traces.append({"id": "mpo-%s-%d-%d" % (B, args.shard, i), "steps": w.steps})
  write_traces(args.out, traces)

main()
