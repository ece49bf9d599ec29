"""Histories of block-sparse tensors (S01)."""
import time
from sparse_common import *
from scipy.sparse.linalg import ArpackError, ArpackNoConvergence
args = parse_args()

def pick_list(rng, q):
  return rng.choice([list, tuple, np.array])(q) if q else rng.choice([list, tuple])(q)

S04 = args.profile == "S04"
CA = bs.get_cacher()

def cstate():
  return [int(bs.get_caching_status()), len(CA.cache)]

class Stop(Exception):
  pass

class Run:
  def __init__(self, rng):
    self.rng = rng
    self.bank = Bank(rng)
    self.pool = []
    self.steps = []
    self.top = 72

  def call(self, op, a, f, conv=None, push=1, ids=()):
    st = {"op": op, "a": a, "ok": 1, "exc": "", "r": {}, "push": 0, "look": []}
    n0 = len(self.pool)
    u = None
    if S04 and not st.get("plain"):
      u = self.twin(f, conv or rec)
      st["c0"] = cstate()
    try:
      out = f()
      if S04:
        st["c1"] = cstate()
      st["r"] = (conv or rec)(out)
      if push and dense(out).size <= self.top and np.max(np.abs(dense(out)), initial=0) < 2000 and len(out.shape) <= 6:
        self.pool.append(out)
        st["push"] = 1
    except RecursionError:
      raise
    except Exception as e:
      st["ok"] = 0
      st["exc"] = "%s: %s" % (type(e).__name__, str(e)[:150])
      st["r"] = {}
    if S04:
      st["u"] = u
      st.setdefault("c1", cstate())
    for i in set(ids) | ({self.rng.randrange(n0)} if n0 else set()):
      st["look"].append({"i": i, **rec(self.pool[i])})
    self.steps.append(st)
    return st["ok"]

  def twin(self, f, conv):
    """the same call with caching disabled."""
    on, keep = bs.get_caching_status(), CA.cache
    rs, ns = self.rng.getstate(), np.random.get_state()
    CA.cache = {}
    bs.disable_caching()
    try:
      return {"ok": 1, "r": conv(f())}
    except RecursionError:
      raise
    except Exception:
      return {"ok": 0, "r": {}}
    finally:
      bs.set_caching_status(on)
      CA.cache = keep
      self.rng.setstate(rs)
      np.random.set_state(ns)

  def cache(self):
    rng = self.rng
    w = rng.choice(["enable", "enable", "disable", "set1", "set0", "clear", "status"])
    st = {"op": "cache", "a": {"w": w}, "ok": 1, "exc": "", "r": {}, "push": 0, "look": [], "c0": cstate(), "u": {"ok": 1, "r": {}}}
    out = {"enable": bs.enable_caching, "disable": bs.disable_caching, "set1": lambda: bs.set_caching_status(True),
           "set0": lambda: bs.set_caching_status(False), "clear": bs.clear_cache, "status": bs.get_caching_status}[w]()
    st["r"] = {"v": int(bool(out)) if w == "status" else 0, "empty": int(CA.is_empty)}
    st["c1"] = cstate()
    self.steps.append(st)

  def solver(self):
    """an iterative solver opens a caching scope of its own around its callback."""
    rng = self.rng
    leg, extra = rng.choice(self.bank.legs), rng.choice(self.bank.legs)
    ix, jx = self.bank.index(leg, False), self.bank.index(extra, rng.random() < .5)
    n = int(ix.dim)
    if n * jx.dim > 40:
      return
    m = np.random.RandomState(rng.randrange(10 ** 6)).randint(-2, 3, (n, n)).astype(float)
    m = m + m.T + 10 * n * np.eye(n)
    H = BlockSparseTensor.fromdense([ix, ix.copy().flip_flow()], m)
    v = BlockSparseTensor.ones([ix, jx]) if rng.random() < .7 else BlockSparseTensor.ones([ix])
    if v.data.size < 1:
      return
    if rng.random() < .4 and v.ndim == 2:
      v = BlockSparseTensor.ones([jx, ix]).transpose([1, 0])
    kind = rng.choice(["lanczos", "lanczos", "gmres", "gmres", "eigs"])
    if kind == "eigs" and v.data.size < 6:
      kind = "gmres"
    enable, fail, nest = rng.random() < .6, rng.random() < .25, rng.random() < .3
    inner = rng.random() < .5
    def run(en, log):
      calls = [0]
      def A(x, H):
        log.append(int(bs.get_caching_status()))
        calls[0] += 1
        if fail and log is not ref and calls[0] == 2:
          raise Stop()
        if nest and calls[0] == 1:
          BE.gmres(lambda y: bs.tensordot(H, y, ([1], [0])), v.copy(), num_krylov_vectors=1, enable_caching=inner)
          log.append(int(bs.get_caching_status()))
        return bs.tensordot(H, x, ([1], [0]))
      if kind == "lanczos":
        e, U = BE.eigsh_lanczos(A, [H], initial_state=v, num_krylov_vecs=min(4, v.data.size), reorthogonalize=True, enable_caching=en)
        return np.concatenate([np.asarray(e).ravel()[:1], np.abs(dense(U[0])).ravel()])
      if kind == "gmres":
        x, info = BE.gmres(A, v, A_args=[H], num_krylov_vectors=min(8, v.size), maxiter=20, x0=v, enable_caching=en)
        assert x.shape == v.shape
        return dense(x).ravel()
      e, U = BE.eigs(A, [H], initial_state=v, num_krylov_vecs=5, numeig=1, enable_caching=en)
      assert U[0].shape == v.shape
      return np.sort(np.abs(e))
    ref = []
    st = {"op": "solver", "a": {"w": kind, "enable": int(enable), "fail": int(fail), "nest": int(nest)}, "ok": 1, "exc": "", "push": 0, "look": [],
          "u": {"ok": 1, "r": {}}}
    on, keep = bs.get_caching_status(), CA.cache
    bs.disable_caching()
    CA.cache = {}
    before = [rec(H), rec(v)]
    try:
      want = run(False, ref)
    except Exception as e:
      want = "%s: %s" % (type(e).__name__, str(e)[:150])
    bs.set_caching_status(on)
    CA.cache = keep
    log = []
    st["c0"] = cstate()
    try:
      got = run(enable, log)
    except Stop:
      got = None
    except Exception as e:
      got = "%s: %s" % (type(e).__name__, str(e)[:150])
    st["c1"] = cstate()
    same = 1
    if got is not None:
      if isinstance(got, str) or isinstance(want, str):
        same = int(not isinstance(got, np.ndarray) and not isinstance(want, np.ndarray))
        st["exc"] = "%s / %s" % (got, want)
        st["ok"] = 0
      else:
        same = int(got.shape == want.shape and np.allclose(got, want, atol=1e-4, rtol=1e-4))
    st["r"] = {"same": same, "log": log, "raised": int(got is None), "intact": int(before == [rec(H), rec(v)])}
    self.steps.append(st)

  def solver_legs(self):
    """what an iterative solver hands to its callback and returns has the legs of the start vector."""
    rng = self.rng
    x = self.some(lambda T: isinstance(T, BlockSparseTensor) and 0 < T.data.size and 0 < T.ndim)
    if x is None:
      return
    X = self.pool[x]
    kind = rng.choice(["lanczos", "gmres", "eigs"] if X.data.size >= 6 else ["lanczos", "gmres"])
    if not np.any(X.data):
      kind = "gmres"
    seen = []
    def A(v):
      if not seen:
        seen.append(legs(v))
      return v * 2.0
    def f():
      if kind == "lanczos":
        return BE.eigsh_lanczos(A, initial_state=X, num_krylov_vecs=2, delta=1e-5)[1][0]
      if kind == "gmres":
        return BE.gmres(A, X, x0=bs.zeros_like(X), num_krylov_vectors=1, maxiter=2)[0]
      w = 1.0 + np.arange(X.data.size)
      def D(v):
        r = A(v)
        return BlockSparseTensor(r.data * w, r._charges, r._flows, r._order, False)
      try:
        return BE.eigs(D, initial_state=X * 1.0, num_krylov_vecs=4, numeig=1, maxiter=200)[1][0]
      except (ArpackError, ArpackNoConvergence):  # an unlucky start vector: only the callback is judged
        return X
    self.call("solverlegs", {"x": x, "w": kind}, f, lambda T: {"seen": seen[:1] or [legs(X)], "out": legs(T), "shape": [int(d) for d in T.shape]}, 0, [x])

  def kind(self):
    return self.rng.choice(["float", "float", "complex", "float32"])

  def new(self):
    rng = self.rng
    legs_ = self.bank.pick(rng.choice([1, 2, 2, 2, 3, 3, 4]), self.top)
    ix = [self.bank.index(l, f) for l, f in legs_]
    leg = [[{"q": qrec(c), "f": int(f)} for c, f in zip(i.flat_charges, i.flat_flows)] for i in ix]
    shape = [int(i.dim) for i in ix]
    w = rng.random()
    if w < .8:
      t = rand_tensor(rng, shape, self.kind())
      if rng.random() < .03:
        t = rand_tensor(rng, shape[:-1] + [shape[-1] + 1])
      return self.call("fromdense", {"leg": leg, "t": tj(t)}, lambda: BlockSparseTensor.fromdense(ix, t))
    if w < .9:
      v = rng.randint(0, 1)
      f = rng.choice([(bs.ones if v else bs.zeros), (BE.ones if v else BE.zeros), (BlockSparseTensor.ones if v else BlockSparseTensor.zeros)])
      dt = rng.choice([np.float64, np.complex128])
      return self.call("const", {"leg": leg, "v": v}, lambda: f(ix, dtype=dt))
    f = rng.choice([lambda: bs.randn(ix, dtype=np.float64), lambda: bs.random(ix, (1.0, 2.0), np.float64), lambda: BE.randn(ix, dtype=np.float64, seed=10),
                    lambda: BE.random_uniform(ix, boundaries=(1.0, 2.0), dtype=np.complex128, seed=3)])
    def conv(T):
      d = {"leg": legs(T), "t": tj(np.where(dense(T) != 0, 1, 0)), "nd": int(T.data.size), "arr": 0}
      d["x"] = d["t"]["x"]
      return d
    return self.call("random", {"leg": leg}, f, conv, 0)

  def some(self, pred=None):
    c = [i for i in range(len(self.pool)) if pred is None or pred(self.pool[i])]
    return self.rng.choice(c) if c else None

  def step(self):
    rng = self.rng
    P = self.pool
    if len(P) < 2 or rng.random() < .14:
      return self.new()
    if S04:
      w = rng.random()
      if w < .25:
        return self.cache()
      if w < .33:
        return self.solver()
    isb = lambda T: isinstance(T, BlockSparseTensor)
    op = rng.choice(["transpose", "transpose", "transpose", "reshape", "reshape", "reshape", "conj", "H", "contiguous", "contiguous", "copy", "add", "add", "sub",
                     "scale", "tensordot", "tensordot", "tensordot", "tensordot", "tensordot", "outer", "matmul", "trace", "trace", "trace", "diagm", "diagv", "diagv", "normsq", "item",
                     "compare", "like", "eye", "bright", "bleft", "net", "net", "net", "abs", "abs", "addm", "solverlegs"])
    x = self.some(None if op in ("transpose", "reshape", "conj", "contiguous", "diagv", "H", "item") and rng.random() < .5 else isb)
    if x is None:
      return
    X = P[x]
    r = X.ndim
    B = isb(X)
    if op == "solverlegs":
      return self.solver_legs()
    if op == "transpose":
      perm = rng.sample(range(r), r)
      w = rng.random()
      if w < .15:
        perm = [p - r if rng.random() < .5 else p for p in perm]
      elif w < .2 and r > 1:
        perm = perm[:-1]
      elif w < .23 and r > 1:
        perm[0] = perm[1]
      arg = pick_list(rng, perm)
      fs = [lambda: X.transpose(arg), lambda: bs.transpose(X, arg), lambda: X.transpose(arg, shuffle=True), lambda: BE.transpose(X, arg)]
      if r == 2 and perm == [1, 0]:
        fs += [lambda: X.T, lambda: X.transpose()]
      if perm == list(range(r - 1, -1, -1)):
        fs.append(lambda: BE.transpose(X))
      self.call(op, {"x": x, "perm": perm}, rng.choice(fs), ids=[x])
    elif op == "reshape":
      dims = [c.dim for cs in X.charges for c in cs]
      if not dims:
        return
      shape = []
      k = 0
      while k < len(dims):
        n = rng.choice([1, 1, 2, 2, 3])
        shape.append(int(np.prod(dims[k:k + n]))); k += n
      w = rng.random()
      if w < .05:
        shape[0] += 1
      elif w < .1:
        shape = [shape[0] * 2] + shape[1:] if rng.random() < .5 else shape + [1]
      arg = rng.choice([list, tuple, np.array])(shape)
      fs = [lambda: X.reshape(arg), lambda: bs.reshape(X, arg)]
      if B:
        fs.append(lambda: BE.reshape(X, arg))
      self.call(op, {"x": x, "shape": shape}, rng.choice(fs), ids=[x])
    elif op == "conj":
      self.call(op, {"x": x}, rng.choice([X.conj, lambda: bs.conj(X), lambda: BE.conj(X)]), ids=[x])
    elif op == "H":
      self.call(op, {"x": x}, lambda: X.H, ids=[x])
    elif op == "contiguous":
      if not B:
        return self.call(op, {"x": x, "perm": [0]}, X.contiguous, lambda T: rec(T, True), ids=[x])
      perm = []
      if rng.random() < .25 and len(X._charges) > 0:
        perm = rng.sample(range(len(X._charges)), len(X._charges))
        f = lambda: X.contiguous(np.array(perm))
      else:
        f = X.contiguous if rng.random() < .5 else (lambda: X.contiguous(inplace=True))
      self.call(op, {"x": x, "perm": perm}, f, lambda T: rec(T, True), ids=[x])
    elif op == "copy":
      self.call(op, {"x": x}, X.copy, ids=[x])
    elif op in ("add", "sub", "compare"):
      same = [i for i in range(len(P)) if isb(P[i]) and P[i].shape == X.shape and legs(P[i]) == legs(X)]
      y = rng.choice(same) if rng.random() < .85 else self.some(isb)
      Y = P[y]
      if op == "compare":
        return self.call(op, {"x": x, "y": y}, lambda: bs.compare_shapes(X, Y), int, 0, [x, y])
      fs = {"add": [lambda: X + Y, lambda: BE.addition(X, Y)], "sub": [lambda: X - Y, lambda: BE.subtraction(X, Y)]}[op]
      self.call(op, {"x": x, "y": y}, rng.choice(fs), ids=[x, y])
    elif op == "addm":
      # the same tensor reached along another route: permute, reorder storage, permute back
      if r < 2:
        return
      p = rng.sample(range(r), r)
      inv = [p.index(k) for k in range(r)]
      def other():
        Y = X.transpose(p, shuffle=rng.random() < .7)
        if rng.random() < .5:
          Y = Y.contiguous()
        return Y.transpose(inv)
      self.call("copy", {"x": x}, other, ids=[x])
      if self.steps[-1]["push"]:
        y = len(P) - 1
        a, b = rng.choice([(x, y), (y, x)])
        o = rng.choice(["add", "sub"])
        f = (lambda: P[a] + P[b]) if o == "add" else (lambda: P[a] - P[b])
        self.call(o, {"x": a, "y": b}, f, ids=[a, b])
        self.call("compare", {"x": a, "y": b}, lambda: bs.compare_shapes(P[a], P[b]), int, 0, [a, b])
    elif op == "scale":
      z = rng.choice([[2, 0], [-1, 0], [3, 0], [0, 1], [1, -2], [0, 0]])
      num = z[0] if z[1] == 0 else complex(*z)
      num = rng.choice([num, np.float64(num) if z[1] == 0 else np.complex128(num)])
      fs = [lambda: X * num, lambda: num * X, lambda: BE.multiply(X, num)]
      if z[1] == 0 and z[0]:
        fs += [lambda: X / (1 / num) if z[0] != 3 else X * num, lambda: BE.divide(X, 1 / num) if z[0] != 3 else X * num]
      if z == [-1, 0]:
        fs += [lambda: -X]
      if isinstance(num, np.generic):
        fs = [lambda: X * num, lambda: BE.multiply(X, num)]
      self.call(op, {"x": x, "z": z}, rng.choice(fs), ids=[x])
    elif op == "tensordot":
      # contract axes with mirror legs of another tensor (or of the conjugate of this one)
      y = self.some(isb)
      if rng.random() < .35:
        self.call("conj", {"x": x}, X.conj, ids=[x])
        if not self.steps[-1]["push"]:
          return
        y = len(P) - 1
      Y = P[y]
      lx, ly = legs(X), legs(Y)
      mir = lambda p, q: [(e["q"], e["f"]) for e in p] == [(e["q"], 1 - e["f"]) for e in q]
      pairs = [(i, j) for i in range(r) for j in range(Y.ndim) if mir(lx[i], ly[j])]
      rng.shuffle(pairs)
      ax, bx = [], []
      n = rng.choice([0, 1, 1, 2, 2, 3, 4])
      for i, j in pairs:
        if i not in ax and j not in bx and len(ax) < n:
          ax.append(i); bx.append(j)
      w = rng.random()
      if w < .08:
        i, j = rng.randrange(max(r, 1)), rng.randrange(max(Y.ndim, 1))
        if r and Y.ndim and i not in ax and j not in bx:
          ax.append(i); bx.append(j)
      elif w < .1 and ax:
        ax[0] = r
      elif w < .12 and ax:
        ax.pop()
      elif w < .14 and ax:
        ax.append(ax[0]); bx.append(bx[0])
      elif w < .3:
        ax = [i - r if rng.random() < .5 else i for i in ax]
        bx = [j - Y.ndim if rng.random() < .5 else j for j in bx]
      res = int(np.prod([d for i, d in enumerate(X.shape) if i not in [q % max(r, 1) for q in ax]] + [d for j, d in enumerate(Y.shape) if j not in [q % max(Y.ndim, 1) for q in bx]] or [1]))
      if res > 200:
        return
      arg = rng.choice([lambda: (list(ax), list(bx)), lambda: [tuple(ax), tuple(bx)], lambda: (np.array(ax, dtype=int), np.array(bx, dtype=int))])()
      n = len(ax)
      fs = [lambda: bs.tensordot(X, Y, arg), lambda: BE.tensordot(X, Y, arg)]
      if n == len(bx) and ax == list(range(r - n, r)) and bx == list(range(n)) and n > 0:
        fs += [lambda: bs.tensordot(X, Y, n)] * 2
        if n == 1 and r <= 2 and Y.ndim <= 2:
          fs.append(lambda: X @ Y)
      self.call(op, {"x": x, "y": y, "ax": ax, "bx": bx}, rng.choice(fs), ids=[x, y])
    elif op == "outer":
      y = self.some(isb)
      Y = P[y]
      if dense(X).size * dense(Y).size > 200:
        return
      fs = [lambda: bs.outerproduct(X, Y), lambda: bs.tensordot(X, Y, 0), lambda: BE.outer_product(X, Y), lambda: bs.tensordot(X, Y, ([], []))]
      self.call("tensordot", {"x": x, "y": y, "ax": [], "bx": []}, rng.choice(fs), ids=[x, y])
    elif op == "matmul":
      y = self.some(lambda T: isb(T) and T.ndim == 2)
      if y is None or r != 2:
        return
      Y = P[y]
      self.call("tensordot", {"x": x, "y": y, "ax": [1], "bx": [0]}, rng.choice([lambda: X @ Y, lambda: BE.matmul(X, Y)]), ids=[x, y])
    elif op == "trace":
      lx = legs(X)
      mir = lambda p, q: [(e["q"], e["f"]) for e in p] == [(e["q"], 1 - e["f"]) for e in q]
      pairs = [(i, j) for i in range(r) for j in range(r) if i != j and mir(lx[i], lx[j])]
      if not pairs and rng.random() < .8:
        # build a tensor that can be traced
        leg = rng.choice(self.bank.legs)
        extra = self.bank.pick(rng.randint(0, 2), 10) if rng.random() < .7 else []
        both = [(leg, False), (leg, True)] + extra
        rng.shuffle(both)
        ix = [self.bank.index(l, f) for l, f in both]
        if np.prod([i.dim for i in ix]) > 300:
          return
        t = rand_tensor(rng, [int(i.dim) for i in ix], self.kind())
        old = self.top
        self.top = 300
        lg = [[{"q": qrec(c), "f": int(f)} for c, f in zip(i.flat_charges, i.flat_flows)] for i in ix]
        self.call("fromdense", {"leg": lg, "t": tj(t)}, lambda: BlockSparseTensor.fromdense(ix, t))
        self.top = old
        if not self.steps[-1]["push"]:
          return
        x = len(P) - 1
        X = P[x]; r = X.ndim
        if rng.random() < .6 and len(X._charges) > 2:
          # shuffle the elementary legs of the traced axes the same way
          el = [c.dim for cs in X.charges for c in cs]
          nels = [len(cs) for cs in X.charges]
          start = np.cumsum([0] + nels)
          i, j = [k for k in range(r) if both[k][0] is leg][:2]
          p = rng.sample(range(nels[i]), nels[i])
          full = list(range(len(el)))
          for k in range(nels[i]):
            full[start[i] + k] = int(start[i]) + p[k]
            full[start[j] + k] = int(start[j]) + p[k]
          shape = [int(d) for d in X.shape]
          self.call("reshape", {"x": x, "shape": el}, lambda: X.reshape(el), ids=[x])
          if not self.steps[-1]["push"]: return
          Z = P[-1]
          self.call("transpose", {"x": len(P) - 1, "perm": full}, lambda: Z.transpose(full), ids=[len(P) - 1])
          if not self.steps[-1]["push"]: return
          W = P[-1]
          self.call("reshape", {"x": len(P) - 1, "shape": shape}, lambda: W.reshape(shape), ids=[len(P) - 1])
          if not self.steps[-1]["push"]: return
          x = len(P) - 1
          X = P[x]
        lx = legs(X)
        pairs = [(i, j) for i in range(r) for j in range(r) if i != j and mir(lx[i], lx[j])]
      if pairs and rng.random() < .9:
        axes = list(rng.choice(pairs))
      else:
        axes = [rng.randrange(max(r, 1)), rng.randrange(max(r, 1))]
      if rng.random() < .3:
        axes = [a - r if rng.random() < .5 else a for a in axes]
      ar = rng.choice([list, tuple])(axes)
      fs = [lambda: bs.trace(X, ar), lambda: BE.trace(X, axis1=ar[0], axis2=ar[1])]
      if [a % max(r, 1) for a in axes] == [r - 2, r - 1]:
        fs += [lambda: bs.trace(X), lambda: BE.trace(X)]
      def conv(o):
        if isinstance(o, BlockSparseTensor):
          return rec(o)
        return {"leg": [], "t": tj(o), "nd": 1, "arr": 0, "x": tj(o)["x"]}
      f = rng.choice(fs)
      def wrap():
        o = f()
        return o
      self.call(op, {"x": x, "axes": axes}, wrap, conv, push=0, ids=[x])
    elif op == "diagm":
      self.call(op, {"x": x}, rng.choice([lambda: bs.diag(X), lambda: BE.diagonal(X)]), ids=[x])
    elif op == "diagv":
      if B or r != 1 or X.shape[0] > 8:
        # make a one-dimensional ChargeArray (possibly fused and permuted)
        leg = rng.choice(self.bank.legs)
        ix = self.bank.index(leg, rng.random() < .5)
        vals = rand_tensor(rng, [int(ix.dim)], self.kind())
        order = rng.sample(range(len(leg)), len(leg)) if rng.random() < .5 else list(range(len(leg)))
        def make():
          C = ChargeArray(vals, ix.flat_charges, ix.flat_flows, order=[list(order)])
          return C
        T0 = make()
        self.call("adopt", {"x": 0}, make)
        if not self.steps[-1]["push"]: return
        x = len(P) - 1; X = P[x]
      self.call(op, {"x": x}, rng.choice([lambda: bs.diag(X), lambda: BE.diagflat(X)]), ids=[x])
    elif op == "normsq":
      self.call(op, {"x": x}, rng.choice([lambda: bs.norm(X), lambda: BE.norm(X)]), lambda v: int(round(float(v) ** 2)), 0, [x])
    elif op == "item":
      x = self.some(lambda T: dense(T).size == 1) if rng.random() < .8 else x
      if x is None: return
      X = P[x]
      self.call(op, {"x": x}, rng.choice([X.item, lambda: BE.item(X)]), tj, 0, [x])
    elif op == "like":
      v = rng.randint(0, 1)
      lo, hi = rng.choice([(0, 1), (2, 3), (-4, -2)])
      way = rng.choice(["const", "const", "random", "randn", "empty"])
      def like():
        if way == "const":
          return (bs.ones_like if v else bs.zeros_like)(X)
        r = bs.random_like(X, boundaries=(lo, hi)) if way == "random" else bs.randn_like(X) if way == "randn" else bs.empty_like(X)
        # the structure is compared with that of a constant; the values only have to be in range
        d = r.data
        good = way != "random" or np.all((d.real >= lo) & (d.real <= hi))
        good = good and d.dtype == X.data.dtype and not np.shares_memory(d, X.data)
        d[...] = v if good else 7
        return r
      self.call(op, {"x": x, "v": v}, like, ids=[x])
    elif op == "eye":
      l1, f1 = rng.choice(self.bank.legs), rng.random() < .5
      i1 = self.bank.index(l1, f1)
      if i1.dim > 8: return
      er = lambda i: [{"q": qrec(c), "f": int(f)} for c, f in zip(i.flat_charges, i.flat_flows)]
      if rng.random() < .6:
        i2 = i1.copy().flip_flow()
        f = rng.choice([lambda: bs.eye(i1), lambda: BE.eye(i1)])
      else:
        i2 = self.bank.index(rng.choice(self.bank.legs), rng.random() < .5)
        if i2.dim > 8: return
        f = rng.choice([lambda: bs.eye(i1, i2), lambda: BE.eye(i1, M=i2), lambda: bs.eye(i1, i2, dtype=np.complex128)])
      self.call(op, {"leg": [er(i1), er(i2)]}, f)
    elif op in ("bright", "bleft"):
      if r == 0: return
      ax = r - 1 if op == "bright" else 0
      ix = X.sparse_shape[ax]
      ix = ix.copy().flip_flow() if op == "bright" else ix
      if rng.random() < .1:
        ix = self.bank.index(rng.choice(self.bank.legs), rng.random() < .5)
      vals = rand_tensor(rng, [int(ix.dim)], "float")
      self.call("adopt", {"x": 0}, lambda: ChargeArray(vals, ix.flat_charges, ix.flat_flows, order=[list(range(len(ix.flat_charges)))]))
      if not self.steps[-1]["push"]: return
      y = len(P) - 1
      Y = P[y]
      f = (lambda: BE.broadcast_right_multiplication(X, Y)) if op == "bright" else (lambda: BE.broadcast_left_multiplication(Y, X))
      self.call(op, {"x": x, "y": y}, f, ids=[x, y])
    elif op == "abs":
      if X.dtype.kind == "c": return
      o = rng.choice(["abs", "sign", "square"])
      if o == "square" and maxabs(X.data) > 30:
        o = "sign"
      self.call(o, {"x": x}, lambda: {"abs": rng.choice([bs.abs, BE.abs] + [lambda t: rng.choice([bs.sqrt, BE.sqrt])(t ** 2)] * (maxabs(X.data) < 1000)),
                                      "sign": rng.choice([bs.sign, BE.sign]), "square": lambda t: t ** 2}[o](X), ids=[x])
    elif op == "net":
      self.net()

  def net(self):
    """a small network of nodes / ncon call on the symmetric backend."""
    rng = self.rng
    P = self.pool
    isb = lambda T: isinstance(T, BlockSparseTensor) and T.ndim > 0
    n = rng.choice([1, 2, 2, 3])
    xs = []
    for _ in range(n):
      x = self.some(isb)
      if x is None: return
      xs.append(x)
    if rng.random() < .4 and n > 1:
      X = P[xs[0]]
      self.call("conj", {"x": xs[0]}, X.conj, ids=[xs[0]])
      if not self.steps[-1]["push"]: return
      xs[1] = len(P) - 1
    mir = lambda p, q: [(e["q"], e["f"]) for e in p] == [(e["q"], 1 - e["f"]) for e in q]
    slots = [(t, a) for t in range(len(xs)) for a in range(P[xs[t]].ndim)]
    lg = {s: legs(P[xs[s[0]]])[s[1]] for s in slots}
    lab = {}
    nxt = 0
    rng.shuffle(slots)
    for s in slots:
      if s in lab: continue
      part = [u for u in slots if u not in lab and u != s and mir(lg[s], lg[u])]
      if part and rng.random() < .8:
        u = rng.choice(part)
        lab[s] = lab[u] = nxt
      else:
        lab[s] = nxt
      nxt += 1
    labs = [[lab[(t, a)] for a in range(P[xs[t]].ndim)] for t in range(len(xs))]
    cnt = [sum(r.count(k) for r in labs) for k in range(nxt)]
    out = [k for k in range(nxt) if cnt[k] == 1]
    rng.shuffle(out)
    dims = {k: P[xs[t]].shape[a] for (t, a), k in lab.items()}
    if np.prod([dims[k] for k in out] or [1]) > 150 or np.prod([float(d) for d in dims.values()]) > 30000:
      return
    ts = [P[x] for x in xs]
    con = [k for k in range(nxt) if cnt[k] == 2]
    rng.shuffle(con)
    def via_ncon():
      num = {k: i + 1 for i, k in enumerate(con)}
      num.update({k: -(i + 1) for i, k in enumerate(out)})
      return tn.ncon(ts, [[num[k] for k in r] for r in labs], backend="symmetric")
    def via_nodes():
      nodes = [tn.Node(t, backend="symmetric") for t in ts]
      edge = {}
      for k in con:
        a, b = [(t, ax) for t in range(len(xs)) for ax in range(len(labs[t])) if labs[t][ax] == k]
        edge[k] = tn.connect(nodes[a[0]][a[1]], nodes[b[0]][b[1]])
      oute = []
      for k in out:
        (t, ax), = [(t, ax) for t in range(len(xs)) for ax in range(len(labs[t])) if labs[t][ax] == k]
        oute.append(nodes[t][ax])
      w = rng.randrange(3)
      if w == 0 or len(nodes) == 1:
        res = tn.contractors.greedy(nodes, output_edge_order=oute)
      elif w == 1:
        nodes = [tn.contract_trace_edges(nd) if len(set(r)) < len(r) else nd for nd, r in zip(nodes, labs)]
        if len(nodes) == 2:
          res = tn.contract_between(nodes[0], nodes[1], allow_outer_product=True)
        else:
          res = tn.contract_between(tn.contract_between(nodes[0], nodes[1], allow_outer_product=True), nodes[2], allow_outer_product=True)
        res = res.reorder_edges(oute)
      else:
        if len(tn.get_shared_edges(nodes[0], nodes[1])) > 1:
          tn.flatten_edges_between(nodes[0], nodes[1])
        res = tn.contractors.optimal(nodes, output_edge_order=oute)
      return res.tensor
    if rng.random() < .5:
      f = via_ncon
    else:
      f = via_nodes
    self.call("net", {"xs": xs, "labs": labs, "out": out}, f, lambda T: rec(T), ids=xs)

class Script(Run):
  """Executes one program of the specification (SparseModel.tla)."""
  def __init__(self, rng, prog):
    super().__init__(rng)
    self.bank.m = prog[0][1]
    self.top = 4000
    _, m, lg = prog[0]
    def charge(e):
      arr = np.array(e["q"], dtype=np.int16).reshape(len(e["q"]), len(m))
      return TYPE[m[0]](arr[:, 0]) if rng.random() < .5 else BaseCharge(arr, charge_types=[TYPE[k] for k in m])
    typed = {}
    for ax in lg:
      for e in ax:
        typed.setdefault(json.dumps(e["q"]), charge(e))
    if len({type(c) for c in typed.values()}) > 1:
      typed = {k: BaseCharge(c.charges, charge_types=[TYPE[x] for x in m]) for k, c in typed.items()}
    ix = [Index([typed[json.dumps(e["q"])] for e in ax], [bool(e["f"]) for e in ax]) for ax in lg]
    shape = [int(i.dim) for i in ix]
    size = int(np.prod(shape))
    t = (((7 * np.arange(1, size + 1)) % 5) - 2).reshape(shape).astype(rng.choice([np.float64, np.complex128]))
    if t.dtype.kind == "c":
      t = t * rng.choice([1, 1j, 1 + 1j])
    self.call("fromdense", {"leg": lg, "t": tj(t)}, lambda: BlockSparseTensor.fromdense(ix, t))
    x = 0
    for op in prog[1:]:
      if not self.steps[-1]["ok"] or not self.steps[-1]["push"]:
        break
      X = self.pool[x]
      w = op[0]
      if w == "transpose":
        p = op[1]
        self.call(w, {"x": x, "perm": p}, rng.choice([lambda: X.transpose(p), lambda: bs.transpose(X, tuple(p)), lambda: BE.transpose(X, p),
                                                      lambda: X.transpose(p, shuffle=True)]), ids=[x])
      elif w == "reshape":
        s = op[1]
        self.call(w, {"x": x, "shape": s}, rng.choice([lambda: X.reshape(s), lambda: bs.reshape(X, tuple(s)), lambda: BE.reshape(X, np.array(s))]), ids=[x])
      elif w == "conj":
        self.call(w, {"x": x}, rng.choice([X.conj, lambda: bs.conj(X), lambda: BE.conj(X)]), ids=[x])
      elif w == "contiguous":
        self.call(w, {"x": x, "perm": []}, X.contiguous, lambda T: rec(T, True), ids=[x])
      elif w == "trace":
        ax = [op[1], op[2]]
        if rng.random() < .3:
          ax.reverse()
        def conv(o):
          return rec(o) if isinstance(o, BlockSparseTensor) else {"leg": [], "t": tj(o), "nd": 1, "arr": 0, "x": tj(o)["x"]}
        self.call(w, {"x": x, "axes": ax}, rng.choice([lambda: bs.trace(X, tuple(ax)), lambda: BE.trace(X, axis1=ax[0], axis2=ax[1])]), conv,
                  push=int(X.ndim > 2), ids=[x])
      else:
        self.call("conj", {"x": 0}, self.pool[0].conj, ids=[0])
        y = len(self.pool) - 1
        Y = self.pool[y]
        ax, bx = op[1], op[2]
        if rng.random() < .3:
          fs = [lambda: bs.tensordot(Y, X, (bx, ax)), lambda: BE.tensordot(Y, X, (bx, ax))]
          last = prog[-1] is op
          if last:
            self.call("tensordot", {"x": y, "y": x, "ax": bx, "bx": ax}, rng.choice(fs), push=0, ids=[x, y])
            break
        self.call("tensordot", {"x": x, "y": y, "ax": ax, "bx": bx}, rng.choice([lambda: bs.tensordot(X, Y, (ax, bx)), lambda: BE.tensordot(X, Y, (ax, bx))]), ids=[x, y])
      x = len(self.pool) - 1

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 13)
  traces = []
  t0 = time.time()
  progs = None
  if args.script:
    with open(args.script) as f:
      progs = [json.loads(l) for l in f]
    random.Random(args.seed).shuffle(progs)
    progs = progs[args.shard % 4::4][:args.n]
    bs.clear_cache()
    (bs.enable_caching if S04 else bs.disable_caching)()
  for i in range(len(progs) if progs is not None else args.n):
    if time.time() - t0 > args.secs:
      break
    if progs is not None:
      c = cstate()
      r = Script(rng, progs[i])
      traces.append({"id": "sp-model-%d-%d" % (args.shard, i), "m": r.bank.m, "prof": args.profile, "c": c, "steps": r.steps})
      continue
    np.random.seed(rng.randrange(2 ** 31))
    if not S04:
      bs.disable_caching(); bs.clear_cache()
    elif rng.random() < .5:
      bs.enable_caching()
    r = Run(rng)
    c = cstate()
    g = 0
    while len(r.steps) < 20 and g < 400:
      g += 1
      try:
        r.step()
      except RecursionError:
        raise
      except Exception as e:
        if os.environ.get("VP_DEBUG"):
          raise
        r.steps.append({"op": "unreadable", "a": {}, "ok": 0, "exc": repr(e)[:150], "r": {}, "push": 0, "look": [], "u": {"ok": 1, "r": {}}, "c0": cstate(), "c1": cstate()})
        break
    traces.append({"id": "sp-%d-%d" % (args.shard, i), "m": r.bank.m, "prof": args.profile, "c": c, "steps": r.steps})
  write_traces(args.out, traces)

main()
