"""Histories of charge objects (S02): constructions, group operations,
selections and index maps, every operand referred to by pool position."""
import time
from common import *
args = parse_args()
block_imports("jax", "tensorflow")
from tensornetwork.block_sparse.charge import (U1Charge, Z2Charge, ZNCharge, BaseCharge, fuse_charges, charge_equal)
from tensornetwork.block_sparse.index import Index, fuse_indices
from tensornetwork.block_sparse import utils as ut
from tensornetwork.block_sparse import blocksparse_utils as bu

ZN = {3: ZNCharge(3), 4: ZNCharge(4), 5: ZNCharge(5)}
TYPE = {0: U1Charge, 2: Z2Charge, **ZN}
MOD = {v: k for k, v in TYPE.items()}

def rec(c):
  a = np.asarray(c.charges)
  if a.ndim != 2:  # not a charge object any more: unequal to anything expected
    return {"m": [-1], "q": [[-9999, int(v)] for v in a.reshape(-1)]}
  return {"m": [MOD[t] for t in c.charge_types], "q": [[int(v) for v in row] for row in a]}

def qlist(a, w=None):
  a = np.asarray(a)
  if a.ndim == 1:
    a = a[:, None]
  return [[int(v) for v in row] for row in a]

def il(a):
  return [int(v) for v in np.asarray(a).reshape(-1)]

class Run:
  def __init__(self, rng):
    self.rng = rng
    self.m = rng.choice([[0], [0], [2], [3], [5], [0, 0], [0, 2], [2, 2], [4, 0], [0, 2, 3], [0, 0, 0], [2, 0, 3, 0], [0, 0, 0, 0, 0]])
    self.big = rng.random() < .12 and 0 in self.m
    self.dt = np.int32 if self.big else rng.choice([np.int16, np.int16, np.int16, np.int32])
    self.pool = []
    self.dead = False
    self.steps = []

  def val(self, k, rng):
    m = self.m[k]
    if m:
      return rng.randrange(m)
    if self.big:
      return rng.choice([-1, 1]) * rng.randint(20000, 70000)
    return rng.randint(-self.span, self.span)

  def vec(self):
    return [self.val(k, self.rng) for k in range(len(self.m))]

  def new(self):
    rng = self.rng
    n = rng.choice([1, 1, 2, 3, 3, 4, 5, 6]) if rng.random() > .02 else 0
    self.span = rng.choice([0, 1, 1, 2, 3])
    q = [self.vec() for _ in range(n)]
    badq = False
    if rng.random() < .04 and n and any(self.m):
      k = rng.choice([k for k in range(len(self.m)) if self.m[k]])
      if all(self.m) and len(self.m) == 1:
        q[rng.randrange(n)][k] = rng.choice([-1, self.m[k], self.m[k] + 3])
        badq = True
    badq = badq and any(v[0] not in range(self.m[0]) for v in q) if badq else False
    arr = np.array(q, dtype=np.int64).reshape(n, len(self.m))
    T = [TYPE[x] for x in self.m]
    dt = self.dt
    lab = rng.random() < .35 and n > 0
    def make():
      kw = {} if dt is np.int16 and rng.random() < .6 else {"charge_dtype": dt}
      if lab:
        u = []
        for v in q:
          if v not in u:
            u.append(v)
        if rng.random() < .5:
          rng.shuffle(u)
        labels = [u.index(v) for v in q]
        L = rng.choice([list, np.array])(labels)
        if len(T) == 1:
          return T[0](np.array(u), charge_labels=np.array(labels), **kw) if badq or rng.random() < .5 else BaseCharge(np.array(u), charge_labels=np.array(labels), charge_types=T, **kw)
        return BaseCharge(np.array(u), charge_labels=L, charge_types=list(T), **kw)
      if len(T) == 1:
        if badq or rng.random() < .7:
          return T[0](rng.choice([lambda: [v[0] for v in q], lambda: arr[:, 0], lambda: arr])() if n else arr, **kw)
        return BaseCharge(arr, charge_types=T, **kw)
      if all(x == 0 for x in self.m) and rng.random() < .3:
        return U1Charge(arr, **kw)
      return BaseCharge(arr, charge_types=list(T), **kw)
    self.call("new", {"m": self.m, "q": q}, make, lambda c: {**rec(c), "dim": int(c.dim), "len": len(c)}, push=1)

  def call(self, op, a, f, conv, push=0, ids=()):
    st = {"op": op, "a": a, "ok": 1, "exc": "", "r": {}, "push": push, "look": []}
    try:
      out = f()
      st["r"] = conv(out)
      if push and np.asarray(out.charges).ndim != 2:
        self.dead = True
        st["push"] = push = 0
      if push:
        if any(t not in MOD for t in out.charge_types):
          raise KeyError("charge type")
        self.pool.append(out)
    except RecursionError:
      raise
    except Exception as e:
      st["ok"] = 0
      st["exc"] = "%s: %s" % (type(e).__name__, str(e)[:150])
      st["r"] = {}
    n0 = len(self.pool) - (1 if push and st["ok"] else 0)
    for i in set(ids) | ({self.rng.randrange(n0)} if n0 else set()):
      st["look"].append({"i": i, **rec(self.pool[i])})
    self.steps.append(st)
    return st["ok"]

  def pick(self, nonempty=False, top=60):
    # charges whose sums could leave the declared integer type are outside the precondition
    big = lambda c: len(c) and np.max(np.abs(np.asarray(c.charges))) > (5000 if c.dtype == np.int16 else 10 ** 7) and not (self.big and c.dtype == np.int16)
    c = [i for i in range(len(self.pool)) if len(self.pool[i]) <= top and not big(self.pool[i]) and len(self.mods(i)) == len(self.m) and (not nonempty or len(self.pool[i]))]
    return self.rng.choice(c) if c else None

  def mods(self, i):
    return [MOD[t] for t in self.pool[i].charge_types]

  def several(self, kmax=3, top=80, nonempty=True):
    rng = self.rng
    xs = []
    d = 1
    for _ in range(rng.randint(1, kmax)):
      x = self.pick(nonempty)
      if x is None:
        break
      if d * max(1, len(self.pool[x])) > top:
        continue
      d *= max(1, len(self.pool[x]))
      xs.append(x)
    return xs

  def targets(self, q):
    rng = self.rng
    t = [v for v in {tuple(v) for v in q} if rng.random() < .5]
    for _ in range(rng.randint(0, 2)):
      t.append(tuple(self.vec()))
    rng.shuffle(t)
    if rng.random() < .2 and t:
      t.append(t[0])
    return [list(v) for v in t] or [self.vec()]

  def step(self):
    rng = self.rng
    P = self.pool
    x = self.pick()
    if len(P) < 2 or x is None or rng.random() < .12:
      return self.new()
    op = rng.choice(["labels", "add", "add", "dual", "dual", "matmul", "getitem", "getitem", "copy", "iter", "identity", "eq", "charge_equal",
                     "charge_equal", "unique", "unique", "intersect", "intersect", "reduce", "reduce", "fuse", "fuse", "index", "index_eq",
                     "degen", "unique_fused", "num_nonzero", "reduce_charges", "reduce_charges", "lookup", "aunique", "aintersect",
                     "fuse_ndarrays", "fuse_strides", "random", "zn", "bigdegen"])
    c = P[x]
    call = self.call
    if op == "labels":
      def f():
        if rng.random() < .5:
          return c.unique_charges, c.charge_labels, c.num_unique
        l = c.charge_labels
        return c.unique_charges, l, c.num_unique
      call(op, {"x": x}, f, lambda r: {"u": qlist(r[0]), "inv": il(r[1]), "nu": int(r[2])}, ids=[x])
    elif op == "add":
      y = self.pick()
      if len(c) * len(P[y]) > 80:
        return
      call(op, {"x": x, "y": y}, lambda: c + P[y], rec, 1, [x, y])
    elif op == "dual":
      f = rng.randint(0, 1)
      call(op, {"x": x, "f": f}, rng.choice([lambda: c.dual(bool(f)), lambda: c * bool(f), lambda: c * np.bool_(f)]), rec, 1, [x])
    elif op == "matmul":
      ys = [i for i in range(len(P)) if len(P[i]) == len(c)]
      y = rng.choice(ys) if rng.random() < .85 else rng.randrange(len(P))
      if len(self.mods(x)) + len(self.mods(y)) > 6:
        return
      call(op, {"x": x, "y": y}, lambda: c @ P[y], rec, 1, [x, y])
    elif op == "getitem":
      if not len(c):
        return
      if rng.random() < .3:
        i = rng.randrange(-len(c), len(c))
        call(op, {"x": x, "ix": [i]}, lambda: c[i], rec, 1, [x])
      else:
        ix = [rng.randrange(-len(c), len(c)) for _ in range(rng.randint(1, 6))]
        arg = rng.choice([list, np.array])(ix)
        call(op, {"x": x, "ix": ix}, lambda: c[arg], rec, 1, [x])
    elif op == "copy":
      call(op, {"x": x}, lambda: c.copy(), rec, 1, [x])
    elif op == "iter":
      call(op, {"x": x}, lambda: list(c), lambda r: {"q": [il(v) for v in r]}, ids=[x])
    elif op == "identity":
      n = rng.randint(1, 3)
      call(op, {"x": x, "n": n}, lambda: c.identity_charges(n) if n > 1 or rng.random() < .5 else c.identity_charges(), rec, 1, [x])
    elif op == "eq":
      if not len(c):
        return
      if rng.random() < .6:
        ys = [i for i in range(len(P)) if len(P[i]) and self.mods(i) == self.mods(x) and type(P[i]) is type(c)]
        y = rng.choice(ys)
        call(op, {"x": x, "y": y}, lambda: c == P[y], lambda r: [[int(v) for v in row] for row in r], ids=[x, y])
      else:
        t = self.targets(rec(c)["q"])
        if any(len(v) != len(self.mods(x)) for v in t):
          return
        arr = np.array(t)
        if arr.shape[1] == 1 and rng.random() < .5:
          arr = arr[:, 0]
        call(op, {"x": x, "y": -1, "t": t}, lambda: c == arr, lambda r: [[int(v) for v in row] for row in r], ids=[x])
    elif op == "charge_equal":
      same = [i for i in range(len(P)) if self.mods(i) == self.mods(x)]
      eq = [i for i in same if rec(P[i])["q"] == rec(c)["q"]]
      y = rng.choice(eq) if rng.random() < .6 else rng.choice(same)
      call(op, {"x": x, "y": y}, lambda: charge_equal(c, P[y]), lambda r: int(r), ids=[x, y])
    elif op == "unique":
      ix, inv, cnt = [rng.random() < .5 for _ in range(3)]
      def conv(r):
        if not (ix or inv or cnt):
          u, rest = r, []
        else:
          u, rest = r[0], list(r[1:])
        d = {**{"m": rec(u)["m"]}, "u": rec(u)["q"], "q": rec(u)["q"], "hasix": int(ix), "hasinv": int(inv), "hascnt": int(cnt), "ix": [], "inv": [], "cnt": []}
        for k, on in (("ix", ix), ("inv", inv), ("cnt", cnt)):
          if on:
            d[k] = il(rest.pop(0))
        if rest:
          raise ValueError("too many results")
        self.last = u
        return d
      kw = {}
      if ix: kw["return_index"] = True
      if inv: kw["return_inverse"] = True
      if cnt: kw["return_counts"] = True
      if not len(c):
        return
      if call(op, {"x": x}, lambda: c.unique(**kw), conv, ids=[x]):
        self.keep(self.last)
    elif op == "intersect":
      if not len(c):
        return
      ret = rng.random() < .6
      if rng.random() < .6:
        ys = [i for i in range(len(P)) if len(P[i]) and self.mods(i) == self.mods(x) and isinstance(P[i], type(c)) and P[i].dtype == c.dtype]
        if not ys:
          return
        y = rng.choice(ys); t = []; other = P[y]
        oq = rec(P[y])["q"]
      else:
        y = -1
        t = self.targets(rec(c)["q"])
        if any(len(v) != len(self.mods(x)) for v in t):
          return
        other = np.array(t, dtype=self.dt if self.big else c.dtype)
        if other.shape[1] == 1 and rng.random() < .5:
          other = other[:, 0]
        oq = t
      uq = lambda q: len({tuple(v) for v in q}) == len(q)
      kw = {"assume_unique": True} if uq(rec(c)["q"]) and uq(oq) and rng.random() < .5 else {}
      if ret: kw["return_indices"] = True
      def conv(r):
        u = r[0] if ret else r
        self.last = u
        return {"m": rec(u)["m"], "u": rec(u)["q"], "q": rec(u)["q"], "hasix": int(ret), "ia": il(r[1]) if ret else [], "ib": il(r[2]) if ret else []}
      if call(op, {"x": x, "y": y, "t": t}, lambda: c.intersect(other, **kw), conv, ids=[x] + ([y] if y >= 0 else [])):
        self.keep(self.last)
    elif op == "reduce":
      if not len(c):
        return
      t = self.targets(rec(c)["q"])
      if any(len(v) != len(self.mods(x)) for v in t):
        return
      arg = np.array(t, dtype=self.dt if self.big else c.dtype)
      if len(self.mods(x)) == 1:
        r = rng.random()
        if r < .2:
          t = t[:1]; arg = int(t[0][0])
        elif r < .5:
          arg = arg[:, 0]
      loc = rng.randint(0, 1); st = rng.choice([1, 1, 2, 5])
      kw = {"return_locations": True} if loc else {}
      if st != 1: kw["strides"] = st
      def conv(r):
        o = r[0] if loc else r
        self.last = o
        return {**rec(o), "loc": il(r[1]) if loc else []}
      if call(op, {"x": x, "t": t, "loc": loc, "st": st}, lambda: c.reduce(arg, **kw), conv, ids=[x]):
        self.keep(self.last)
    elif op == "fuse":
      xs = self.several()
      if not xs: return
      f = [rng.randint(0, 1) for _ in xs]
      fl = rng.choice([lambda: [bool(v) for v in f], lambda: np.array([bool(v) for v in f])])()
      call(op, {"xs": xs, "f": f}, lambda: fuse_charges([P[i] for i in xs], fl), rec, 1, xs)
    elif op == "index":
      xs = self.several()
      if not xs: return
      f = [rng.randint(0, 1) for _ in xs]
      way = rng.randrange(4)
      def make():
        if way == 0:
          return Index([P[i] for i in xs], [bool(v) for v in f])
        single = [Index(P[i], bool(v)) for i, v in zip(xs, f)]
        if way == 1:
          return fuse_indices(single)
        r = single[0]
        for s in single[1:]:
          r = r * s
        return r.copy() if way == 3 else r
      def conv(ix):
        fl = ix.flip_flow()
        return {"q": rec(ix.charges)["q"], "dim": int(ix.dim), "flat": [int(v) for v in ix.flat_flows], "flip": rec(fl.charges)["q"]}
      call(op, {"xs": xs, "f": f}, make, conv, ids=xs)
    elif op == "index_eq":
      xs = self.several(2)
      if not xs: return
      ys = list(xs)
      f = [rng.randint(0, 1) for _ in xs]
      g = list(f)
      for k in range(len(ys)):
        eq = [i for i in range(len(P)) if self.mods(i) == self.mods(xs[k]) and (rng.random() < .2 or rec(P[i])["q"] == rec(P[xs[k]])["q"])]
        ys[k] = rng.choice(eq or [ys[k]])
      if rng.random() < .15:
        g[0] = 1 - g[0]
      if rng.random() < .15 and len(ys) > 1:
        ys.pop(); g.pop()
      A = Index([P[i] for i in xs], [bool(v) for v in f]); Bx = Index([P[i] for i in ys], [bool(v) for v in g])
      call(op, {"xs": xs, "ys": ys, "f": f, "g": g}, lambda: A == Bx, lambda r: int(r), ids=xs + ys)
    elif op in ("degen", "unique_fused", "num_nonzero"):
      xs = self.several()
      if not xs: return
      f = [rng.randint(0, 1) for _ in xs]
      fl = rng.choice([lambda: [bool(v) for v in f], lambda: np.array([bool(v) for v in f])])()
      cs = [P[i] for i in xs]
      if op == "degen":
        call(op, {"xs": xs, "f": f}, lambda: bu.compute_fused_charge_degeneracies(cs, fl), lambda r: {"u": rec(r[0])["q"], "cnt": il(r[1])}, ids=xs)
      elif op == "unique_fused":
        call(op, {"xs": xs, "f": f}, lambda: bu.compute_unique_fused_charges(cs, fl), lambda r: {"u": rec(r)["q"]}, ids=xs)
      else:
        call(op, {"xs": xs, "f": f}, lambda: bu.compute_num_nonzero(cs, fl), lambda r: int(r), ids=xs)
    elif op == "bigdegen":
      # the branch for more than 20000 fused entries
      if rng.random() > .06 or len(self.m) > 2 or self.big:
        return
      ids = []
      for n in (rng.randint(25, 40), rng.randint(25, 40), rng.randint(25, 32)):
        self.span = 2
        q = [self.vec() for _ in range(n)]
        if not call("new", {"m": self.m, "q": q}, lambda: BaseCharge(np.array(q), charge_types=[TYPE[k] for k in self.m]), lambda c: {**rec(c), "dim": int(c.dim), "len": len(c)}, push=1):
          return
        ids.append(len(P) - 1)
      f = [rng.randint(0, 1) for _ in ids]
      call("degen", {"xs": ids, "f": f}, lambda: bu.compute_fused_charge_degeneracies([P[i] for i in ids], [bool(v) for v in f]), lambda r: {"u": rec(r[0])["q"], "cnt": il(r[1])}, ids=ids)
    elif op == "reduce_charges":
      xs = self.several()
      if not xs: return
      f = [rng.randint(0, 1) for _ in xs]
      cs = [P[i] for i in xs]
      fl = [bool(v) for v in f]
      if len({c.dtype for c in cs}) > 1: return
      t = self.targets(rec(fuse_charges(cs, fl))["q"])
      t = [list(v) for v in {tuple(v) for v in t}]
      loc, hasst = rng.randint(0, 1), rng.randint(0, 1)
      st = [rng.randint(1, 20) for _ in xs]
      kw = {}
      if loc: kw["return_locations"] = True
      if hasst: kw["strides"] = np.array(st)
      def conv(r):
        o = r[0] if loc else r
        return {**rec(o), "loc": il(r[1]) if loc else []}
      call(op, {"xs": xs, "f": f, "t": t, "loc": loc, "hasst": hasst, "st": st}, lambda: bu.reduce_charges(cs, fl, np.array(t, dtype=self.dt if self.big else cs[0].dtype), **kw), conv, ids=xs)
    elif op == "lookup":
      xs = self.several()
      y = self.pick(True)
      if not xs or y is None: return
      f = [rng.randint(0, 1) for _ in xs]
      cs = [P[i] for i in xs]
      if len({c.dtype for c in cs + [P[y]]}) > 1: return
      tc = P[y].unique()
      def conv(r):
        lk, u, lab = r
        uq = rec(u)["q"]
        return {"u": uq, "q": [uq[i] for i in il(lk)], "lab": il(lab)}
      call(op, {"xs": xs, "f": f, "y": y}, lambda: bu.compute_sparse_lookup(cs, [bool(v) for v in f], tc), conv, ids=xs + [y])
    elif op in ("aunique", "aintersect"):
      w = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9])
      dt = rng.choice([np.int8, np.int16, np.int32, np.int64])
      mx = rng.choice([1, 1, 2, 100])
      def arr(n):
        a = np.array([[rng.randint(-mx, mx) for _ in range(max(w, 1))] for _ in range(n)], dtype=dt).reshape(n, max(w, 1))
        if n > 1 and rng.random() < .6:
          a[rng.randrange(n)] = a[rng.randrange(n)]
        return a if w else a[:, 0]
      A = arr(rng.randint(1, 7))
      if op == "aunique":
        ix, inv, cnt = [rng.random() < .5 for _ in range(3)]
        kw = {}
        if ix: kw["return_index"] = True
        if inv: kw["return_inverse"] = True
        if cnt: kw["return_counts"] = True
        def conv(r):
          if ix or inv or cnt:
            u, rest = r[0], list(r[1:])
          else:
            u, rest = r, []
          d = {"u": qlist(np.asarray(u).reshape(-1, max(w, 1))), "hasix": int(ix), "hasinv": int(inv), "hascnt": int(cnt), "ix": [], "inv": [], "cnt": []}
          for k, on in (("ix", ix), ("inv", inv), ("cnt", cnt)):
            if on:
              d[k] = il(rest.pop(0))
          return d
        call(op, {"t": qlist(A)}, lambda: ut.unique(A, **kw), conv)
      else:
        Bx = arr(rng.randint(1, 7))
        for i in range(len(Bx)):
          if rng.random() < .5:
            Bx[i] = A[rng.randrange(len(A))]
        ret = rng.random() < .6
        ax = 1 if w and rng.random() < .3 else 0
        uq = lambda q: len({tuple(v) for v in qlist(q)}) == len(q)
        kw = {"return_indices": True} if ret else {}
        if uq(A) and uq(Bx) and rng.random() < .5:
          kw["assume_unique"] = True
        def f():
          if ax:
            return ut.intersect(np.ascontiguousarray(A.T), np.ascontiguousarray(Bx.T), axis=1, **kw)
          return ut.intersect(A, Bx, **kw)
        def conv(r):
          u = r[0] if ret else r
          u = np.asarray(u)
          if ax: u = u.T
          return {"u": qlist(u.reshape(-1, max(w, 1))), "hasix": int(ret), "ia": il(r[1]) if ret else [], "ib": il(r[2]) if ret else []}
        call(op, {"t": qlist(A), "t2": qlist(Bx)}, f, conv)
    elif op == "fuse_ndarrays":
      arrs = [[rng.randint(-5, 5) for _ in range(rng.randint(1, 4))] for _ in range(rng.randint(1, 3))]
      call(op, {"arrs": arrs}, lambda: ut.fuse_ndarrays([np.array(a) if rng.random() < .5 else a for a in arrs]), il)
    elif op == "fuse_strides":
      dims = [rng.randint(1, 4) for _ in range(rng.randint(1, 3))]
      st = [rng.randint(1, 9) for _ in dims]
      call(op, {"dims": dims, "st": st}, lambda: ut.fuse_stride_arrays(rng.choice([list, np.array])(dims), rng.choice([list, np.array])(st)), il)
    elif op == "random":
      k = rng.choice([0, 2, 3, 5])
      lo, hi = (rng.randint(-4, 0), rng.randint(0, 4)) if k == 0 else (0, k - 1) if k == 2 else (rng.randint(0, 1), rng.randint(1, k - 1))
      n = rng.randint(1, 6)
      if [k] != self.m: return
      call(op, {"n": n, "lo": lo, "hi": hi}, lambda: TYPE[k].random(n, lo, hi), rec, 1)
    elif op == "zn":
      n = rng.choice([-1, 0, 1, 2, 7])
      call(op, {"n": n}, lambda: ZNCharge(n), lambda r: {})

  def keep(self, c):
    """adopt a result into the pool through a recorded 'new'-like step."""
    if self.rng.random() < .5:
      r = rec(c)
      self.call("new", {"m": r["m"], "q": r["q"]}, lambda: c, lambda c: {**rec(c), "dim": int(c.dim), "len": len(c)}, push=1)

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 11)
  traces = []
  t0 = time.time()
  for i in range(args.n):
    if time.time() - t0 > args.secs:
      break
    np.random.seed(rng.randrange(2 ** 31))
    r = Run(rng)
    while len(r.steps) < 22 and not r.dead:
      try:
        r.step()
      except RecursionError:
        raise
      except Exception as e:  # an object of the pool can no longer be read
        r.steps.append({"op": "unreadable", "a": {}, "ok": 0, "exc": repr(e)[:150], "r": {}, "push": 0, "look": []})
        break
    traces.append({"id": "ch-%d-%d" % (args.shard, i), "steps": r.steps})
  write_traces(args.out, traces)

main()
