"""Decompositions of block-sparse tensors with exactly known spectra (S03)."""
import time, math
from sparse_common import *
import decomp_inputs as di
args = parse_args()
T0 = {"s": [0, 0], "d": [], "c": 0, "x": 1}
NONE = {"leg": [], "t": dict(T0, f=1, e=0), "nd": 0, "arr": 1}

def arec(T, f=4096):
  d = {"leg": legs(T), "t": di.apx(dense(T), f), "nd": int(T.data.size), "arr": 0 if isinstance(T, BlockSparseTensor) else 1}
  return d

def row_charges(bank, legs_, dual=False):
  """signed total charge (tuple) of every row-major index of the legs."""
  q = [tuple([0] * len(bank.m))]
  for leg, flip in legs_:
    for c, f in leg:
      sg = -1 if bool(f) != flip else 1
      vs = [tuple(sg * int(v) for v in row) for row in np.asarray(c.charges)]
      q = [tuple(a + b for a, b in zip(x, y)) for x in q for y in vs]
  if dual:
    q = [tuple(-v for v in x) for x in q]
  return [tuple(v % n if n else v for v, n in zip(x, bank.m)) for x in q]

def unimodular(rng, n):
  a = np.eye(n); b = np.eye(n)
  for _ in range(n + 1):
    i, j = rng.randrange(n), rng.randrange(n)
    if i != j:
      k = rng.choice([1, -1])
      e = np.eye(n); e[i, j] = k
      g = np.eye(n); g[i, j] = -k
      a = a @ e; b = g @ b
  p = di.signed_perm(rng, n, False)
  return a @ p, p.T @ b

class Case:
  def __init__(self, rng):
    self.rng = rng
    self.bank = Bank(rng)
    self.steps = []

  def pick_legs(self, square, matrix):
    rng = self.rng
    nl, nr = (1, 1) if matrix else (rng.choice([1, 1, 2, 2]), rng.choice([1, 1, 2]))
    for _ in range(50):
      L = self.bank.pick(nl, 9 if square else 12)
      if square:
        return L, [(leg, not fl) for leg, fl in L]
      R = self.bank.pick(nr, 12)
      if rng.random() < .5 and nl == nr == 1:
        R = [(L[0][0], not L[0][1])]
      if len(L) == nl and len(R) == nr:
        if set(row_charges(self.bank, L)) & set(row_charges(self.bank, R, True)) or rng.random() < .1:
          return L, R
    return L, R

  def tensor(self, L, R, mat, dt):
    """a symmetric tensor with that matrix, with some storage history."""
    rng = self.rng
    ls = L + R
    ix = [self.bank.index(l, f) for l, f in ls]
    arr = mat.reshape([int(i.dim) for i in ix]).astype(dt)
    r = len(ix)
    w = rng.random()
    if w < .4:
      return BlockSparseTensor.fromdense(ix, arr)
    p = list(range(r)); rng.shuffle(p)
    T = BlockSparseTensor.fromdense([ix[i] for i in p], np.transpose(arr, p)).transpose([p.index(i) for i in range(r)])
    if w > .8:
      T = T.contiguous()
    return T

  def spectrum(self, L, R, cx, zero=True):
    rng = self.rng
    rq, cq = row_charges(self.bank, L), row_charges(self.bank, R, True)
    m, n = len(rq), len(cq)
    mat = np.zeros((m, n), complex if cx else float)
    cols = []
    for q in sorted(set(rq) & set(cq)):
      ri = [i for i in range(m) if rq[i] == q]; ci = [i for i in range(n) if cq[i] == q]
      if zero and rng.random() < .12:
        q1, q2, sv, sig = np.eye(len(ri)), np.eye(len(ci)), [0] * min(len(ri), len(ci)), [0] * min(len(ri), len(ci))
      else:
        g = di.known(rng, len(ri), len(ci), cx)
        _, q1, q2, sv, sig = g
      for k in range(len(sv)):
        u = np.zeros(m, complex); u[ri] = q1[:, k]
        v = np.zeros(n, complex); v[ci] = q2[k, :]
        cols.append((sig[k], list(q), sv[k], u, v))
        mat = mat + sv[k] * np.outer(u, v) if cx else mat + (sv[k] * np.outer(u, v)).real
    cols.sort(key=lambda c: -c[0])
    K = len(cols)
    fix = (lambda x: x) if cx else (lambda x: x.real)
    q1 = fix(np.array([c[3] for c in cols]).T) if K else np.zeros((m, 0))
    q2 = fix(np.array([c[4] for c in cols])) if K else np.zeros((0, n))
    return mat, dict(q1=tj(q1), q2=tj(q2), sv=[int(c[2]) for c in cols], pairs=[[c[1], int(c[0])] for c in cols])

  def trunc(self, pairs, may=True):
    if not may or not pairs or self.rng.random() < .25:
      return dict(maxx=0, max=0, errx=0, ep=0, eq=1, rel=0)
    sig = [p[1] for p in pairs]
    if sig[0] == 0:
      return dict(maxx=1, max=self.rng.randint(1, len(sig) + 1), errx=0, ep=0, eq=1, rel=0)
    return di.trunc(self.rng, sig)

  def call(self, op, a, T, f, conv, **info):
    st = {"op": op, "a": a, "ok": 1, "exc": "", "r": {}, "same": 1, "call": info}
    a.setdefault("bad", 0)
    before = rec(T, True)
    a["leg"], a["t"] = before["leg"], before["t"]
    try:
      try:
        st["r"] = conv(f())
      finally:
        st["same"] = int(rec(T, True) == before)
    except Exception as e:
      st["ok"], st["exc"] = 0, "%s: %s" % (type(e).__name__, str(e)[:200])
    self.steps.append(st)

  def dt(self, cx):
    return self.rng.choice([np.complex128, np.complex128, np.complex64]) if cx else self.rng.choice([np.float64, np.float64, np.float32])

  def svd(self):
    rng = self.rng
    cx = rng.random() < .35
    L, R = self.pick_legs(False, False)
    mat, sp = self.spectrum(L, R, cx)
    T = self.tensor(L, R, mat, self.dt(cx))
    tr = self.trunc(sp["pairs"])
    a = dict(sp, **tr, p=len(L))
    w = rng.random()
    if w < .6:
      p = len(L) if rng.random() < .6 else -len(R)
      f = lambda: BE.svd(T, p, **di.kw(tr, "max_truncation_error"))
      conv = lambda o: {"l": arec(o[0]), "m": arec(o[1]), "r": arec(o[2]), "d": arec(o[3]), "mx": 1, "dx": 1}
      return self.call("svd", a, T, f, conv, pivot=p, dt=str(T.dtype))
    node = tn.Node(T, backend="symmetric")
    le, re = node.edges[:len(L)], node.edges[len(L):]
    kw = di.kw(tr, "max_truncation_err")
    if w < .8:
      f = lambda: tn.split_node(node, le, re, **kw)
      conv = lambda o: {"l": arec(o[0].tensor), "r": arec(o[1].tensor), "d": arec(o[2]), "m": NONE, "mx": 0, "dx": 1}
    else:
      f = lambda: tn.split_node_full_svd(node, le, re, **kw)
      conv = lambda o: {"l": arec(o[0].tensor), "m": arec(o[1].tensor), "r": arec(o[2].tensor), "d": arec(o[3]), "mx": 1, "dx": 1}
    self.call("svd", a, T, f, conv, node=1, dt=str(T.dtype))

  def bsvd(self):
    rng = self.rng
    cx = rng.random() < .35
    L, R = self.pick_legs(False, True)
    mat, sp = self.spectrum(L, R, cx)
    T = self.tensor(L, R, mat, self.dt(cx))
    fm, uv = int(rng.random() < .5), int(rng.random() < .75)
    a = dict(sp, fm=fm, uv=uv, p=1)
    f = lambda: bs.svd(T, full_matrices=bool(fm), compute_uv=bool(uv))
    conv = lambda o: {"l": arec(o[0]), "m": arec(o[1]), "r": arec(o[2])} if uv else {"l": NONE, "m": arec(o), "r": NONE}
    self.call("bsvd", a, T, f, conv, dt=str(T.dtype))

  def qr(self):
    rng = self.rng
    cx = rng.random() < .35
    w = rng.random()
    L, R = self.pick_legs(False, w > .7)
    rq, cq = row_charges(self.bank, L), row_charges(self.bank, R, True)
    mat = rand_tensor(rng, (len(rq), len(cq)), "complex" if cx else "float")
    mat = np.where(np.array([[r == c for c in cq] for r in rq]), mat, 0)
    if rng.random() < .2:
      mat[rng.randrange(len(rq)), :] = 0
    T = self.tensor(L, R, mat, self.dt(cx))
    meth, mode = rng.choice(["qr", "rq"]), "reduced"
    p = len(L) if rng.random() < .6 else -len(R)
    conv = lambda o: {"l": arec(o[0]), "r": arec(o[1])}
    if w < .45:
      f = lambda: (BE.qr if meth == "qr" else BE.rq)(T, p)
    elif w < .7:
      node = tn.Node(T, backend="symmetric")
      le, re = node.edges[:len(L)], node.edges[len(L):]
      f = lambda: (tn.split_node_qr if meth == "qr" else tn.split_node_rq)(node, le, re)
      conv = lambda o: {"l": arec(o[0].tensor), "r": arec(o[1].tensor)}
    else:
      meth, mode = "qr", rng.choice(["reduced", "complete", "r"])
      f = lambda: bs.qr(T, mode)
      if mode == "r":
        conv = lambda o: {"l": NONE, "r": arec(o)}
    self.call("qr", dict(p=len(L), meth=meth, mode=mode), T, f, conv, dt=str(T.dtype))

  def eig(self):
    rng = self.rng
    meth = rng.choice(["eigh", "eigh", "eig"])
    cx = rng.random() < .35 and meth == "eigh"
    L, R = self.pick_legs(True, True)
    rq = row_charges(self.bank, L)
    m = len(rq)
    mat = np.zeros((m, m), complex if cx else float)
    pairs = []
    for q in sorted(set(rq)):
      ri = [i for i in range(m) if rq[i] == q]
      n = len(ri)
      ev = [rng.randint(-4, 4) for _ in range(n)]
      if meth == "eigh":
        Q, c = di.orth(rng, n, cx)
        blk = Q @ np.diag(ev) @ Q.conj().T
        ev = [v * c for v in ev]
      else:
        ev = rng.sample([-3, -2, -1, 0, 1, 2, 3, 4], n) if n <= 8 else list(range(n))
        P, Pi = unimodular(rng, n)
        blk = P @ np.diag(ev) @ Pi
      mat[np.ix_(ri, ri)] = blk
      pairs += [[list(q), int(v)] for v in ev]
    T = self.tensor(L, R, mat, self.dt(cx) if meth == "eigh" else np.float64)
    if meth == "eigh":
      up = rng.choice(["L", "U"])
      f = rng.choice([lambda: BE.eigh(T), lambda: bs.eigh(T, up)])
    else:
      f = lambda: bs.eig(T)
    self.call("eig", dict(p=1, meth=meth, pairs=pairs), T, f, lambda o: {"m": arec(o[0]), "l": arec(o[1])}, dt=str(T.dtype))

  def inv(self):
    rng = self.rng
    pin = rng.random() < .5
    L, R = self.pick_legs(not pin or rng.random() < .3, True)
    rq, cq = row_charges(self.bank, L), row_charges(self.bank, R, True)
    cx = rng.random() < .3
    mat = np.zeros((len(rq), len(cq)), complex if cx else float)
    for q in sorted(set(rq) & set(cq)):
      ri = [i for i in range(len(rq)) if rq[i] == q]; ci = [i for i in range(len(cq)) if cq[i] == q]
      if pin:
        m, n = len(ri), len(ci)
        d = np.zeros((m, n))
        for i in range(min(m, n)):
          d[i, i] = rng.choice([0, 1, 1, 2, -1])
        blk = di.signed_perm(rng, m, cx) @ d @ di.signed_perm(rng, n, cx)
        if rng.random() < .5:
          h, _ = di.orth(rng, m, cx)
          blk = h @ blk
      else:
        blk = unimodular(rng, len(ri))[0]
        if cx:
          blk = blk @ di.signed_perm(rng, len(ri), True)
      mat[np.ix_(ri, ci)] = blk
    T = self.tensor(L, R, mat, self.dt(cx))
    if pin:
      f, conv, op = (lambda: bs.pinv(T, rcond=1e-4)), (lambda o: {"l": arec(o, 8192)}), "pinv"
    else:
      f, conv, op = rng.choice([lambda: BE.inv(T), lambda: bs.inv(T)]), (lambda o: {"l": rec(o)}), "inv"
    self.call(op, dict(p=1), T, f, conv, dt=str(T.dtype))

  def sqrt(self):
    rng = self.rng
    L, R = self.pick_legs(False, False)
    rq, cq = row_charges(self.bank, L), row_charges(self.bank, R, True)
    mat = np.where(np.array([[r == c for c in cq] for r in rq]), rand_tensor(rng, (len(rq), len(cq)), lo=0, hi=5) ** 2, 0)
    T = self.tensor(L, R, mat, self.dt(False))
    self.call("sqrt", dict(p=len(L)), T, rng.choice([lambda: BE.sqrt(T), lambda: bs.sqrt(T)]), lambda o: {"l": rec(o)})

  def bad(self):
    """matrix decompositions of tensors that are not matrices."""
    rng = self.rng
    L = self.bank.pick(3, 12)
    T = bs.ones([self.bank.index(l, f) for l, f in L])
    if T.ndim == 2:
      return
    g = rng.choice([bs.svd, bs.qr, bs.eigh, bs.eig, bs.inv, bs.pinv, BE.inv, BE.eigh])
    self.call("inv", dict(p=1, bad=1), T, lambda: g(T), lambda o: {"l": NONE})

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 77)
  traces = []
  t0 = time.time()
  for i in range(args.n):
    if time.time() - t0 > args.secs:
      break
    c = Case(rng)
    for _ in range(5):
      op = rng.choice(["svd"] * 5 + ["bsvd"] * 2 + ["qr"] * 3 + ["eig"] * 2 + ["inv"] * 2 + ["sqrt", "bad"])
      try:
        getattr(c, op)()
      except Exception as e:
        if os.environ.get("VP_DEBUG"):
          raise
        c.steps.append({"op": "sqrt", "a": {"bad": 0}, "ok": 0, "exc": "unreadable %s: %s" % (type(e).__name__, str(e)[:200]), "r": {}, "same": 1})
    traces.append({"id": "sd-%d-%d" % (args.shard, i), "m": c.bank.m, "steps": c.steps})
  write_traces(args.out, traces)

main()
