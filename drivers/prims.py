"""Tensor primitives: backend methods (profile B01) and tn.Tensor / free
functions / node functions (profile B02)."""
import time, string
from common import *
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
from tensornetwork.backends import backend_factory
import tensornetwork.linalg.node_linalg as nl
import tensornetwork.linalg.initialization as tli
from tensornetwork import ncon_interface
BE = backend_factory.get_backend(args.backend)
B = args.backend
B02 = args.profile == "B02"
if B == "tensorflow":
  import tensorflow as tf
F = 4096
T0 = {"s": [0], "d": [], "c": 0, "x": 1}

def apx(x, f=F):
  a = np.asarray(x)
  e = 2 if a.dtype in (np.float32, np.complex64) else 1
  fl = a.reshape(-1)
  if not np.all(np.isfinite(fl)):
    return {"s": [int(v) for v in a.shape], "d": [2 ** 26] * fl.size, "c": 0, "f": f, "e": 0}
  q = lambda v: int(max(-2 ** 26, min(2 ** 26, round(float(v) * f))))
  s = [int(v) for v in a.shape]
  if np.iscomplexobj(fl):
    return {"s": s, "d": [[q(v.real), q(v.imag)] for v in fl], "c": 1, "f": f, "e": e}
  return {"s": s, "d": [q(v) for v in fl], "c": 0, "f": f, "e": e}

DT = {"float": np.float64, "float32": np.float32, "complex": np.complex128, "complex64": np.complex64, "int": np.int64}
def rnd(rng, shape, kind, lo=-3, hi=3):
  a = rand_tensor(rng, shape, "complex" if kind.startswith("complex") else "float", lo, hi)
  return a.astype(DT[kind])

def shape_of(rng, r, top=3, total=60):
  while True:
    s = [rng.choice([1, 2, 2, 3, 3, 4][:top + 3]) for _ in range(r)]
    if np.prod(s) <= total:
      return s

def neg(rng, r, a):
  return a - r if rng.random() < .4 else a

def badaxis(rng, r):
  return rng.choice([r, r + 1, -r - 1])

def seqt(rng, q):
  return rng.choice([list, tuple])(q)

def lift(x):
  """array -> native tensor of the backend"""
  return BE.convert_to_tensor(x)

G = {}
def gen(*names):
  def deco(f):
    for n in names:
      G[n] = f
    return f
  return deco

# every generator returns dict(ts=arrays, p=params, be=callable(*native), tn=callable(*Tensors) or None, node=..., may=0/1)
@gen("tensordot")
def g_tensordot(rng, kind):
  ra, rb = rng.randint(0, 4), rng.randint(0, 4)
  n = rng.randint(0, min(ra, rb))
  if rng.random() < .25:
    ra = rb = n = rng.randint(1, 3)
  ax, bx = rng.sample(range(ra), n), rng.sample(range(rb), n)
  sa = shape_of(rng, ra, total=40); sb = shape_of(rng, rb, total=40)
  for i, j in zip(ax, bx):
    sb[j] = sa[i]
  ints_ = rng.random() < .12
  if ints_:
    ax, bx = list(range(ra - n, ra)), list(range(n))
    for i, j in zip(ax, bx):
      sb[j] = sa[i]
    arg = n
    p = {"ax": ax, "bx": bx}
  else:
    bad = rng.random()
    if bad < .05 and n:
      sb[bx[0]] += 1
    ax = [neg(rng, ra, i) for i in ax]
    bx = [neg(rng, rb, i) for i in bx]
    if .05 < bad < .08 and n:
      ax[0] = badaxis(rng, ra)
    if .08 < bad < .11 and n and ra > n:
      ax = ax + [next(i for i in range(ra) if i not in [x % ra for x in ax])]
    # asking to contract the same axis twice is unspecified: not generated
    arg = (seqt(rng, ax), seqt(rng, bx)) if rng.random() < .5 else [list(ax), list(bx)]
    p = {"ax": ax, "bx": bx}
  # broadcasting of dimension 1 against d is not part of the interface
  return dict(ts=[rnd(rng, sa, kind), rnd(rng, sb, kind)], p=p,
              be=lambda a, b: BE.tensordot(a, b, arg),
              tn=lambda a, b: tn.tensordot(a, b, arg))

@gen("reshape")
def g_reshape(rng, kind):
  s = shape_of(rng, rng.randint(0, 4))
  a = rnd(rng, s, kind)
  n = a.size
  t = []
  m = n
  for _ in range(rng.randint(0, 3)):
    d = rng.choice([d for d in range(1, m + 1) if m % d == 0])
    t.append(d); m //= d
  t.append(m) if (m != 1 or rng.random() < .5) else None
  rng.shuffle(t)
  if rng.random() < .08 and t:
    t[0] += 1
  arg = rng.choice([list, tuple, (lambda q: np.array(q, dtype=np.int64))])(t)
  if not t:
    arg = ()
  def viaT(x):
    return x.reshape(arg) if rng.random() < .5 else tn.reshape(x, arg)
  return dict(ts=[a], p={"shape": t}, be=lambda x: BE.reshape(x, arg), tn=viaT)

@gen("transpose")
def g_transpose(rng, kind):
  r = rng.randint(0, 5)
  s = shape_of(rng, r)
  perm = list(range(r)); rng.shuffle(perm)
  has = rng.random() < .75
  ng = rng.random() < .2
  if ng:
    perm = [neg(rng, r, i) for i in perm]
  bad = has and r > 1 and rng.random() < .08
  if bad:
    perm[0] = perm[1] if rng.random() < .5 else badaxis(rng, r)
  arg = seqt(rng, perm) if has else None
  return dict(ts=[rnd(rng, s, kind)], p={"has": int(has), "perm": perm}, 
              be=lambda x: BE.transpose(x, arg) if has or rng.random() < .5 else BE.transpose(x),
              tn=lambda x: (x.transpose(arg) if rng.random() < .5 else tn.transpose(x, arg)) if has else rng.choice([lambda: x.T, lambda: x.transpose(), lambda: tn.transpose(x)])(),
              )

@gen("hconj")
def g_hconj(rng, kind):
  d = g_transpose(rng, kind)
  has, perm = d["p"]["has"], d["p"]["perm"]
  d["tn"] = lambda x: (x.hconj(perm) if rng.random() < .5 else tn.hconj(x, perm)) if has else rng.choice([lambda: x.H, lambda: x.hconj(), lambda: tn.hconj(x)])()
  d["be"] = None
  return d

@gen("slice")
def g_slice(rng, kind):
  r = rng.randint(1, 4)
  s = shape_of(rng, r, top=3)
  st, sz = [], []
  for d in s:
    n = rng.randint(1, d); b = rng.randint(0, d - n)
    st.append(b); sz.append(n)
  k = rng.random()
  if k < .06:
    i = rng.randrange(r); st[i] = s[i] - sz[i] + 1
  elif k < .09:
    st = st[:-1]
  elif k < .12:
    i = rng.randrange(r); sz[i] = s[i] + 1; st[i] = 0
  a, b = tuple(st), tuple(sz)
  return dict(ts=[rnd(rng, s, kind)], p={"start": st, "size": sz},
              be=lambda x: BE.slice(x, a, b), tn=lambda x: tn.take_slice(x, a, b))

@gen("concat")
def g_concat(rng, kind):
  r = rng.randint(1, 3)
  s = shape_of(rng, r, total=20)
  ax = rng.randrange(r)
  ts = []
  for _ in range(rng.randint(1, 3)):
    u = list(s); u[ax] = rng.randint(1, 3)
    ts.append(rnd(rng, u, kind))
  a = neg(rng, r, ax)
  return dict(ts=ts, p={"ax": a}, be=lambda *x: BE.shape_concat(list(x), a), tn=None)

@gen("outer")
def g_outer(rng, kind):
  return dict(ts=[rnd(rng, shape_of(rng, rng.randint(0, 3), total=12), kind), rnd(rng, shape_of(rng, rng.randint(0, 3), total=12), kind)], p={},
              be=lambda a, b: BE.outer_product(a, b), tn=lambda a, b: tn.outer(a, b))

@gen("einsum")
def g_einsum(rng, kind):
  nt = rng.randint(1, 3)
  L = rng.sample(string.ascii_letters, 6)
  dims = {c: rng.choice([1, 2, 2, 3]) for c in L}
  words = []
  for _ in range(nt):
    w = rng.sample(L, rng.randint(0 if nt > 1 else 1, 3))
    if len(w) > 1 and rng.random() < .12 and B != "tensorflow":
      w[1] = w[0]
    words.append(w)
  used = list(dict.fromkeys(c for w in words for c in w))
  out = rng.sample(used, rng.randint(0, len(used)))
  if np.prod([dims[c] for c in used]) > 300:
    return g_einsum(rng, kind)
  if rng.random() < .06 and words[0]:
    dims2 = dict(dims); dims2[words[0][0]] += 1
    ts = [rnd(rng, [dims2[c] for c in words[0]], kind)] + [rnd(rng, [dims[c] for c in w], kind) for w in words[1:]]
  else:
    ts = [rnd(rng, [dims[c] for c in w], kind, -2, 2) for w in words]
  # a dimension 1 broadcast is not part of the interface
  for i, w in enumerate(words):
    for k, c in enumerate(w):
      for j, v in enumerate(words):
        for q, e in enumerate(v):
          if c == e and ts[i].shape[k] != ts[j].shape[q] and 1 in (ts[i].shape[k], ts[j].shape[q]):
            return g_einsum(rng, kind)
  expr = ",".join("".join(w) for w in words) + "->" + "".join(out)
  idx = {c: i for i, c in enumerate(used)}
  p = {"labs": [[idx[c] for c in w] for w in words], "out": [idx[c] for c in out]}
  opt = rng.random() < .5
  return dict(ts=ts, p=p, be=lambda *x: BE.einsum(expr, *x, optimize=opt) if rng.random() < .5 else BE.einsum(expr, *x),
              tn=lambda *x: tn.einsum(expr, *x, optimize=opt))

@gen("conj")
def g_conj(rng, kind):
  return dict(ts=[rnd(rng, shape_of(rng, rng.randint(0, 3)), kind)], p={}, be=lambda x: BE.conj(x),
              tn=lambda x: rng.choice([x.conj, x.conjugate, lambda: tn.conj(x)])())

def bshapes(rng):
  r = rng.randint(0, 3)
  s = shape_of(rng, r)
  u = list(s)
  k = rng.random()
  if k < .4:
    u = [1 if rng.random() < .4 else d for d in u]
    u = u[rng.randint(0, len(u)):] if rng.random() < .4 else u
  if k > .95 and u:
    i = rng.randrange(len(u))
    u[i] = s[i] + 1 if s[i] > 1 else u[i]
  return (s, u) if rng.random() < .5 else (u, s)

@gen("add", "sub", "mul")
def g_arith(rng, kind, f):
  s, u = bshapes(rng)
  m = {"add": "addition", "sub": "subtraction", "mul": "multiply"}[f]
  op = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b}[f]
  a, b = rnd(rng, s, kind), rnd(rng, u, kind)
  d = dict(ts=[a, b], p={}, be=lambda x, y: getattr(BE, m)(x, y), tn=op)
  if B02 and rng.random() < .3:
    # scalar operand, either side
    z = rng.randint(-3, 3) if kind != "float" or rng.random() < .5 else float(rng.randint(-3, 3))
    if kind.startswith("complex") and B != "tensorflow":
      z = complex(rng.randint(-3, 3), rng.randint(-3, 3)) if rng.random() < .5 else z
    left = rng.random() < .5
    zt = np.array(z, dtype=DT[kind])
    d["ts"] = [zt, a] if left else [a, zt]
    d["scalar"] = 0 if left else 1
    d["tn"] = (lambda x: op(z, x)) if left else (lambda x: op(x, z))
  return d

@gen("div")
def g_div(rng, kind):
  s, u = bshapes(rng)
  b = rnd(rng, u, kind, 1, 3)
  try:
    full = np.broadcast_shapes(tuple(s), tuple(u))
  except ValueError:
    return dict(ts=[rnd(rng, s, kind), b], p={}, be=lambda x, y: BE.divide(x, y), tn=lambda x, y: x / y)
  a = (rnd(rng, list(full), kind) * b).astype(DT[kind])
  d = dict(ts=[a, b], p={}, be=lambda x, y: BE.divide(x, y), tn=lambda x, y: x / y)
  if B02 and rng.random() < .3:
    z = rng.choice([1, 2, -2, 3])
    d["ts"] = [(rnd(rng, s, kind) * z).astype(DT[kind]), np.array(z, dtype=DT[kind])]
    d["scalar"] = 1
    d["tn"] = lambda x: x / z
  return d

@gen("pow")
def g_pow(rng, kind):
  if kind.startswith("complex"):
    kind = "float"
  s, u = bshapes(rng)
  a, b = rnd(rng, s, kind, -3, 3), rnd(rng, u, kind, 0, 3)
  b = np.abs(b)
  return dict(ts=[a, b], p={}, be=lambda x, y: BE.power(x, y), tn=None)

@gen("sqrt")
def g_sqrt(rng, kind):
  if kind.startswith("complex"):
    kind = "float"
  a = rnd(rng, shape_of(rng, rng.randint(0, 3)), kind)
  return dict(ts=[a * a], p={}, be=lambda x: BE.sqrt(x), tn=lambda x: tn.sqrt(x))

@gen("right")
def g_right(rng, kind):
  s = shape_of(rng, rng.randint(1, 3))
  a, b = rnd(rng, s, kind), rnd(rng, [s[-1]], kind)
  k = rng.random()
  if k < .06:
    b = rnd(rng, [s[-1], s[-1]], kind)
  elif k < .12 and s[-1] > 1:
    b = rnd(rng, [s[-1] + 1], kind)
  return dict(ts=[a, b], p={}, be=lambda x, y: BE.broadcast_right_multiplication(x, y), tn=None)

@gen("left")
def g_left(rng, kind):
  s = shape_of(rng, rng.randint(1, 3))
  a, b = rnd(rng, [s[0]], kind), rnd(rng, s, kind)
  k = rng.random()
  if k < .06:
    a = rnd(rng, [s[0], s[0]], kind)
  elif k < .12 and s[0] > 1:
    a = rnd(rng, [s[0] + 1], kind)
  return dict(ts=[a, b], p={}, be=lambda x, y: BE.broadcast_left_multiplication(x, y), tn=None)

@gen("sum")
def g_sum(rng, kind):
  r = rng.randint(1, 4)
  s = shape_of(rng, r)
  has = rng.random() < .85
  axes = rng.sample(range(r), rng.randint(1, r))
  axes = [neg(rng, r, a) for a in axes]
  if has and rng.random() < .06:
    axes[0] = badaxis(rng, r)
  keep = rng.random() < .3
  q = rng.choice([list, tuple])(axes) if B != "jax" else tuple(axes)
  return dict(ts=[rnd(rng, s, kind)], p={"has": int(has), "axes": axes, "keep": int(keep)},
              be=(lambda x: BE.sum(x, axis=q, keepdims=keep)) if has else (lambda x: BE.sum(x, keepdims=keep)), tn=None)

@gen("matmul")
def g_matmul(rng, kind):
  m, k, n = [rng.randint(1, 3) for _ in range(3)]
  rb = rng.choice([0, 0, 0, 1, 1, 2])
  bs = [rng.randint(1, 3) for _ in range(rb)]
  ba, bb = list(bs), list(bs)
  if rb and rng.random() < .4:
    ba = [1 if rng.random() < .4 else d for d in ba]
    bb = bb[rng.randint(0, rb):]
  sa, sb = ba + [m, k], bb + [k, n]
  q = rng.random()
  if q < .05:
    sb[-2] += 1
  elif q < .1:
    sa = sa[-1:]
  elif q < .13:
    sb = sb[-2:-1]
  return dict(ts=[rnd(rng, sa, kind), rnd(rng, sb, kind)], p={}, be=lambda a, b: BE.matmul(a, b), tn=lambda a, b: a @ b)

def pair(rng, r):
  i, j = rng.sample(range(r), 2)
  return neg(rng, r, i), neg(rng, r, j)

@gen("diagonal", "trace")
def g_diag(rng, kind, f):
  r = rng.randint(2, 4)
  s = shape_of(rng, r)
  default = rng.random() < .3
  i, j = (-2, -1) if default else pair(rng, r)
  q = rng.random()
  if q < .05:
    j = i
  elif q < .08:
    i = badaxis(rng, r)
  k = 0 if rng.random() < .5 else rng.randint(-2, 2)
  if B == "tensorflow" and rng.random() < .6:
    k = 0 if f == "trace" else k
    if f == "diagonal":
      i, j = -2, -1
    if f == "trace" and i != j and -r <= i < r:
      s[j] = s[i]
  d1, d2 = (s[i], s[j]) if -r <= i < r else (1, 1)
  ln = max(0, min(d1 - max(-k, 0), d2 - max(k, 0)))
  if ln == 0 and k != 0:
    k = 0
  ln_unequal = s[i] != s[j] if -r <= i < r else True
  may = int(B == "tensorflow" and ((f == "diagonal" and (i, j) != (-2, -1)) or (f == "trace" and (k != 0 or ln_unequal))))
  m = getattr(BE, f)
  fn = getattr(tn, f)
  if default and (i, j) == (-2, -1):
    be = lambda x: m(x, offset=k) if k or rng.random() < .5 else m(x)
    tnf = lambda x: fn(x, offset=k) if k or rng.random() < .5 else fn(x)
  else:
    be = lambda x: m(x, offset=k, axis1=i, axis2=j)
    tnf = lambda x: fn(x, offset=k, axis1=i, axis2=j)
  return dict(ts=[rnd(rng, s, kind)], p={"k": k, "i": i, "j": j}, may=may, be=be, tn=tnf)

@gen("diagflat")
def g_diagflat(rng, kind):
  s = shape_of(rng, rng.choice([1, 1, 1, 2, 0]), total=6)
  k = rng.choice([0, 0, 1, -1, 2, -2])
  return dict(ts=[rnd(rng, s, kind)], p={"k": k}, be=lambda x: BE.diagflat(x, k=k), tn=lambda x: tn.diagflat(x, k=k))

@gen("abs", "sign")
def g_abs(rng, kind, f):
  if kind.startswith("complex"):
    kind = "float"
  return dict(ts=[rnd(rng, shape_of(rng, rng.randint(0, 3)), kind)], p={}, be=lambda x: getattr(BE, f)(x), tn=lambda x: getattr(tn, f)(x))

@gen("pivot")
def g_pivot(rng, kind):
  r = rng.randint(0, 4)
  s = shape_of(rng, r)
  p = rng.randint(-r, r) if rng.random() < .92 else r + 1
  return dict(ts=[rnd(rng, s, kind)], p={"p": p}, be=lambda x: BE.pivot(x, p), tn=lambda x: tn.pivot(x, p))

@gen("serialize")
def g_ser(rng, kind):
  return dict(ts=[rnd(rng, shape_of(rng, rng.randint(0, 4)), kind)], p={}, be=lambda x: BE.deserialize_tensor(BE.serialize_tensor(x)), tn=None, dtype=1,
              may=int(B != "numpy"))

@gen("item")
def g_item(rng, kind):
  s = [1] * rng.randint(0, 3)
  if rng.random() < .15:
    s = s + [2]
  return dict(ts=[rnd(rng, s, kind)], p={}, be=lambda x: BE.item(x), tn=None)

@gen("inv")
def g_inv(rng, kind):
  n = rng.randint(1, 4)
  m = np.eye(n, dtype=DT[kind])
  for _ in range(2 * n):
    i, j = rng.randrange(n), rng.randrange(n)
    if i != j:
      m[i] += rng.choice([-1, 1]) * m[j]
  p = list(range(n)); rng.shuffle(p)
  m = m[p]
  if np.abs(m).max() > 30:
    m = np.eye(n, dtype=DT[kind])[p]
  if rng.random() < .06:
    m = np.stack([m, m])
  return dict(ts=[m], p={}, be=lambda x: BE.inv(x), tn=None)

@gen("expm")
def g_expm(rng, kind):
  n = rng.randint(1, 3)
  m = np.triu(rnd(rng, [n, n], kind), 1) * 2
  p = list(range(n)); rng.shuffle(p)
  m = m[p][:, p].astype(DT[kind])
  q = rng.random()
  if q < .05:
    m = m[:, :1] if n > 1 else m
  elif q < .1:
    m = m.reshape(-1)
  return dict(ts=[m], p={}, be=lambda x: BE.expm(x), tn=None)

@gen("normsq")
def g_norm(rng, kind):
  t = rnd(rng, shape_of(rng, rng.randint(0, 3)), kind)
  def sq(v):
    w = np.asarray(v)
    assert w.shape == ()
    return np.array(float(w.real) ** 2)
  return dict(ts=[t], p={}, be=lambda x: sq(BE.norm(x)), tn=None,
              node=lambda n: sq(nl.norm(n)) if not isinstance(n, tn.Tensor) else None)

@gen("exp0", "sin0", "cos0", "log1")
def g_elem(rng, kind, f):
  s = shape_of(rng, rng.randint(0, 2))
  a = np.ones(s, DT[kind]) if f == "log1" else np.zeros(s, DT[kind])
  n = f[:-1]
  return dict(ts=[a], p={}, be=lambda x: getattr(BE, n)(x), tn=lambda x: getattr(tn, n)(x))

@gen("exptab", "sintab", "costab", "logtab")
def g_elemtab(rng, kind, f):
  s = shape_of(rng, rng.randint(0, 2))
  lo, hi = (1, 7) if f == "logtab" else (-3, 3)
  a = np.array([rng.randint(lo, hi) for _ in range(int(np.prod(s)))], dtype=DT[kind]).reshape(s)
  n = f[:-3]
  mil = lambda y: np.rint(np.array(y) * 1000)     # in thousandths
  return dict(ts=[a], p={}, be=lambda x: BE.convert_to_tensor(mil(getattr(BE, n)(x))),
              tn=lambda x: tn.Tensor(mil(getattr(tn, n)(x).array), backend=B))

@gen("index_update")
def g_iu(rng, kind):
  t = rnd(rng, shape_of(rng, rng.randint(1, 3)), kind)
  mask = np.array([rng.random() < .5 for _ in range(t.size)]).reshape(t.shape)
  v = rng.randint(-3, 3)
  z = np.array(v, dtype=t.dtype)
  return dict(ts=[t], p={"mask": [int(b) for b in mask.reshape(-1)], "v": v}, be=lambda x: BE.index_update(x, lift(mask), lift(z)), tn=None)

@gen("shape")
def g_shape(rng, kind):
  t = rnd(rng, shape_of(rng, rng.randint(1, 4)), kind)
  n = rng.choice(["shape_tuple", "shape_tensor", "sparse_shape"])
  def f(x):
    v = getattr(BE, n)(x)
    if n != "shape_tensor":
      assert isinstance(v, tuple)
    return np.array(v)
  return dict(ts=[t], p={}, be=f, tn=lambda x: np.array(rng.choice([lambda: tn.shape(x), lambda: x.shape])()), raw=1)

@gen("prod")
def g_prod(rng, kind):
  v = [rng.randint(1, 5) for _ in range(rng.randint(0, 4))]
  return dict(ts=[np.zeros(1)], p={"vals": v}, be=lambda x: np.array(BE.shape_prod(tuple(v))), tn=None)

@gen("eps")
def g_eps(rng, kind):
  # the distance from 1 to the next number: a power of two
  dt = np.dtype(DT[kind]).type
  real = np.dtype(np.zeros(0, dt).real.dtype)
  return dict(ts=[np.zeros(1)], p={"bits": real.itemsize * 8}, be=lambda x: np.array(-np.log2(np.float64(BE.eps(dt)))), tn=None)

def tdt(kind):
  return getattr(tf, np.dtype(DT[kind]).name) if B == "tensorflow" else DT[kind]

@gen("eye")
def g_eye(rng, kind):
  n, m = rng.randint(1, 4), rng.choice([None, 1, 2, 3, 4])
  dt = tdt(kind) if rng.random() < .7 else None
  kw = {}
  if m is not None or rng.random() < .5:
    kw["M"] = m
  return dict(ts=[], p={"n": n, "m": m or n}, be=lambda: BE.eye(n, dtype=dt, **kw), tn=lambda: tn.eye(n, dtype=dt, backend=bk(rng), **kw),
              node=lambda: nl.eye(n, dtype=dt, backend=bk(rng), **kw), dt=DT[kind] if dt is not None else np.float64)

@gen("const")
def g_const(rng, kind):
  s = shape_of(rng, rng.randint(0, 3)); v = rng.randint(0, 1)
  nm = ["zeros", "ones"][v]
  dt = tdt(kind) if rng.random() < .7 else None
  d = dict(ts=[], p={"shape": s, "v": v}, be=lambda: getattr(BE, nm)(tuple(s), dtype=dt) if dt is not None else getattr(BE, nm)(tuple(s)),
           tn=lambda: getattr(tn, nm)(tuple(s), dtype=dt, backend=bk(rng)),
           node=lambda: getattr(nl, nm)(tuple(s), dtype=dt, backend=bk(rng)), dt=DT[kind] if dt is not None else np.float64)
  if rng.random() < .35 and B02:
    src = rnd(rng, s, kind)
    if rng.random() < .6:
      d["tn"] = lambda: getattr(tli, nm + "_like")(tn.Tensor(src, backend=B))
      d["dt"] = DT[kind]
    else:
      d["tn"] = lambda: getattr(tli, nm + "_like")(src, dtype=tdt(kind), backend=B)
      d["dt"] = DT[kind]
    d["node"] = None
  return d

def bk(rng):
  return B if rng.random() < .6 else BE

@gen("squeeze", "ravel", "copy")
def g_misc(rng, kind, f):
  t = rnd(rng, shape_of(rng, rng.randint(0, 4)), kind)
  h = {"squeeze": lambda x: x.squeeze(), "ravel": lambda x: rng.choice([x.ravel, x.flatten])(), "copy": lambda x: x.copy()}[f]
  return dict(ts=[t], p={}, be=None, tn=h)

@gen("kron")
def g_kron(rng, kind):
  ra, rb = rng.choice([2, 2, 4, 0]), rng.choice([2, 2, 4])
  if rng.random() < .06:
    ra = 1
  ts = [rnd(rng, shape_of(rng, ra, total=12), kind), rnd(rng, shape_of(rng, rb, total=12), kind)]
  return dict(ts=ts, p={}, be=None, tn=lambda a, b: tn.linalg.operations.kron(a, b), node=lambda a, b: nl.kron([a, b]))

@gen("convert")
def g_convert(rng, kind):
  return dict(ts=[rnd(rng, shape_of(rng, rng.randint(0, 3)), kind)], p={}, be=lambda x: BE.convert_to_tensor(x), tn=lambda x: tn.Tensor(x.array, backend=bk(rng)))

@gen("jit")
def g_jit(rng, kind):
  return dict(ts=[rnd(rng, shape_of(rng, rng.randint(0, 3)), kind)], p={}, be=lambda x: BE.jit(lambda y: BE.conj(BE.conj(y)))(x), tn=None)

@gen("ncon")
def g_builder(rng, kind):
  nt = rng.randint(1, 3)
  L = list(range(5))
  dims = {c: rng.choice([1, 2, 2, 3]) for c in L}
  while True:
    words = [rng.sample(L, rng.randint(1, 3)) for _ in range(nt)]
    if all(sum(c in w for w in words) <= 2 for c in L):
      break
  use = [c for c in L if any(c in w for w in words)]
  opens = [c for c in use if sum(c in w for w in words) == 1]
  con = [c for c in use if c not in opens]
  rng.shuffle(opens)
  lab = {c: i + 1 for i, c in enumerate(con)}
  lab.update({c: -(i + 1) for i, c in enumerate(opens)})
  ts = [rnd(rng, [dims[c] for c in w], kind, -2, 2) for w in words]
  again = rng.random() < .5
  def f(*x):
    fin = tn.finalize if hasattr(tn, "finalize") else ncon_interface.finalize
    b = x[0](*[lab[c] for c in words[0]])
    for t, w in zip(x[1:], words[1:]):
      nxt = t(*[lab[c] for c in w])
      if again:
        b @ nxt           # a partial expression can start several others
      b = b @ nxt
    if again:
      fin(b)
    return fin(b)
  return dict(f="einsum", ts=ts, p={"labs": words, "out": opens}, be=None, tn=f)

# node functions
def node_perm(rng, kind):
  r = rng.randint(1, 4)
  s = shape_of(rng, r)
  perm = list(range(r)); rng.shuffle(perm)
  names = ["ax%d" % i for i in range(r)]
  arg = [names[i] if rng.random() < .3 else i for i in perm]
  def f(n):
    n.add_axis_names(names)
    o = nl.transpose(n, arg)
    if o.axis_names != [names[i] for i in perm]:
      raise AssertionError("axis names %s" % o.axis_names)
    return o
  return dict(f="transpose", ts=[rnd(rng, s, kind)], p={"has": 1, "perm": perm}, node=f)
def node_conj(rng, kind):
  return dict(f="conj", ts=[rnd(rng, shape_of(rng, rng.randint(0, 3)), kind)], p={}, node=lambda n: nl.conj(n))
def node_arith(rng, kind):
  f = rng.choice(["add", "sub", "mul", "div"])
  op = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": lambda a, b: a / b}[f]
  d = g_div(rng, kind) if f == "div" else g_arith(rng, kind, f)
  for k in ("scalar",):
    d.pop(k, None)
  if d["ts"][0].shape != d["ts"][1].shape and rng.random() < .7:
    s = shape_of(rng, rng.randint(0, 3))
    b = rnd(rng, s, kind, 1, 3)
    d["ts"] = [(rnd(rng, s, kind) * b).astype(DT[kind]), b]
  if rng.random() < .3:
    z = rng.choice([1, 2, -2])
    a = (rnd(rng, shape_of(rng, rng.randint(0, 3)), kind) * z).astype(DT[kind])
    return dict(f=f, ts=[a, np.array(z, DT[kind])], p={}, scalar=1, node=lambda n: op(n, z))
  return dict(f=f, ts=d["ts"], p={}, node=op)

def native(x):
  v = x
  if isinstance(v, tn.Tensor):
    v = v.array
  elif isinstance(v, tn.Node):
    v = v.tensor
  return np.asarray(v)

def same_dt(a, b):
  # jax runs in 32 bit mode unless told otherwise
  return np.dtype(a).kind == np.dtype(b).kind if B == "jax" else np.dtype(a) == np.dtype(b)

def types_ok(via, out, d):
  """wrapper type / backend / attributes"""
  if via == "backend":
    if d.get("dt") is not None and not same_dt(np.asarray(out).dtype, d["dt"]):
      return 0
    return 1
  if d.get("raw"):
    return 1
  if via == "tensor":
    if type(out) is not tn.Tensor or out.backend.name != B:
      return 0
    v = np.asarray(out.array)
    if tuple(out.shape) != v.shape or int(out.size) != v.size or out.ndim != v.ndim:
      return 0
    if B == "jax" and not type(out.array).__module__.startswith("jax"):
      return 0
    if B == "tensorflow" and not isinstance(out.array, tf.Tensor):
      return 0
    if np.dtype(out.dtype.as_numpy_dtype if B == "tensorflow" else out.dtype) != v.dtype:
      return 0
  if via == "node" and not isinstance(out, np.ndarray):
    if not isinstance(out, tn.Node) or out.backend.name != B:
      return 0
  if d.get("dt") is not None and not same_dt(native(out).dtype, d["dt"]):
    return 0
  return 1

def run(rng, kind, via, name, d):
  f = d.get("f", name)
  ts = d["ts"]
  before = [np.array(t) for t in ts]
  wrap_ops, objs = [], []
  sc = d.get("scalar", None)
  mixed = 0
  for i, t in enumerate(ts):
    if sc == i:
      continue
    if via == "backend":
      objs.append(lift(t) if B != "numpy" else t)
    elif via == "tensor":
      objs.append(tn.Tensor(lift(t), backend=bk(rng)))
    else:
      objs.append(tn.Node(lift(t), backend=bk(rng)))
  if via == "tensor" and B != "numpy" and len(objs) >= 2 and rng.random() < .08:
    k = rng.randrange(len(objs))
    objs[k] = tn.Tensor(np.array(ts[k if sc is None else k]), backend="numpy")
    mixed = 1
  st = {"op": "prim", "ok": 1, "a": {"f": f, "via": via, "ts": [tj(t) for t in before], "p": d["p"], "mixed": mixed,
                                      "may": d.get("may", 0), "name": name, "kind": kind}, "r": T0, "same": 1, "wrap": 1}
  fn = d["be"] if via == "backend" else d["tn"] if via == "tensor" else d["node"]
  try:
    out = fn(*objs)
    v = native(out)
    if name == "item" and via == "backend":
      pass
    st["r"] = tj(v)
    st["wrap"] = types_ok(via, out, d)
    if d.get("dtype") and not same_dt(v.dtype, before[0].dtype):
      st["wrap"] = 0
  except Exception as e:
    st["ok"] = 0
    st["exc"] = "%s: %s" % (type(e).__name__, str(e)[:160])
  k = 0
  for i, t in enumerate(ts):
    if sc == i:
      continue
    o = native(objs[k])
    if o.shape != before[i].shape or not np.array_equal(o, before[i]):
      st["same"] = 0
    k += 1
  return st

def eigh(rng, kind):
  n = rng.randint(1, 4)
  m = rnd(rng, [n, n], kind)
  m = (m + np.conj(m.T)).astype(DT[kind])
  st = {"op": "eigh", "ok": 1, "a": {"via": "backend", "m": tj(m)}, "w": {}, "v": {}}
  try:
    w, v = BE.eigh(lift(m))
    st["w"], st["v"] = apx(w), apx(v)
  except Exception as e:
    st["ok"], st["exc"] = 0, "%s: %s" % (type(e).__name__, str(e)[:160])
  return st

def rand(rng, kind):
  """random initialisers"""
  uni = rng.random() < .5
  if kind == "int":
    kind = "float"
  s = shape_of(rng, rng.randint(1, 3))
  lo, hi = rng.choice([(0., 1.), (-2., 3.), (4., 5.)])
  seed = rng.randint(1, 1000)
  nm = "random_uniform" if uni else "randn"
  via = "tensor" if B02 else "backend"
  def call(sd):
    kw = dict(dtype=tdt(kind), seed=sd)
    if uni:
      kw["boundaries"] = (lo, hi)
    if via == "backend":
      v = np.asarray(getattr(BE, nm)(tuple(s), **kw))
    else:
      v = np.asarray(getattr(tn, nm)(tuple(s), backend=bk(rng), **kw).array)
    if not same_dt(v.dtype, DT[kind]):
      raise AssertionError("dtype %s" % v.dtype)
    if np.iscomplexobj(v) and v.size > 2 and (not np.any(v.imag) or not np.any(v.real) or np.array_equal(v.real, v.imag)):
      raise AssertionError("degenerate complex numbers")
    fl = v.reshape(-1)
    q = [int(round(float(x) * 1000)) for z in fl for x in ((z.real, z.imag) if np.iscomplexobj(v) else (z,))]
    return {"s": [int(x) for x in v.shape], "d": q}
  st = {"op": "rand", "ok": 1, "a": {"via": via, "shape": s, "uniform": int(uni), "lo": int(lo * 1000), "hi": int(hi * 1000)}}
  try:
    st["r1"], st["r2"], st["r3"] = call(seed), call(seed), call(seed + 1)
  except Exception as e:
    st["ok"], st["exc"] = 0, "%s: %s" % (type(e).__name__, str(e)[:160])
  return st

def step(rng):
  kind = rng.choice(["float", "float", "complex", "float32", "complex64"])
  x = rng.random()
  if x < .03:
    return rand(rng, kind)
  if x < .05 and not B02:
    return eigh(rng, kind)
  if B02 and x < .25:
    h = rng.choice([node_perm, node_conj, node_arith, "kron", "eye", "const", "normsq"])
    if isinstance(h, str):
      g = G[h]
      d = g(rng, kind)
      if not d.get("node"):
        return step(rng)
      return run(rng, kind, "node", h, d)
    d = h(rng, kind)
    return run(rng, kind, "node", d["f"], d)
  while True:
    name = rng.choice(list(G))
    if kind == "int" and name in ("inv", "expm", "exp0", "sin0", "cos0", "log1", "exptab", "sintab", "costab", "logtab", "sqrt", "div", "eye", "const"):
      kind = "float"
    g = G[name]
    import inspect
    d = g(rng, kind, name) if len(inspect.signature(g).parameters) == 3 else g(rng, kind)
    if d.get("tn" if B02 else "be") is not None:
      break
  return run(rng, kind, "tensor" if B02 else "backend", name, d)

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 5 + (77 if B02 else 0))
  traces = []
  t0 = time.time()
  for i in range(args.n):
    if time.time() - t0 > args.secs:
      break
    traces.append({"id": "prim-%s-%d-%d" % (B, args.shard, i), "steps": [step(rng) for _ in range(10)]})
  write_traces(args.out, traces)

main()
