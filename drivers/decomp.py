"""Matrix decompositions of nodes and tensors: random inputs (D01) and inputs
with an exactly known integer spectrum (D02)."""
import time, math, itertools
from common import *
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
import tensornetwork.linalg.linalg as tll
SPEC = 1 if args.profile == "D02" else 0
from decomp_inputs import *

def factor_dims(rng, m, cap):
  """split m into dims"""
  out = []
  while m > 1 and len(out) < cap - 1:
    ds = [d for d in range(1, m + 1) if m % d == 0]
    d = rng.choice(ds)
    out.append(d)
    m //= d
  out.append(m)
  if rng.random() < .2 and len(out) < cap:
    out.insert(rng.randrange(len(out) + 1), 1)
  return out

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h"]

def make(rng, kinds):
  kind = rng.choice(kinds)
  cx = kind == "complex"
  if SPEC:
    m, n = rng.choice([1, 2, 2, 3, 3, 4, 4, 6, 8]), rng.choice([1, 2, 2, 3, 3, 4, 4, 6, 8])
    while m * n > 32:
      m, n = rng.choice([2, 3, 4]), rng.choice([2, 3, 4])
    g = known(rng, m, n, cx)
    A, q1, q2, sv, sig = g
  else:
    m, n = rng.choice([1, 2, 3, 4, 6, 8]), rng.choice([1, 2, 3, 4, 6, 8])
    while m * n > 32:
      m, n = rng.choice([2, 3, 4]), rng.choice([2, 3, 4])
    A = rand_tensor(rng, (m, n), "complex" if cx else "float")
    st = rng.random()
    if st < .2 and min(m, n) > 1:      # rank deficient, zero columns/rows
      A[:, rng.randrange(n)] = 0
    elif st < .3:
      A[rng.randrange(m), :] = 0
    elif st < .4:
      A = np.outer(A[:, 0], A[0, :])
    elif st < .45:
      A = A * 0
    q1 = q2 = sv = sig = None
  dt = {"float": np.float64, "complex": np.complex128, "float32": np.float32}[kind]
  if kind == "complex" and args.backend != "numpy":
    dt = rng.choice([np.complex64, np.complex128])
  ld, rd = factor_dims(rng, m, 3), factor_dims(rng, n, 3)
  return A.astype(dt), ld, rd, q1, q2, sv, sig

def spec_args(q1, q2, sv, sig, rng):
  if not SPEC:
    return dict(spec=0, maxx=0, max=0, errx=0, ep=0, eq=1, rel=0, sig=[], sv=[], q1=T0, q2=T0)
  d = trunc(rng, sig)
  d.update(spec=1, sig=sig, sv=sv, q1=tj(q1), q2=tj(q2))
  return d
T0 = {"s": [0], "d": [], "c": 0, "x": 1}

def do_plain(rng, kinds):
  A, ld, rd, q1, q2, sv, sig = make(rng, kinds)
  sa = spec_args(q1, q2, sv, sig, rng)
  meth = "full" if SPEC else rng.choice(["full", "qr", "rq", "qr", "rq"])
  arr = A.reshape(ld + rd)
  piv = len(ld)
  t = tn.Tensor(arr, backend=args.backend)
  nn = 1 if meth != "full" and rng.random() < .5 else 0
  p = piv if rng.random() < .7 or args.backend == "tensorflow" else piv - len(ld + rd)
  if p == 0:
    p = piv
  a = dict(sa, t=tj(arr), pivot=piv, meth=meth, nn=nn)
  st = {"op": "plain", "a": a, "ok": 1, "exc": "", "r": {}, "call": [meth, arr.shape, p, str(arr.dtype), kw(sa, "e")]}
  try:
    if meth == "full":
      u, s, v, tr = tll.svd(t, p, **kw(sa, "max_truncation_error"))
      ok = all(isinstance(x, tn.Tensor) for x in (u, s, v, tr))
      lt, mt, rt, tv = u.array, s.array, v.array, tr.array
    else:
      f = tll.qr if meth == "qr" else tll.rq
      kk = {"non_negative_diagonal": True} if nn else {}
      x, y = f(t, p, **kk)
      lt, rt = x.array, y.array
      mt = tv = np.zeros((0,))
    st["r"] = {"lt": apx(lt), "rt": apx(rt), "mt": apx(mt), "trun": apx(tv),
               "same": 1 if np.array_equal(np.asarray(t.array), arr) else 0}
  except Exception as e:
    st["ok"], st["exc"] = 0, "%s: %s" % (type(e).__name__, str(e)[:200])
  return st

class Ids:
  def __init__(self):
    self.n, self.e, self.keep = {}, {}, []
  def node(self, x):
    if id(x) not in self.n:
      self.n[id(x)] = len(self.n) + 1; self.keep.append(x)
    return self.n[id(x)]
  def edge(self, x):
    if id(x) not in self.e:
      self.e[id(x)] = len(self.e) + 1; self.keep.append(x)
    return self.e[id(x)]

def log(ids, nodes, approx=()):
  return [{"id": ids.node(n), "t": apx(n.tensor) if n in approx else tj(n.tensor), "e": [ids.edge(x) for x in n.edges],
           "an": list(n.axis_names), "nm": n.name} for n in nodes]

def incidence(nodes):
  for n in nodes:
    for i, e in enumerate(n.edges):
      if not ((e.node1 is n and e.axis1 == i) or (e.node2 is n and e.axis2 == i)):
        return 0
      if e.dimension != n.shape[i]:
        return 0
      if e.node2 is not None:
        o, ax = (e.node2, e.axis2) if e.node1 is n and e.axis1 == i else (e.node1, e.axis1)
        if o not in nodes or o.edges[ax] is not e:
          return 0
  return 1

def do_split(rng, kinds):
  A, ld, rd, q1, q2, sv, sig = make(rng, kinds)
  sa = spec_args(q1, q2, sv, sig, rng)
  if args.backend == "tensorflow" and len(ld + rd) > 6:
    ld = [int(np.prod(ld))]
  meth = rng.choice(["svd", "full"]) if SPEC else rng.choice(["svd", "full", "qr", "rq"])
  arr = A.reshape(ld + rd)
  r = arr.ndim
  perm = list(range(r)); rng.shuffle(perm)
  inv = [perm.index(i) for i in range(r)]
  an = rng.sample(NAMES, r) if rng.random() < .7 else None
  node = tn.Node(np.transpose(arr, perm), axis_names=an, name=rng.choice(["N", "M", None]), backend=args.backend)
  axes_left = [inv[i] for i in range(len(ld))]
  axes_right = [inv[i] for i in range(len(ld), r)]
  others = []
  for ax in range(r):
    if rng.random() < .5:
      d = node.shape[ax]
      dt = np.asarray(node.tensor).dtype
      if others and rng.random() < .4 and any(e.is_dangling() and e.dimension == d for e in others[-1].edges):
        o = others[-1]
      else:
        sh = [d] + [rng.choice([1, 2, 3]) for _ in range(rng.randint(0, 2))]
        if rng.random() < .4:
          sh.append(d)
        rng.shuffle(sh)
        o = tn.Node(rand_tensor(rng, sh).astype(dt), backend=args.backend, name="o%d" % ax)
        others.append(o)
      e = rng.choice([e for e in o.edges if e.is_dangling() and e.dimension == d])
      if rng.random() < .5:
        tn.connect(node[ax], e, name=rng.choice([None, "x", "y"]))
      else:
        tn.connect(e, node[ax], name=rng.choice([None, "x", "y"]))
  left = [node[ax] for ax in axes_left]
  right = [node[ax] for ax in axes_right]
  ids = Ids()
  pre = log(ids, [node] + others)
  kwd = {}
  a = dict(sa, n=ids.node(node), left=[ids.edge(e) for e in left], right=[ids.edge(e) for e in right], meth=meth,
           lnx=0, ln="", rnx=0, rn="", mnx=0, mn="", enx=0, en1="", en2="")
  if rng.random() < .5:
    a.update(lnx=1, ln="L"); kwd["left_name"] = "L"
  if rng.random() < .5:
    a.update(rnx=1, rn="R"); kwd["right_name"] = "R"
  if meth == "full" and rng.random() < .5:
    a.update(mnx=1, mn="S"); kwd["middle_name"] = "S"
  if rng.random() < .5:
    a.update(enx=1, en1="bl", en2="br" if meth == "full" else "bl")
    if meth == "full":
      kwd.update(left_edge_name="bl", right_edge_name="br")
    else:
      kwd["edge_name"] = "bl"
  enames = [e.name for e in left + right]
  if meth in ("svd", "full"):
    kwd.update(kw(sa, "max_truncation_err"))
  st = {"op": "split", "a": a, "ok": 1, "exc": "", "pre": pre, "post": pre, "r": {}, "call": [meth, list(map(str, kwd.items())), str(A.dtype)]}
  f = {"svd": tn.split_node, "full": tn.split_node_full_svd, "qr": tn.split_node_qr, "rq": tn.split_node_rq}[meth]
  try:
    res = f(node, left, right, **kwd)
    if meth == "svd":
      L, R, tv = res; M = None
    elif meth == "full":
      L, M, R, tv = res
    else:
      L, R = res; M = None; tv = np.zeros((0,))
    new = [L, R] + ([M] if M is not None else [])
    allnodes = others + new
    st["post"] = log(ids, allnodes, new)
    bl, br = L.edges[-1], R.edges[0]
    old = 1
    for i, e in enumerate(node.edges):
      if not (e.is_dangling() and e.node1 is node and e.axis1 == i) or id(e) in ids.e:
        old = 0
    st["r"] = {"l": ids.node(L), "r": ids.node(R), "m": ids.node(M) if M is not None else 0,
               "bl": ids.edge(bl), "br": ids.edge(br), "bnl": bl.name, "bnr": br.name,
               "trun": apx(tv), "old": old, "inc": incidence(allnodes),
               "keptnames": 1 if [e.name for e in left + right] == enames else 0}
  except Exception as e:
    st["ok"], st["exc"] = 0, "%s: %s" % (type(e).__name__, str(e)[:200])
  return st

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 11 + SPEC)
  kinds = ["float", "float", "complex", "float32"] if args.backend == "numpy" else ["float32", "float", "complex"]
  traces = []
  t0 = time.time()
  for i in range(args.n):
    if time.time() - t0 > args.secs:
      break
    steps = []
    for _ in range(5):
      steps.append(do_plain(rng, kinds) if rng.random() < .45 else do_split(rng, kinds))
    traces.append({"id": "dec-%s-%d-%d" % (args.backend, args.shard, i), "steps": steps})
  write_traces(args.out, traces)

main()
