"""Histories of quantum objects: leaves, algebra, contraction, evaluation (Q01)."""
import time
from common import *
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
import opt_einsum
from tensornetwork.quantum import quantum as qu
from tensornetwork import contractors as ct
B = args.backend
LIM = 2 ** 20

class Skip(Exception):
  pass

class World:
  def __init__(self, rng):
    self.rng = rng
    self.objs, self.steps, self.tampered = [], [], 0
    self.cx = rng.random() < .4
    self.ign = rng.random() < .2
    # most leaves live on one space, so that they compose
    self.space = rng.choice([[2], [2], [3], [2, 2], [2, 2], [2, 3]])
    self.ids = rng.choice([0, 0, .4, .7])
    self.home = rng.random() < .8

  def tensor(self, shape):
    k = "complex" if self.cx and (B != "numpy" or self.rng.random() < .8) else "float"
    if B == "numpy" and self.rng.random() < .1:
      k = "int"
    return rand_tensor(self.rng, shape, k, -1, 2)

  # -- independent dense reading of an object
  def read(self, q):
    lab, keep = {}, []
    def L(e):
      if id(e) not in lab:
        keep.append(e); lab[id(e)] = len(keep)
      return lab[id(e)]
    ops = []
    nodes = list(q.nodes)
    if len(nodes) > 26:
      raise Skip("large")
    for n in nodes:
      ops += [np.asarray(n.tensor), [L(e) for e in n.edges]]
    for e in q.ignore_edges:
      ops += [np.arange(1, e.dimension + 1), [L(e)]]
    out = [L(e) for e in list(q.out_edges) + list(q.in_edges)]
    t = np.asarray(opt_einsum.contract(*ops, out, optimize="greedy"))
    s = [int(x) for x in q.out_space]
    i = [int(x) for x in q.in_space]
    if maxabs(t) > LIM or t.size > 100:
      raise Skip("big")
    return {"o": s, "i": i, "t": tj(t)}

  def readall(self):
    out = []
    for q in self.objs:
      out.append(self.read(q))
    return out

  def do(self, op, a, f):
    base = {"x": 0, "y": 0, "sub": [], "bad": 0, "ts": [], "labs": [], "out": [], "inn": [], "ign": [], "num": tj(np.array(0.))}
    base.update(a)
    ok, exc, r, new = 1, "", {}, None
    try:
      new = f()
    except Exception as e:
      ok, exc = 0, "%s: %s" % (type(e).__name__, str(e)[:200])
    if ok and op == "eval":
      t = np.asarray(new)
      if maxabs(t) > LIM:
        raise Skip
      k = t.ndim - len(base["sub"] or self.steps[-1]["vals"][base["x"] - 1]["t"]["s"])
      for _ in range(max(k, 0)):
        t = np.tensordot(np.arange(1, t.shape[0] + 1), t, (0, 0))
      r = {"t": tj(t)}
    elif ok and op == "contract":
      me = self.objs[base["x"] - 1]
      r = {"single": int(len(me.nodes) == 1), "self": int(new is me)}
    elif ok:
      try:
        self.objs.append(new)
        r = {"kind": type(new).__name__, "flags": [int(new.is_scalar()), int(new.is_vector()), int(new.is_adjoint_vector())]}
        if len(new.nodes) > 26:
          raise Skip("large")
        self.read(new)
      except Skip:
        self.objs.pop()
        return False
      except Exception as e:
        self.objs.pop()
        ok, exc = 0, "unreadable %s: %s" % (type(e).__name__, str(e)[:200])
    self.steps.append({"op": op, "a": base, "ok": ok, "exc": exc, "r": r, "vals": self.readall()})
    return ok

  # -- leaves
  def leaf(self):
    rng = self.rng
    w = rng.random() if rng.random() > self.ids else .7
    if w < .5:
      kind = rng.choice(["op", "op", "vec", "adj", "sca"])
      if kind == "op":
        sp = list(self.space) if self.home else [rng.choice([1, 2, 2, 3]) for _ in range(rng.choice([1, 1, 2]))]
        si = list(sp) if rng.random() < .7 else [rng.choice([1, 2, 2, 3]) for _ in range(rng.choice([1, 2]))]
        n = len(sp) + len(si)
        perm = rng.sample(range(n), n)      # axis perm[k] carries subsystem k
        sh = [0] * n
        for k, d in enumerate(sp + si):
          sh[perm[k]] = d
        t = self.tensor(sh)
        o, i = perm[:len(sp)], perm[len(sp):]
        neg = lambda q: [x - n if rng.random() < .15 else x for x in q]
        a = {"ts": [tj(t)], "labs": [list(range(n))], "out": o, "inn": i}
        return self.do("leaf", a, lambda: qu.QuOperator.from_tensor(t, neg(o), neg(i), backend=B))
      if kind == "sca":
        t = self.tensor([])
        return self.do("leaf", {"ts": [tj(t)], "labs": [[]]}, lambda: qu.QuScalar.from_tensor(t, backend=B))
      sh = list(self.space) if self.home else [rng.choice([1, 2, 2, 3]) for _ in range(rng.choice([1, 2, 2, 3]))]
      t = self.tensor(sh)
      perm = rng.sample(range(len(sh)), len(sh)) if rng.random() < .6 else None
      cls = qu.QuVector if kind == "vec" else qu.QuAdjointVector
      a = {"ts": [tj(t)], "labs": [list(range(len(sh)))], "out" if kind == "vec" else "inn": perm or list(range(len(sh)))}
      return self.do("leaf", a, lambda: cls.from_tensor(t, perm, backend=B))
    if w < .75:
      sp = list(self.space) if self.home else [rng.choice([1, 2, 2, 3]) for _ in range(rng.choice([1, 1, 2, 2]))]
      dt = np.complex128 if self.cx else np.float64
      return self.do("identity", {"sub": sp}, lambda: qu.identity(sp, backend=B, dtype=dt))
    # a network
    nodes = []
    for _ in range(rng.randint(1, 3)):
      if rng.random() < .2:
        nodes.append(tn.CopyNode(rng.choice([2, 2, 3]), 2, backend=B, dtype=np.complex128 if self.cx else np.float64))
      else:
        nodes.append(tn.Node(self.tensor([rng.choice([2, 2, 2, 3]) for _ in range(rng.choice([0, 1, 2, 2, 3]))]), backend=B))
    for _ in range(rng.randint(0, 4)):
      d = [e for n in nodes for e in n.edges if e.is_dangling()]
      if len(d) > 1:
        e, f = rng.sample(d, 2)
        if e.dimension == f.dimension:
          tn.connect(e, f)
    for _ in range(4):
      d = [e for n in nodes for e in n.edges if e.is_dangling()]
      if len(d) > 4:
        for e in d:
          for f in d:
            if e is not f and e.dimension == f.dimension and e.is_dangling() and f.is_dangling():
              tn.connect(e, f)
              break
          else:
            continue
          break
    d = [e for n in nodes for e in n.edges if e.is_dangling()]
    rng.shuffle(d)
    ign = []
    if self.ign and rng.random() < .6:
      ign, d = d[:1], d[1:]
    k = rng.randint(0, len(d))
    out, inn = d[:k], d[k:]
    bad = 0
    ref = list(nodes)
    v = rng.random()
    if v < .06 and d:
      if out:
        out = out[1:]
      else:
        inn = inn[1:]
    elif v < .1:
      c = [e for n in nodes for e in n.edges if not e.is_dangling()]
      if c:
        bad = 1
        rng.choice([out, inn, ign]).append(rng.choice(c))
    elif v < .13 and not out and not inn and not ign:
      ref, bad = None, 1
    elif v < .4 and all(n.edges for n in nodes):
      reach = tn.reachable(set(x for e in out + inn for x in e.get_nodes() if x is not None)) if out + inn else set()
      if set(nodes) <= reach:
        ref = None
    lab, keep = {}, []
    def L(e):
      if id(e) not in lab:
        keep.append(e); lab[id(e)] = len(keep)
      return lab[id(e)]
    a = {"ts": [tj(np.asarray(n.tensor)) for n in nodes], "labs": [[L(e) for e in n.edges] for n in nodes],
         "out": [L(e) for e in out], "inn": [L(e) for e in inn], "ign": [L(e) for e in ign], "bad": bad}
    w = rng.random()
    if w < .4 and (out or inn or ref):
      f = lambda: qu.QuOperator(out, inn, ref, ign or None)
      if not (out and inn):
        f = lambda: qu.quantum_constructor(out, inn, ref, ign or None)
    elif w < .7 and out and not inn:
      f = lambda: qu.QuVector(out, ref, ign or None)
    elif w < .7 and inn and not out:
      f = lambda: qu.QuAdjointVector(inn, ref, ign or None)
    elif w < .7 and not inn and not out:
      f = lambda: qu.QuScalar(ref, ign or None)
    else:
      f = lambda: qu.quantum_constructor(out, inn, ref, ign or None)
    return self.do("leaf", a, f)

  def step(self):
    rng = self.rng
    n = len(self.objs)
    x = rng.randint(1, n) if rng.random() < .6 else n
    y = rng.randint(1, n)
    X, Y = self.objs[x - 1], self.objs[y - 1]
    op = rng.choice(["adjoint", "matmul", "matmul", "matmul", "matmul", "matmul", "matmul", "kron", "mul", "scale", "ptrace", "ptrace", "trace", "norm",
                     "projector", "reduced", "contract", "contract", "eval", "eval", "leaf"])
    if op == "leaf":
      return self.leaf()
    if op == "adjoint":
      return self.do(op, {"x": x}, lambda: X.adjoint())
    if op == "matmul":
      ok = [k for k in range(n) if list(self.objs[k].out_space) == list(X.in_space)]
      if ok and rng.random() < .95:
        y = rng.choice(ok) + 1
        Y = self.objs[y - 1]
      return self.do(op, {"x": x, "y": y}, lambda: X @ Y)
    if op == "kron":
      return self.do(op, {"x": x, "y": y}, lambda: X.tensor_product(Y))
    if op == "mul":
      sc = [k for k in range(n) if self.objs[k].is_scalar()]
      if sc and rng.random() < .85:
        s = rng.choice(sc) + 1
        x, y = rng.choice([(x, s), (s, x)])
        X, Y = self.objs[x - 1], self.objs[y - 1]
      return self.do(op, {"x": x, "y": y}, lambda: X * Y)
    if op == "scale":
      v = rng.choice([2, 3, -1, 0])
      z = complex(v, rng.choice([1, -2])) if self.cx and rng.random() < .6 else float(v)
      if B == "tensorflow":
        z = np.array(z, dtype=np.complex128 if self.cx else np.float64)
      else:
        z = rng.choice([lambda u: u, lambda u: np.array(u), lambda u: np.array(u)[()]])(z)
      bad = rng.random() < .1
      if bad:
        z = np.array([1., 2.]) + (0j if self.cx else 0)
      a = {"x": x, "num": tj(np.asarray(z))}
      way = rng.randrange(4)
      if way == 0:
        return self.do(op, a, lambda: X * tn.Node(z, backend=B))
      if way == 1:
        nd = tn.Node(z, backend=B)
        r = self.do(op, a, lambda: nd.__class__ and X.__rmul__(nd))
        return r
      if way == 2:
        return self.do(op, a, lambda: X * z)
      return self.do(op, a, lambda: z * X)
    if op in ("ptrace", "reduced"):
      if op == "reduced" and not (X.is_vector() or X.is_adjoint_vector()):
        return False
      m = len(X.out_edges) if op == "ptrace" else len(X.out_edges) + len(X.in_edges)
      k = min(len(X.out_edges), len(X.in_edges)) if op == "ptrace" else m
      ok = [j for j in range(k) if op == "reduced" or X.out_space[j] == X.in_space[j]]
      s = rng.sample(ok, rng.randint(0, len(ok)))
      if rng.random() < .1:
        s = s + [rng.randint(0, m + 1)]
      if len(set(s)) < len(s):
        return False
      arg = rng.choice([list, tuple, set])(s)
      f = (lambda: X.partial_trace(arg)) if op == "ptrace" else (lambda: X.reduced_density(arg))
      return self.do(op, {"x": x, "sub": [j + 1 for j in s]}, f)
    if op == "trace":
      if len(X.out_edges) > len(X.in_edges):
        return False
      return self.do(op, {"x": x}, lambda: X.trace())
    if op == "norm":
      return self.do(op, {"x": x}, lambda: X.norm())
    if op == "projector":
      if not isinstance(X, (qu.QuVector, qu.QuAdjointVector)):
        return False
      return self.do(op, {"x": x}, lambda: X.projector())
    con = rng.choice([None, None, ct.greedy, ct.auto] + ([ct.branch, ct.optimal] if len(X.nodes) < 6 else []))
    kw = {"contractor": con} if con else {}
    es = list(X.out_edges) + list(X.in_edges)
    sub = []
    if es and rng.random() < .35 and not X.ignore_edges:
      sub = rng.sample(range(len(es)), len(es))
      kw["final_edge_order"] = [es[j] for j in sub]
    if op == "contract":
      return self.do(op, {"x": x}, lambda: X.contract(**kw))
    return self.do(op, {"x": x, "sub": sub}, lambda: X.eval(**kw))

  def go(self, n):
    while not self.objs:
      self.leaf()
    for _ in range(self.rng.randint(0, 3)):
      self.leaf()
    k = 0
    while k < n and len(self.objs) < 12:
      try:
        self.step()
      except Skip:
        break
      k += 1

  def script(self, prog):
    """Executes one program of the specification (QuantumModel.tla)."""
    rng = self.rng
    c = prog[0][1]
    self.cx = bool(c)
    def fill(s, k):
      i = np.arange(1, int(np.prod(s)) + 1)
      v = (((7 * i + 3 * k) % 5) - 2).astype(np.float64)
      if c:
        v = v + 1j * (((i + k) % 3) - 1)
      return v.reshape(s)
    for k, (o, i) in enumerate([([2, 2], [2, 2]), ([2], [2, 2]), ([2, 2], [])]):
      t = fill(o + i, k + 1)
      n = t.ndim
      a = {"ts": [tj(t)], "labs": [list(range(n))], "out": list(range(len(o))), "inn": list(range(len(o), n))}
      if i:
        self.do("leaf", a, lambda: qu.QuOperator.from_tensor(t, list(range(len(o))), list(range(len(o), n)), backend=B))
      else:
        self.do("leaf", a, lambda: qu.QuVector.from_tensor(t, backend=B))
    for p in prog[1:]:
      if not self.steps[-1]["ok"]:
        break
      w, x = p[0], p[1]
      X = self.objs[x - 1]
      if w == "adjoint":
        self.do(w, {"x": x}, X.adjoint)
      elif w == "contract":
        self.do(w, {"x": x}, X.contract)
      elif w == "matmul":
        Y = self.objs[p[2] - 1]
        self.do(w, {"x": x, "y": p[2]}, lambda: X @ Y)
      elif w == "kron":
        Y = self.objs[p[2] - 1]
        self.do(w, {"x": x, "y": p[2]}, lambda: X.tensor_product(Y))
      elif w == "ptrace" and len(p[2]) == len(X.in_edges) and rng.random() < .4:
        self.do("trace", {"x": x}, X.trace)
      else:
        s = [j - 1 for j in p[2]]
        f = (lambda: X.partial_trace(s)) if w == "ptrace" else (lambda: X.reduced_density(s))
        self.do(w, {"x": x, "sub": p[2]}, f)
    x = len(self.objs)
    if self.steps[-1]["ok"] and rng.random() < .5:
      self.do("eval", {"x": x}, self.objs[-1].eval)

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 91)
  traces = []
  t0 = time.time()
  progs = None
  if args.script:
    with open(args.script) as f:
      progs = [json.loads(l) for l in f]
    random.Random(args.seed).shuffle(progs)
    progs = progs[args.shard % 4::4][:args.n]
  for i in range(len(progs) if progs is not None else args.n):
    if time.time() - t0 > args.secs:
      break
    w = World(rng)
    try:
      if progs is not None:
        w.script(progs[i])
      else:
        w.go(rng.randint(5, 18))
    except Skip:
      pass
    except Exception as e:
      if os.environ.get("VP_DEBUG"):
        raise
      w.steps.append({"op": "adjoint", "a": {"x": 0, "y": 0, "sub": []}, "ok": 0, "exc": "unreadable %s: %s" % (type(e).__name__, str(e)[:200]),
                      "r": {}, "vals": w.steps[-1]["vals"] if w.steps else []})
    traces.append({"id": "qu-%s-%d-%d" % (B, args.shard, i), "steps": w.steps})
  write_traces(args.out, traces)

main()
