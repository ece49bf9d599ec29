"""Programs of nested default-backend and node-collection scopes (X01)."""
import time
from common import *
args = parse_args()
import tensornetwork as tn
from tensornetwork.backends import backend_factory
from tensornetwork.backends.numpy.numpy_backend import NumPyBackend
from tensornetwork.backend_contextmanager import get_default_backend
from tensornetwork.linalg import node_linalg
import jax, jax.numpy as jnp
import tensorflow as tf
NAMES = {1: "numpy", 2: "jax", 3: "tensorflow"}
OBJ = {5: NumPyBackend(), 6: NumPyBackend()}
ALL = [1, 2, 3, 5, 6]

def val(b):
  return NAMES.get(b) or OBJ.get(b) or {9: "nosuchbackend", 8: 17}[b]

def ident(x):
  """the number of a backend given as object or name."""
  for k, o in OBJ.items():
    if x is o:
      return k
  for k, n in NAMES.items():
    if isinstance(x, str) and x == n or x is backend_factory.get_backend(n):
      return k
  return 9 if x == "nosuchbackend" else 7

def like(arr):
  if isinstance(arr, np.ndarray) or np.isscalar(arr):
    return [1, 5, 6]
  if isinstance(arr, jax.Array):
    return [2]
  return [3] if tf.is_tensor(arr) else [7]

class Unwind(Exception):
  pass

class Run:
  def __init__(self, rng, prog=None):
    self.rng = rng
    self.steps, self.ids, self.keep = [], {}, []
    self.boxes = [set() if rng.random() < .5 else [] for _ in range(3)]
    self.sets = [k + 1 for k in range(3) if isinstance(self.boxes[k], set)]
    self.prog = prog
    self.made = []
    self.ctx = []
    self.left = rng.randint(5, 16)
    self.old = len(self.keep)

  def nid(self, n):
    if id(n) not in self.ids:
      self.keep.append(n)
      self.ids[id(n)] = len(self.keep)
    return self.ids[id(n)]

  def log(self, op, a, ok=1, exc="", r=None):
    a = dict(a, seen=a.get("seen", 0))
    box = []
    for b in self.boxes:
      c = [self.nid(n) for n in b]
      box.append(sorted(c) if isinstance(b, set) else c)
    self.steps.append({"op": op, "a": a, "ok": ok, "exc": exc, "r": r or {}, "def": ident(get_default_backend()), "box": box})

  def attempt(self, op, a, f, conv=lambda o: {}):
    try:
      o = f()
    except Unwind:
      raise
    except Exception as e:
      self.log(op, a, 0, "%s: %s" % (type(e).__name__, str(e)[:150]), {"nodes": [], "bs": []})
      return None
    self.log(op, a, 1, "", conv(o))
    return o

  def new(self, b=None):
    rng = self.rng
    if b is None:
      b = rng.choice([0, 0, 0] + ALL + [9])
    seen = len(self.keep)
    kw = {} if b == 0 and rng.random() < .7 else {"backend": None if b == 0 else val(b)}
    x = np.ones((2, 2), dtype=np.float32)
    bad, src, strict = 0, 0, 1
    nodes = lambda ns: {"nodes": [self.nid(n) for n in ns], "bs": [[ident(n.backend)] for n in ns]}
    one = lambda n: nodes([n])
    noid = lambda objs: {"nodes": [], "bs": [[ident(o.backend)] for o in objs]}
    kind = rng.choice(["node", "node", "copynode", "tensor", "init", "nodelin", "mps", "mpo", "ncon", "topology", "badnode", "renode",
                       "copy", "contract", "outer", "getitem", "copynodes", "greedy", "split", "arith", "conj"])
    conv = one
    if self.made and kind in ("renode", "copy", "contract", "outer", "copynodes", "greedy", "split", "arith", "conj"):
      n = rng.choice(self.made)
      src = ident(n.backend)
      t = n.tensor
      mk = lambda: tn.Node(t, backend=n.backend)
    elif kind in ("renode", "copy", "contract", "outer", "copynodes", "greedy", "split", "arith", "conj", "getitem"):
      kind = "node"
    if src and kind != "renode":
      b = 0
    if kind == "node":
      f = lambda: tn.Node(x, **kw)
    elif kind == "copynode":
      f = lambda: tn.CopyNode(2, 2, **kw)
    elif kind == "tensor":
      f = lambda: tn.Tensor(x, **kw)
      conv = lambda o: noid([o])
    elif kind == "init":
      g = rng.choice([lambda: tn.ones((2, 2), **kw), lambda: tn.zeros((2, 2), **kw), lambda: tn.eye(2, **kw), lambda: tn.linalg.initialization.randn((2, 2), **kw)])
      f = g
      conv = lambda o: noid([o])
    elif kind == "nodelin":
      f = rng.choice([lambda: node_linalg.eye(2, **kw), lambda: node_linalg.ones((2, 2), **kw), lambda: node_linalg.zeros((2, 2), **kw),
                      lambda: node_linalg.randn((2, 2), **kw), lambda: node_linalg.random_uniform((2, 2), **kw)])
    elif kind == "mps":
      strict = 0
      f = rng.choice([lambda: tn.FiniteMPS([np.ones((1, 2, 1))] * 2, canonicalize=False, **kw),
                      lambda: tn.FiniteMPS.random([2, 2], [1], np.float32, canonicalize=False, **kw),
                      lambda: tn.InfiniteMPS.random([2, 2], [1, 1, 1], np.float32, **kw)])
      conv = lambda o: noid([o])
    elif kind == "mpo":
      strict = 0
      f = rng.choice([lambda: tn.FiniteXXZ(np.ones(1), np.ones(1), np.ones(2), np.float32, **kw),
                      lambda: tn.FiniteTFI(np.ones(1), np.ones(2), np.float32, **kw)])
      conv = lambda o: noid([o])
    elif kind == "ncon":
      strict = 0
      f = lambda: tn.ncon([x, x], [[-1, 1], [1, -2]], **kw)
      conv = lambda o: {"nodes": [], "bs": [like(o)]}
    elif kind == "topology":
      f = lambda: tn.from_topology("ab,bc", [x, x], **kw)
      conv = nodes
    elif kind == "badnode":
      bad = 1
      f = rng.choice([lambda: tn.Node(x, axis_names=["a"], **kw), lambda: tn.Node(x, axis_names=["a", "a"], **kw), lambda: tn.Node(x, name=3, **kw)])
    elif kind == "renode":
      f = lambda: tn.Node(n, **kw)
    elif kind == "copy":
      f = n.copy
    elif kind == "copynodes":
      f = lambda: list(tn.replicate_nodes([n]))
      conv = nodes
    elif kind == "contract":
      strict = 0
      def f():
        p, q = mk(), mk()
        e = p[0] ^ q[0]
        return [p, q, rng.choice([lambda: tn.contract(e), lambda: p @ q, lambda: tn.contract_between(p, q)])()]
      conv = nodes
    elif kind == "outer":
      strict = 0
      f = lambda: (lambda p, q: [p, q, tn.outer_product(p, q)])(mk(), mk())
      conv = nodes
    elif kind == "greedy":
      strict = 0
      def f():
        p, q = mk(), mk()
        p[0] ^ q[0]; p[1] ^ q[1]
        return [p, q, tn.contractors.greedy([p, q])]
      conv = nodes
    elif kind == "split":
      strict = 0
      def f():
        p = mk()
        return [p] + list(tn.split_node_qr(p, [p[0]], [p[1]]))
      conv = nodes
    elif kind == "arith":
      f = lambda: n + n
      if not isinstance(n, tn.Node):
        return
    elif kind == "conj":
      f = lambda: node_linalg.conj(n)
    a = {"b": b, "bad": bad, "src": src, "strict": strict, "kind": kind, "seen": seen}
    if src and kind != "renode":
      # a result computed from nodes has a backend of the same name
      base = conv
      same = [k for k in ALL if backend_factory.get_backend(val(k)).name == n.backend.name]
      conv = lambda o: (lambda d: dict(d, bs=[same if set(b) <= set(same) else b for b in d["bs"]]))(base(o))
    o = self.attempt("new", a, f, conv)
    if o is not None and kind in ("node", "copy", "renode") and isinstance(o, tn.Node):
      self.made.append(o)

  def choose(self, depth):
    rng = self.rng
    self.left -= 1
    if self.left < 0:
      return ["exit", 1]
    w = rng.random()
    if w < .12:
      return ["set", rng.choice(ALL + [8, 9])]
    if w < .3 and depth < 5:
      return ["b", rng.choice(ALL * 3 + [8, 9])]
    if w < .5 and depth < 5:
      return ["c", rng.randint(1, 3)]
    if w < .6 and depth:
      return ["exit", 1]
    if w < .68 and depth:
      return ["exc", rng.randint(1, depth)]
    if w < .72:
      return ["construct", rng.randint(0, 3)]
    return ["new", None]

  def block(self, depth):
    while True:
      if self.prog is not None:
        if not self.prog:
          return
        p = self.prog.pop(0)
      else:
        p = self.choose(depth)
      if p[0] == "set":
        self.attempt("set", {"b": p[1]}, lambda: tn.set_default_backend(val(p[1])))
      elif p[0] == "new":
        self.new(p[1])
      elif p[0] == "construct":
        k = p[1]
        f = [lambda: tn.DefaultBackend("jax"), lambda: tn.NodeCollection([]), lambda: tn.NodeCollection((1,)), lambda: tn.DefaultBackend(3.5)][k]
        self.attempt("construct", {"valid": int(k < 2)}, f)
      elif p[0] == "exit":
        if depth == 0 and self.prog is not None:
          continue
        return
      elif p[0] == "exc":
        raise Unwind(p[1])
      else:
        self.scope(p, depth)

  def scope(self, p, depth):
    rng = self.rng
    known = [c for k, x, c in self.ctx if (k, x) == (p[0], p[1])]
    a = {"k": p[0], "x": p[1]}
    try:
      if known and rng.random() < .4:
        c = rng.choice(known)
      else:
        c = tn.DefaultBackend(val(p[1])) if p[0] == "b" else tn.NodeCollection(self.boxes[p[1] - 1])
        self.ctx.append((p[0], p[1], c))
    except Exception as e:
      return self.log("enter", a, 0, "%s: %s" % (type(e).__name__, str(e)[:100]))
    up = None
    try:
      with c:
        self.log("enter", a)
        try:
          self.block(depth + 1)
        except Unwind as u:
          up = u
          raise
    except Unwind as u:
      self.log("exit", {"how": "exc"}, r={"swallowed": 0})
      k = u.args[0] - 1
      if k > 0:
        raise Unwind(k)
      return
    self.log("exit", {"how": "exc" if up else "exit"}, r={"swallowed": int(up is not None)})

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 5)
  progs = None
  if args.script:
    with open(args.script) as f:
      progs = [json.loads(l) for l in f]
    rng.shuffle(progs)
    progs = progs[args.shard % 4::4][:args.n]
  traces = []
  t0 = time.time()
  for i in range(len(progs) if progs is not None else args.n):
    if time.time() - t0 > args.secs:
      break
    tn.set_default_backend("numpy")
    r = Run(rng, progs[i] if progs is not None else None)
    try:
      r.block(0)
    except Unwind:
      pass
    traces.append({"id": "sc-%d-%d-%d" % (1 if progs is not None else 0, args.shard, i), "steps": r.steps, "sets": r.sets})
  write_traces(args.out, [t for t in traces if t["steps"]])

main()
