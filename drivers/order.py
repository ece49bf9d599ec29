"""Contraction-order solvers on random labelled networks."""
import time, math
from common import *
args = parse_args()
block_imports("jax", "tensorflow")
import tensornetwork as tn
from tensornetwork.contractors.custom_path_solvers import pathsolvers as ps, nconinterface as ni

LIM = 2 ** 27

def gen(rng, n):
  dims1 = rng.random() < .25
  for _ in range(200):
    labs = [[] for _ in range(n)]
    dim = {}
    nl = 1
    p = rng.choice([.3, .6, .9])
    style = rng.choice(["any", "tree", "ring"])
    pairs = []
    for i in range(n):
      for j in range(i):
        if style == "any" and rng.random() < p:
          pairs.append((i, j))
    if style == "tree":
      pairs = [(i, rng.randrange(i)) for i in range(1, n) if rng.random() < .93]
    if style == "ring":
      pairs = [(i, i - 1) for i in range(1, n)] + ([(n - 1, 0)] if n > 2 else [])
    for (i, j) in pairs:
      for _ in range(rng.choice([1, 1, 1, 2])):
        labs[i].append(nl); labs[j].append(nl)
        dim[nl] = rng.choice([1, 2, 2, 3, 4, 5]) if dims1 else rng.choice([2, 2, 3, 4, 5])
        nl += 1
    if rng.random() < .3:
      i = rng.randrange(n)
      labs[i] += [nl, nl]
      dim[nl] = 2
      nl += 1
    k = -1
    for i in range(n):
      while rng.random() < .35 and k > -7:
        labs[i].append(k)
        dim[k] = rng.choice([1, 2, 3]) if dims1 else rng.choice([2, 3])
        k -= 1
    tot = 1
    for v in dim.values():
      tot *= v
    if tot < LIM // (4 * n) and (tot < 10 ** 6) and max((len(x) for x in labs), default=0) <= 8:
      break
  else:
    return gen(rng, max(1, n - 1))
  for x in labs:
    rng.shuffle(x)
  names = list(range(1, nl))
  sh = names[:]
  rng.shuffle(sh)
  ren = dict(zip(names, [s + rng.choice([0]) for s in sh]))
  labs = [[ren.get(x, x) for x in r] for r in labs]
  dim = {ren.get(x, x): d for x, d in dim.items()}
  return labs, dim

def unlog(c):
  if c is None:
    return -1
  c = float(c)
  if not math.isfinite(c) or c > 8.2:
    return -1
  v = 10 ** c
  r = round(v)
  return int(r) if abs(v - r) < 1e-6 * max(1, r) else -1

def rec(steps, op, a, fn, check):
  st = {"op": op, "a": a, "ok": 1, "exc": "", "r": {}, "same": 1}
  before = check()
  try:
    st["r"] = fn()
  except Exception as e:
    st["ok"] = 0
    st["exc"] = "%s: %s" % (type(e).__name__, str(e)[:150])
  if check() != before:
    st["same"] = 0
  steps.append(st)

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 9)
  traces = []
  t0 = time.time()
  for it in range(args.n):
    if time.time() - t0 > args.secs:
      break
    n = rng.choice([1, 2, 3, 3, 4, 4, 4, 5, 5, 5, 6, 7, 8])
    labs, dim = gen(rng, n)
    n = len(labs)
    has1 = any(d == 1 for d in dim.values())
    tensors = [rand_tensor(rng, [dim[x] for x in r], "float", -1, 1) for r in labs]
    dl = sorted(dim)
    a = {"labs": labs, "dl": dl, "dv": [dim[x] for x in dl], "exhaustive": 0}
    steps = []
    keep = lambda: [labs, [t.tobytes() for t in tensors]]
    def f_adj():
      adj = ni.ncon_to_adj(tensors, labs)
      return {"adj": [[unlog(v) for v in r] for r in np.asarray(adj).tolist()]}
    if sum(len(r) for r in labs) == 0:
      continue
    rec(steps, "adj", a, f_adj, keep)
    adj = ni.ncon_to_adj(tensors, labs)
    adjkeep = lambda: adj.tobytes()
    def greedy(f):
      def g():
        o, c = f(adj)
        return {"ord": [[int(x), int(y)] for x, y in zip(o[0], o[1])], "cost": unlog(c)}
      return g
    rec(steps, "greedy_size", a, greedy(ps.greedy_size_solve), adjkeep)
    rec(steps, "greedy_cost", a, greedy(ps.greedy_cost_solve), adjkeep)
    mb = rng.choice([None, None, 1, 2, 5, 50])
    if n <= 5 and rng.random() < .6:
      mb = None
    ex = 1 if mb is None and n <= 5 else 0
    def f_full():
      o, c, opt = ps.full_solve_complete(adj, max_branch=mb)
      gs = [unlog(g(adj)[1]) for g in (ps.greedy_size_solve, ps.greedy_cost_solve)]
      return {"ord": [[int(x), int(y)] for x, y in zip(o[0], o[1])], "cost": unlog(c), "opt": 1 if opt else 0, "greedy": min(gs)}
    rec(steps, "full", dict(a, exhaustive=ex), f_full, adjkeep)
    if not has1:
      def f_solver():
        o = ps.full_solve_complete(adj, max_branch=mb)[0]
        con, c, opt = tn.contractors.ncon_solver(tensors, labs, max_branch=mb)
        con = [int(x) for x in con]
        out = sorted([x for r in labs for x in r if x < 0], reverse=True)
        size = float(np.prod([dim[x] for x in dim]))
        val = 1
        if size < 2e5:
          ref = tn.ncon(tensors, labs, backend="numpy")
          got = tn.ncon(tensors, labs, con_order=con, backend="numpy") if con else ref
          val = 1 if np.allclose(ref, got) else 0
        return {"ord": [[int(x), int(y)] for x, y in zip(o[0], o[1])], "con": con, "cost": unlog(c), "val": val}
      rec(steps, "ncon_solver", a, f_solver, keep)
    con = sorted({x for r in labs for x in r if x > 0})
    c2 = con[:]
    rng.shuffle(c2)
    if con:
      for order, arg in ((con, None), (c2, c2)):
        arg0 = None if arg is None else list(arg)
        rec(steps, "cost_check", dict(a, con=list(order)), lambda: {"cost": unlog(ni.ncon_cost_check(tensors, labs, arg0))},
            lambda: [keep(), arg0])
    # the opt_einsum based solver on nodes
    if n <= 6:
      nodes = [tn.Node(t, backend="numpy") for t in tensors]
      where = {}
      for i, r in enumerate(labs):
        for k, x in enumerate(r):
          where.setdefault(x, []).append(nodes[i][k])
      for x, es in where.items():
        if len(es) == 2:
          es[0] ^ es[1]
      alg = rng.choice(["optimal", "branch", "greedy", "auto"])
      def f_path():
        p = tn.contractors.path_solver(alg, nodes, nbranch=rng.choice([None, 1, 2]) if alg == "branch" else None)
        return {"path": [[int(x) for x in q] for q in p]}
      rec(steps, "path_solver", a, f_path, lambda: [len(nodes)])
    traces.append({"id": "order-%d-%d" % (args.shard, it), "steps": steps})
  write_traces(args.out, traces)

main()
