"""ncon on random labelled tensor lists (ints, strings, batch labels, repeats)."""
import time
from common import *
args = parse_args()
if args.backend == "numpy":
  block_imports("jax", "tensorflow")
elif args.backend == "jax":
  block_imports("tensorflow")
else:
  block_imports("jax")
import tensornetwork as tn

def enc(l):
  return {"i": 0, "s": [ord(c) for c in l]} if isinstance(l, str) else {"i": int(l), "s": []}

NAMES = ["a", "b", "c", "z1", "1", "22", "B", "Z", "aa", "ab", "x9y", "10", "2"]

def gen(rng, kind_pool):
  nt = rng.choice([1, 1, 2, 2, 2, 3, 3, 3, 4, 5])
  ranks = [rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 4]) for _ in range(nt)]
  while sum(ranks) > 11:
    ranks[rng.randrange(nt)] = 1
  slots = [(t, a) for t in range(nt) for a in range(ranks[t])]
  rng.shuffle(slots)
  mode = rng.choice(["plain", "plain", "batch", "wild", "self"])
  ints_c = rng.sample(range(1, 30), 14)
  ints_o = [-x for x in rng.sample(range(1, 30), 14)]
  strs = rng.sample(NAMES, len(NAMES))
  usestr = rng.choice([0, 0, 0.3, 1])
  net = [[None] * r for r in ranks]
  dims = {}
  def newlab(open_):
    if rng.random() < usestr and strs:
      s = strs.pop()
      l = ("-" + s) if open_ else s
    else:
      l = ints_o.pop() if open_ else ints_c.pop()
    dims[l] = rng.choice([1, 2, 2, 2, 3])
    return l
  k = 0
  while k < len(slots):
    if mode == "plain":
      open_ = rng.random() < .35
      m = 1 if open_ else rng.choice([2, 2, 2, 1])
    elif mode == "batch":
      open_ = rng.random() < .45
      m = rng.choice([1, 2, 2, 3, 4]) if not open_ else rng.choice([1, 1, 2, 3])
    else:
      open_ = rng.random() < .4
      m = rng.choice([1, 1, 2, 2, 3])
    m = min(m, len(slots) - k)
    grp = slots[k:k + m]
    if mode in ("plain", "batch") and m > 1 and len({t for t, _ in grp}) < m:
      if m == 2 and not open_ and rng.random() < .5:
        pass   # a plain trace
      else:
        m = 1
        grp = slots[k:k + 1]
    lab = newlab(open_)
    for (t, a) in grp:
      net[t][a] = lab
    k += m
  if mode == "self" and nt:
    # force a label to repeat on one tensor and to occur elsewhere
    t = max(range(nt), key=lambda q: ranks[q])
    if ranks[t] >= 2:
      p, q = rng.sample(range(ranks[t]), 2)
      net[t][q] = net[t][p]
  while np.prod([float(d) for d in dims.values()]) > 3000:
    big = max(dims, key=lambda z: dims[z])
    dims[big] = max(1, dims[big] - 1)
  kind = rng.choice(kind_pool)
  ts = [rand_tensor(rng, [dims[l] for l in net[t]], kind if args.backend == "tensorflow" or rng.random() < .8 else kind_pool[0], -2, 2) for t in range(nt)]
  used = [l for r in net for l in r]
  con = list(dict.fromkeys(l for l in used if not (l[0] == "-" if isinstance(l, str) else l < 0)))
  out = list(dict.fromkeys(l for l in used if (l[0] == "-" if isinstance(l, str) else l < 0)))
  rng.shuffle(con)
  rng.shuffle(out)
  return ts, net, (con if rng.random() < .6 else None), (out if rng.random() < .5 else None)

def corrupt(rng, ts, net, con, out):
  net = [list(r) for r in net]
  used = [l for r in net for l in r]
  k = rng.choice(["fewer", "rank", "zero", "alnum", "dim", "conneg", "condup", "conshort", "conwrong",
                  "outpos", "outdup", "outshort", "outwrong", "emptystr"])
  allcon = list(dict.fromkeys(l for l in used if not (l[0] == "-" if isinstance(l, str) else l < 0)))
  allout = list(dict.fromkeys(l for l in used if (l[0] == "-" if isinstance(l, str) else l < 0)))
  if k == "fewer":
    if rng.random() < .5:
      net = net[:-1]
    else:
      net.append([])
  elif k == "rank":
    t = rng.randrange(len(net))
    if net[t] and rng.random() < .6:
      net[t].pop()
    else:
      net[t].append(used[0] if used else 1)
  elif k == "zero" and used:
    l = rng.choice(used)
    net = [[0 if x == l else x for x in r] for r in net]
    con = out = None
  elif k == "alnum" and used:
    l = rng.choice(used)
    b = rng.choice(["a_b", "-a b", "x-y", "--q", "-", "h@", "-!"])
    net = [[b if x == l else x for x in r] for r in net]
    con = out = None
  elif k == "dim" and used:
    t = rng.choice([i for i in range(len(net)) if net[i]])
    a = rng.randrange(len(net[t]))
    s = list(ts[t].shape)
    s[a] += 1
    ts = list(ts)
    ts[t] = np.ones(s, dtype=ts[t].dtype)
  elif k == "conneg":
    con = allcon[:-1] + [rng.choice(allout or [-3])]
  elif k == "condup" and allcon:
    con = allcon + [allcon[0]] if rng.random() < .5 else allcon[:-1] + [allcon[0]]
  elif k == "conshort" and len(allcon) > 1:
    con = allcon[:-1]
  elif k == "conwrong" and allcon:
    con = allcon[:-1] + [rng.choice([77, "qq"])]
  elif k == "outpos":
    out = allout[:-1] + [rng.choice(allcon or [5])]
  elif k == "outdup" and allout:
    out = allout + [allout[0]] if rng.random() < .5 else allout[:-1] + [allout[0]]
  elif k == "outshort" and len(allout) > 1:
    out = allout[:-1]
  elif k == "outwrong" and allout:
    out = allout[:-1] + [rng.choice([-77, "-qq"])]
  return ts, net, con, out

def call(rng, ts, net, con, out, backend):
  w = rng.choice([0, 0, 1, 2])
  if w == 2 and len(ts) < 2:
    w = 0
  ops = [tn.Tensor(t, backend=backend) if (w == 1 or (w == 2 and i % 2 == 0)) else t for i, t in enumerate(ts)]
  if w == 2:
    wrapped = 2
  else:
    wrapped = w
  before = [np.array(t.array if isinstance(t, tn.Tensor) else t) for t in ops]
  seqs = rng.choice([lambda q: list(q), lambda q: tuple(q)])
  netin = [seqs(r) for r in net]
  conin = list(con) if con is not None else None
  outin = list(out) if out is not None else None
  netb, conb, outb = [list(r) for r in netin], conin and list(conin), outin and list(outin)
  chk = 1
  a = {"ts": [tj(t) for t in ts], "net": [[enc(l) for l in r] for r in net],
       "con": [enc(l) for l in (con or [])], "out": [enc(l) for l in (out or [])],
       "conx": 1 if con else 0, "outx": 1 if out else 0, "w": wrapped}
  step = {"op": "ncon", "a": a, "ok": 1, "exc": "", "r": {}, "same": 1,
          "call": repr((netin, conin, outin))}
  try:
    way = rng.random()
    if way < .3:
      with tn.DefaultBackend(backend):
        res = tn.ncon(ops, netin, con_order=conin, out_order=outin)
    elif way < .5:
      from tensornetwork.backends import backend_factory
      res = tn.ncon(ops, netin, con_order=conin, out_order=outin, backend=backend_factory.get_backend(backend))
    else:
      res = tn.ncon(ops, netin, con_order=conin, out_order=outin, backend=backend)
    isw = isinstance(res, tn.Tensor)
    step["r"] = {"t": tj(res.array if isw else res), "w": 1 if isw else 0}
  except RecursionError:
    raise
  except Exception as e:
    step["ok"] = 0
    step["exc"] = "%s: %s" % (type(e).__name__, str(e)[:150])
  after = [np.array(t.array if isinstance(t, tn.Tensor) else t) for t in ops]
  if not all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(before, after)) or \
     [list(r) for r in netin] != netb or (conin and list(conin)) != conb or (outin and list(outin)) != outb:
    step["same"] = 0
  return step

def fill(shape, k):
  size = int(np.prod(shape))
  return (((7 * np.arange(1, size + 1) + 3 * (k + 1)) % 5) - 2).reshape(shape)

def modelled(rng, prog, kind):
  """One (labelling, order) of the specification's exhaustive model."""
  net, order = prog
  dim = {1: 2, 2: 3, -1: 2, -2: 1}
  dt = {"int": np.int64, "complex": np.complex128, "float32": np.float32}.get(kind, np.float64)
  ts = [fill([dim[l] for l in r], k).astype(dt) for k, r in enumerate(net)]
  if kind == "complex":
    ts = [t * rng.choice([1, 1j, 1 + 1j]) for t in ts]
  out = [l for l in (-1, -2) if any(l in r for r in net)]
  rng.shuffle(out)
  name = rng.choice([lambda l: l, lambda l: l, lambda l: {1: "b", 2: "a", -1: "-x", -2: "-y"}[l], lambda l: {1: 3, 2: "q", -1: "-a", -2: -4}[l]])
  enc = lambda q: [name(l) for l in q]
  return ts, [enc(r) for r in net], (enc(order) if rng.random() < .7 else None), (enc(out) if rng.random() < .5 else None)

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 5)
  kinds = ["float", "float", "complex", "int"] if args.backend == "numpy" else ["float", "complex"]
  if args.backend != "numpy":
    kinds = ["float32"] + (["float"] if rng.random() < .5 else ["complex"])
  traces = []
  t0 = time.time()
  progs = None
  if args.script:
    with open(args.script) as f:
      progs = [json.loads(l) for l in f]
    random.Random(args.seed).shuffle(progs)
    progs = progs[args.shard % 4::4][:8 * args.n]
  for i in range(args.n):
    if time.time() - t0 > args.secs:
      break
    steps = []
    if progs is not None:
      for p in progs[8 * i:8 * i + 8]:
        steps.append(call(rng, *modelled(rng, p, rng.choice(kinds)), args.backend))
      if steps:
        traces.append({"id": "ncon-model-%d-%d" % (args.shard, i), "steps": steps})
      continue
    for _ in range(6):
      c = gen(rng, kinds)
      if rng.random() < .3:
        c = corrupt(rng, *c)
      steps.append(call(rng, *c, args.backend))
    traces.append({"id": "ncon-%s-%d-%d" % (args.backend, args.shard, i), "steps": steps})
  write_traces(args.out, traces)

main()
