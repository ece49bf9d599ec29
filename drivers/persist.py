"""Networks that are edited, saved, loaded, sent through JSON and drawn (X02, X03, X04)."""
import time, io, re, tempfile
from common import *
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
from tensornetwork.visualization.graphviz import to_graphviz
import graphviz
NN = ["a", "b", "node1", "node10", "node0", "n", "__hidden", "__unnamed_node__", "", "x y", "naïve", "a/b", "T\u03c3", 'q"uo', "True", "7"]
EN = ["e", "f", "edge1", "edge0", "edge12", "__hid", "", "l m", "\u00e9", "e.g/h", "7", 'k"']
AN = ["a", "b", "c", "d", "e", "\u00fc", "x y", "0", "1"]

class World:
  def __init__(self, rng):
    self.rng = rng
    self.nodes, self.steps, self.eid, self.keep = [], [], {}, []
    self.slots = {}
    self.dir = None

  def tensor(self, shape):
    kind = self.rng.choice(["float", "float", "float32", "complex", "int"])
    return rand_tensor(self.rng, shape, kind)

  def node(self):
    rng = self.rng
    nm = rng.choice(NN) if rng.random() < .8 else None
    if rng.random() < .12:
      r = rng.randint(1, 3)
      an = rng.sample(AN, r) if rng.random() < .5 else None
      n = tn.CopyNode(r, 2, name=nm, axis_names=an, backend=args.backend, dtype=rng.choice([np.float64, np.float32]))
    else:
      r = rng.choice([0, 1, 1, 2, 2, 3, 4])
      an = rng.sample(AN, r) if rng.random() < .6 else None
      n = tn.Node(self.tensor([rng.choice([1, 2, 2, 2, 3]) for _ in range(r)]), name=nm, axis_names=an, backend=args.backend)
    for e in n.edges:
      if rng.random() < .4:
        e.set_name(rng.choice(EN))
    self.nodes.append(n)

  def join(self):
    rng = self.rng
    d = [(n, i) for n in self.nodes for i, e in enumerate(n.edges) if e.is_dangling()]
    rng.shuffle(d)
    for i, (n, a) in enumerate(d):
      for m, b in d[i + 1:]:
        if n.shape[a] == m.shape[b]:
          return tn.connect(n[a], m[b], name=rng.choice(EN) if rng.random() < .7 else None)

  def lab(self, e):
    if id(e) not in self.eid:
      self.keep.append(e); self.eid[id(e)] = len(self.keep)
    return self.eid[id(e)]

  def proj(self, nodes, lab=None):
    if lab is None:
      local, keep = {}, []
      def lab(e):
        if id(e) not in local:
          keep.append(e); local[id(e)] = len(keep)
        return local[id(e)]
    out = []
    for n in nodes:
      cp = isinstance(n, tn.CopyNode)
      t = {"s": [int(x) for x in n.shape], "d": [], "c": 0, "x": 1} if cp else tj(n.tensor)
      dt = np.dtype(n.copy_node_dtype).name if cp else str(np.asarray(n.tensor).dtype)
      out.append({"k": type(n).__name__, "nm": n.name, "an": list(n.axis_names), "be": n.backend.name, "dt": dt, "t": t,
                  "e": [lab(e) for e in n.edges], "en": [e.name for e in n.edges],
                  "dn": [n.name, int(n.name.startswith("__"))], "den": [[e.name, int(e.name.startswith("__"))] for e in n.edges]})
    return out

  def well(self, nodes):
    seen = {}
    for n in nodes:
      for i, e in enumerate(n.edges):
        seen[id(e)] = seen.get(id(e), 0) + 1
        if not ((e.node1 is n and e.axis1 == i) or (e.node2 is n and e.axis2 == i)):
          return 0
        if e.node1 is None or e.dimension != n.shape[i] or n.get_edge(n.axis_names[i]) is not e:
          return 0
        if e.is_dangling() != (e.node2 is None):
          return 0
    for n in nodes:
      for e in n.edges:
        if seen[id(e)] != (1 if e.is_dangling() else 2):
          return 0
    return 1

  def log(self, op, a, ok=1, exc="", r=None):
    self.steps.append({"op": op, "a": a, "ok": ok, "exc": exc, "r": r or {}, "net": self.proj(self.nodes, self.lab)})

  def call(self, op, a, f, conv=lambda o: {}):
    try:
      o = f()
    except Exception as e:
      return self.log(op, a, 0, "%s: %s" % (type(e).__name__, str(e)[:200]))
    try:
      r = conv(o)
    except Exception as e:
      return self.log(op, a, 0, "unreadable %s: %s" % (type(e).__name__, str(e)[:200]))
    self.log(op, a, 1, "", r)

  def loaded(self, new):
    """project, then tamper with what was read back: nothing else may notice."""
    r = {"net": self.proj(new), "well": self.well(new), "shared": 0}
    mine = {id(e) for n in self.nodes for e in n.edges} | {id(n) for n in self.nodes}
    if any(id(x) in mine for n in new for x in [n] + list(n.edges)):
      r["shared"] = 1
    for n in new:
      if isinstance(n, tn.Node) and isinstance(n.tensor, np.ndarray) and n.tensor.flags.writeable:
        n.tensor[...] = 77
      n.set_name("tampered")
      for e in n.edges:
        e.set_name("tampered")
    return r

  def pick(self, closed=True):
    rng = self.rng
    n = len(self.nodes)
    if rng.random() < .45:
      idx = list(range(n))
      if rng.random() < .6:
        rng.shuffle(idx)
      return idx
    idx = rng.sample(range(n), rng.randint(1, n))
    if closed and rng.random() < .6:
      seed = set(tn.reachable(self.nodes[idx[0]]))
      idx = [i for i in range(n) if self.nodes[i] in seed]
      rng.shuffle(idx)
    if closed and rng.random() < .08:
      idx = idx + [idx[0]]
    return idx

  def edit(self):
    rng = self.rng
    w = rng.random()
    if w < .3:
      self.node()
    elif w < .6:
      self.join()
    elif w < .75:
      c = [e for n in self.nodes for e in n.edges if not e.is_dangling()]
      if c:
        tn.disconnect(rng.choice(c), rng.choice(EN), rng.choice(EN))
    elif w < .9:
      n = rng.choice(self.nodes)
      n.set_name(rng.choice(NN))
      if n.edges:
        rng.choice(n.edges).set_name(rng.choice(EN))
    else:
      n = rng.choice(self.nodes)
      if isinstance(n, tn.Node) and len(n.edges) > 1 and not any(e.node1 is e.node2 for e in n.edges):
        p = list(n.edges); rng.shuffle(p)
        n.reorder_edges(p)
    self.log("edit", {})

  def save(self):
    rng = self.rng
    idx = self.pick()
    slot = rng.randint(1, 3)
    way = rng.randrange(3)
    sel = [self.nodes[i] for i in idx]
    bad = int(rng.random() < .08)
    arg = rng.choice([list, list, tuple, iter])
    target = os.path.join(self.dir, "f%d-%d" % (slot, len(self.steps))) if way else io.BytesIO()
    if bad:
      target = os.path.join(self.dir, "nowhere", "f")
    def f():
      tn.save_nodes(arg(sel), target)
      self.slots[slot] = target
    self.call("save", {"idx": [i + 1 for i in idx], "slot": slot, "bad": bad}, f)

  def load(self):
    if not self.slots:
      return
    slot = self.rng.choice(sorted(self.slots))
    t = self.slots[slot]
    if not isinstance(t, str):
      t.seek(0)
    self.call("load", {"slot": slot}, lambda: tn.load_nodes(t), self.loaded)

  def json(self):
    rng = self.rng
    idx = self.pick(False)
    sel = [self.nodes[i] for i in idx]
    if rng.random() < .8 and any(isinstance(n, tn.CopyNode) for n in sel):
      idx = [i for i in idx if isinstance(self.nodes[i], tn.Node)]
      sel = [self.nodes[i] for i in idx]
    if not sel:
      return
    edges = [e for n in (self.nodes if rng.random() < .3 else sel) for e in n.edges]
    bind, b, bad = [], {}, 0
    if edges and rng.random() < .7:
      for k in rng.sample(["in", "out", "x y", "\u00e9"], rng.randint(1, 3)):
        es = [rng.choice(edges) for _ in range(rng.choice([1, 1, 2, 3, 4]))]
        if len(es) == 1 and rng.random() < .6:
          b[k] = es[0]
        else:
          b[k] = rng.choice([list, tuple])(es)
        bind.append([k, [self.lab(e) for e in es]])
    if rng.random() < .04 and edges:
      bad = 1
      b = rng.choice([{1: edges[0]}, {"k": "notanedge"}, {"k": [edges[0], 3]}])
      bind = []
    def f():
      s = tn.nodes_to_json(sel, edge_binding=b) if b or rng.random() < .5 else tn.nodes_to_json(sel)
      json.loads(s)
      return tn.nodes_from_json(s)
    def conv(o):
      new, eb = o
      flat = [e for n in new for e in n.edges]
      first = lambda e: 1 + min([i for i, x in enumerate(flat) if x is e] or [10 ** 6])
      r = {"bind": [[k, [first(e) for e in v]] for k, v in sorted(eb.items())]}
      r.update(self.loaded(new))
      return r
    self.call("json", {"idx": [i + 1 for i in idx], "bind": bind, "bad": bad}, f, conv)

  def draw(self):
    rng = self.rng
    idx = self.pick(False)
    sel = [self.nodes[i] for i in idx]
    al = rng.randint(0, 1)
    kw = {"include_all_names": True} if al else {}
    arg = rng.choice([lambda: sel, lambda: tuple(sel), lambda: iter(sel)])()
    if rng.random() < .2:
      kw["graph"] = graphviz.Graph("H")
    if rng.random() < .2:
      kw["engine"] = "dot"
    self.call("draw", {"idx": [i + 1 for i in idx], "all": al}, lambda: to_graphviz(arg, **kw), lambda g: self.parse(g, sel))

  def parse(self, g, sel):
    Q = r'(?:"((?:[^"\\]|\\.)*)"|([^\s\[\]=]+))'
    ids = {str(id(n)): k + 1 for k, n in enumerate(sel)}
    nodes, lines, stubs, extra, used = [], [], {}, 0, []
    un = lambda m, k: (m.group(k).replace('\\"', '"').replace("\\\\", "\\") if m.group(k) is not None else m.group(k + 1))
    for line in g.body:
      line = line.strip()
      m = re.match("^" + Q + r"\s+--\s+" + Q + r"\s*(?:\[(.*)\])?$", line)
      attr = lambda s: (lambda x: un(x, 1) if x else "")(re.search("label=" + Q, s or ""))
      if m:
        a, b = un(m, 1), un(m, 3)
        ka, kb = ids.get(a, 0), ids.get(b, 0)
        for x, k in ((a, ka), (b, kb)):
          if k == 0:
            used.append(x)
        lines.append(sorted([ka, kb]) + [attr(m.group(5))])
        continue
      m = re.match("^" + Q + r"\s*(?:\[(.*)\])?$", line)
      if not m:
        extra += 1
        continue
      n = un(m, 1)
      if n in ids:
        nodes.append([ids[n], attr(m.group(3))])
      else:
        stubs[n] = stubs.get(n, 0) + 1
        if "invis" not in (m.group(3) or "") or attr(m.group(3)):
          extra += 1
    return {"nodes": nodes, "lines": lines, "extra": extra,
            "stubs": int(sorted(used) == sorted(stubs) and all(v == 1 for v in stubs.values()) and len(set(used)) == len(used))}

  def go(self, n):
    rng = self.rng
    big = rng.random() < .15
    for _ in range(rng.randint(11, 14) if big else rng.randint(1, 4)):
      self.node()
    for _ in range(rng.randint(0, 6)):
      self.join()
    self.log("init", {})
    ops = {"X02": ["save"] * 4 + ["load"] * 4 + ["edit"] * 3, "X03": ["json"] * 4 + ["edit"] * 2, "X04": ["draw"] * 4 + ["edit"] * 2}[args.profile]
    with tempfile.TemporaryDirectory() as d:
      self.dir = d
      for _ in range(n):
        getattr(self, rng.choice(ops))()

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 55)
  traces = []
  t0 = time.time()
  for i in range(args.n):
    if time.time() - t0 > args.secs:
      break
    w = World(rng)
    try:
      w.go(rng.randint(6, 14))
    except Exception as e:
      if os.environ.get("VP_DEBUG"):
        raise
      w.steps.append(dict(w.steps[-1] if w.steps else {"net": []}, op={"X02": "load", "X03": "json", "X04": "draw"}[args.profile],
                          a={"idx": [], "slot": 1, "all": 0, "bad": 0, "bind": []}, ok=0, exc="unreadable %s: %s" % (type(e).__name__, str(e)[:200])))
    traces.append({"id": "ps-%s-%d-%d" % (args.backend, args.shard, i), "steps": w.steps})
  write_traces(args.out, traces)

main()
