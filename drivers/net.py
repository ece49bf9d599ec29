"""Network driver: runs random (or specification-generated) programs of public
TensorNetwork calls on the real code and records, after every call, the
projected state of the network."""
import sys, os, time, json, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import *
args = parse_args()
if args.backend == "numpy":
  block_imports("tensorflow", "jax")
import tensornetwork as tn
from tensornetwork import network_components as nc
from tensornetwork.network_operations import redirect_edge
if args.backend == "jax":
  import jax
  jax.config.update("jax_enable_x64", True)

NAMES = ["a", "b", "c", "d", "e", "f", "g", "h"]

class Prog:
  def __init__(self, rng, backend, weights, maxsteps, maxnodes=5):
    self.rng = rng
    self.be = backend
    self.nodes = {}           # id -> live node
    self.nid = {}             # id(obj) -> id
    self.eid = {}
    self.edges = {}           # id -> edge object (ever seen)
    self.keep = []            # strong refs
    self.nn = 0
    self.ne = 0
    self.deadedges = []
    self.deadnodes = []
    self.steps = []
    self.w = weights
    self.maxsteps = maxsteps
    self.maxnodes = maxnodes
    self.kind = rng.choice(["float", "float", "int", "complex"]) if backend == "numpy" else rng.choice(["float", "complex"])
    self.namecount = 0
    self.stop = False

  # -- identities ---------------------------------------------------------
  def regnode(self, n):
    if id(n) not in self.nid:
      self.nn += 1
      self.nid[id(n)] = self.nn
      self.keep.append(n)
    return self.nid[id(n)]
  def regedge(self, e):
    if id(e) not in self.eid:
      self.ne += 1
      self.eid[id(e)] = self.ne
      self.edges[self.ne] = e
      self.keep.append(e)
    return self.eid[id(e)]
  def n(self, i):
    return self.nodes[i]
  def e(self, i):
    return self.edges[i]

  # -- projection -----------------------------------------------------------
  def proj(self):
    ns, es, seen = [], [], set()
    for i in sorted(self.nodes):
      nd = self.nodes[i]
      rec = {"id": i, "nm": str(nd.name), "cp": 1 if isinstance(nd, tn.CopyNode) else 0}
      try:
        el = list(nd.edges)
      except Exception:
        el = []
      rec["e"] = [self.regedge(x) for x in el]
      for x in el:
        if id(x) not in seen:
          seen.add(id(x))
      an = nd.axis_names
      rec["an"] = [str(x) for x in an] if an is not None else []
      if rec["cp"]:
        rec["t"] = {"s": [int(x) for x in nd.shape], "d": [], "c": 0, "x": 1}
      else:
        try:
          rec["t"] = tj(nd.tensor)
          if list(int(x) for x in nd.shape) != rec["t"]["s"]:
            rec["t"]["x"] = 0
        except Exception:
          rec["t"] = {"s": [], "d": [], "c": 0, "x": 0}
      ns.append(rec)
    done = set()
    for r in ns:
      for x in r["e"]:
        if x in done:
          continue
        done.add(x)
        e = self.edges[x]
        d = {"id": x, "ends": [], "nm": "", "bad": 0, "dang": 0}
        try:
          n1, a1, n2, a2 = e.node1, e.axis1, e.node2, e.axis2
          d["nm"] = str(e.name)
          d["ends"].append([self.nid.get(id(n1), 0), int(a1) if a1 is not None else -1])
          if n2 is not None:
            d["ends"].append([self.nid.get(id(n2), 0), int(a2) if a2 is not None else -1])
          d["dang"] = 1 if e.is_dangling() else 0
          d["dim"] = int(e.dimension)
          d["tr"] = 1 if e.is_trace() else 0
          d["used"] = 1 if e.is_being_used() else 0
        except Exception:
          d["bad"] = 1
          d["dim"] = 0
          d["tr"] = 0
          d["used"] = 0
        es.append(d)
    return {"nodes": ns, "edges": es}

  # -- executing one call -----------------------------------------------------
  def call(self, op, a, fn, leave=(), enter=None, consumed=(), nodead=False):
    """fn() -> (list of returned live nodes, ret dict factory).  `leave`: node
    ids that leave the network on success; consumed: edge ids consumed."""
    leave = list(leave)
    ev = {"op": op, "a": a, "ok": 1, "exc": "", "ret": {}}
    cons = [self.edges[c] for c in consumed]
    try:
      out = fn()
    except Exception as err:      # every raise is an observation
      ev["ok"] = 0
      ev["exc"] = type(err).__name__ + ": " + str(err)[:80]
      ev["post"] = self.proj()
      ev["dead"] = []
      ev["deadn"] = []
      self.steps.append(ev)
      return None
    newnodes = (enter(out) if enter else [])
    gone = []
    for i in leave:
      nd = self.nodes.pop(i, None)
      if nd is not None:
        gone.append(nd)
    for nd in newnodes:
      i = self.regnode(nd)
      self.nodes[i] = nd
    ev["post"] = self.proj()
    ev["dead"] = []
    ev["deadn"] = []
    if not nodead:
      for e in cons:
        ok = 1
        for attr in ("node1", "axis1", "node2", "axis2", "name"):
          try:
            getattr(e, attr)
            ok = 0
          except Exception:
            pass
        ev["dead"].append(ok)
        self.deadedges.append(e)
      live = {id(self.edges[x["id"]]) for x in ev["post"]["edges"]}
      for nd in gone:
        if any(nd is x for x in self.nodes.values()):
          continue
        ok = 1
        try:
          for k, e in enumerate(nd.edges):
            if id(e) in live or not e.is_dangling() or e.node1 is not nd or e.axis1 != k:
              ok = 0
        except Exception:
          ok = 0
        ev["deadn"].append(ok)
        self.deadnodes.append(nd)
    self.steps.append(ev)
    return out, ev

  # -- helpers -----------------------------------------------------------------
  def live_edges(self):
    s = []
    for nd in self.nodes.values():
      for e in nd.edges:
        if self.regedge(e) not in s:
          s.append(self.eid[id(e)])
    return s
  def dangling(self):
    return [x for x in self.live_edges() if self.edges[x].is_dangling()]
  def connected(self):
    return [x for x in self.live_edges() if not self.edges[x].is_dangling()]
  def traces(self):
    return [x for x in self.connected() if self.edges[x].is_trace()]
  def newname(self, p="n"):
    self.namecount += 1
    return p + str(self.namecount)
  def maybe_name(self, p="n"):
    return self.newname(p) if self.rng.random() < .4 else None
  def eids(self, nd):
    return [self.regedge(e) for e in nd.edges]
  def size(self, i):
    return int(np.prod(self.nodes[i].shape)) if len(self.nodes[i].shape) else 1
  def is_cp(self, i):
    return isinstance(self.nodes[i], tn.CopyNode)
  def ends(self, x):
    e = self.edges[x]
    r = [self.nid[id(e.node1)]]
    if e.node2 is not None:
      r.append(self.nid[id(e.node2)])
    return r
  def shared(self, i, j):
    out = []
    for x in self.eids(self.nodes[i]):
      en = self.ends(x)
      if len(en) == 2 and set(en) == {i, j} and x not in out:
        out.append(x)
    return out
  def outsize(self, i, j, shared):
    p = self.size(i) * self.size(j)
    for x in shared:
      p //= max(1, self.edges[x].dimension) ** 2
    return p

  # -- operations ----------------------------------------------------------
  def op_star(self):
    """Connect every dangling edge of a copy node (creating partners)."""
    rng = self.rng
    c = [i for i in self.nodes if self.is_cp(i) and any(e.is_dangling() for e in self.nodes[i].edges)]
    if not c:
      return self.op_newcopy()
    i = rng.choice(c)
    nd = self.nodes[i]
    todo = [self.regedge(e) for e in nd.edges if e.is_dangling()]
    rng.shuffle(todo)
    d = self.edges[todo[0]].dimension
    for x in todo:
      cand = [y for y in self.dangling() if self.edges[y].dimension == d and self.ends(y) != [i]
              and not (self.is_cp(self.ends(y)[0]) and rng.random() < .8)]
      if not cand or (rng.random() < .4 and len(self.nodes) < self.maxnodes + 2):
        r = rng.choice([1, 2, 2, 3])
        shape = [rng.choice([d, 2, 1]) for _ in range(r)]
        shape[rng.randrange(r)] = d
        self.op_new(shape)
        cand = [y for y in self.eids(self.nodes[max(self.nodes)]) if self.edges[y].dimension == d]
      y = rng.choice(cand)
      self.op_connect(pair=(x, y))
    return True

  def op_new(self, given=None):
    rng = self.rng
    if len(self.nodes) >= self.maxnodes and given is None:
      return False
    r = rng.choice([0, 1, 1, 2, 2, 2, 3, 3, 3, 4, 4])
    shape = [rng.choice([1, 2, 2, 3, 3, 2, 4]) for _ in range(r)]
    if self.maxnodes > 8:
      r = rng.choice([1, 2, 2, 3, 3])
      shape = [rng.choice([1, 1, 2]) for _ in range(r)]
    if given is not None:
      shape = given
      r = len(shape)
    while int(np.prod(shape)) > 48:
      shape[rng.randrange(r)] = 2
      if int(np.prod(shape)) > 48:
        shape[rng.randrange(r)] = 1
    kind = self.kind
    if args.backend == "numpy" and rng.random() < .1:
      kind = rng.choice(["float", "int", "complex"])
    t = rand_tensor(rng, shape, kind)
    names = None
    if rng.random() < .4:
      names = rng.sample(NAMES, r)
    nm = self.maybe_name()
    a = {"t": tj(t), "an": names if names is not None else [str(i) for i in range(r)],
         "anx": 1, "nm": nm or "", "nmx": 1 if nm else 0, "given": 1 if names is not None else 0}
    def fn():
      return tn.Node(t, name=nm, axis_names=names, backend=self.be)
    return self.fin("new", a, fn, enter=lambda n: [n], ret=lambda n: {"n": self.nid[id(n)], "e": self.eids(n)})

  def op_newcopy(self):
    rng = self.rng
    if len(self.nodes) >= self.maxnodes:
      return False
    r = rng.choice([1, 2, 3, 3, 4])
    d = rng.choice([1, 2, 2, 3])
    dt = {"int": np.int64, "complex": np.complex128}.get(self.kind, np.float64)
    names = rng.sample(NAMES, r) if rng.random() < .4 else None
    nm = self.maybe_name()
    a = {"rank": r, "dim": d, "an": names if names is not None else [str(i) for i in range(r)],
         "anx": 1, "nm": nm or "", "nmx": 1 if nm else 0, "given": 1 if names is not None else 0}
    return self.fin("newcopy", a, lambda: tn.CopyNode(r, d, name=nm, axis_names=names, backend=self.be, dtype=dt),
                    enter=lambda n: [n], ret=lambda n: {"n": self.nid[id(n)], "e": self.eids(n)})

  def fin(self, op, a, fn, leave=(), enter=None, consumed=(), ret=None, nodead=False):
    r = self.call(op, a, fn, leave, enter, consumed, nodead)
    if r is None:
      return True
    out, ev = r
    ev["ret"] = ret(out) if ret else {}
    return True

  def op_connect(self, bad=False, pair=None):
    rng = self.rng
    d = self.dangling()
    pairs = [pair] if pair else [(x, y) for x in d for y in d if x < y and self.edges[x].dimension == self.edges[y].dimension]
    if bad:
      le = self.live_edges()
      if not le:
        return False
      x, y = rng.choice(le), rng.choice(le)
      if self.deadedges and rng.random() < .2:
        de = rng.choice(self.deadedges)
        return self.fin("bad", {"what": "connect consumed edge"}, lambda: tn.connect(self.edges[x], de))
    else:
      if not pairs:
        return False
      x, y = rng.choice(pairs)
      if rng.random() < .5:
        x, y = y, x
    ex, ey = self.edges[x], self.edges[y]
    how = rng.choice(["connect", "xor", "connectn"])
    nm = self.newname("e") if how == "connectn" else None
    a = {"x": x, "y": y, "en": nm or "", "enx": 1 if nm else 0}
    fn = (lambda: ex ^ ey) if how == "xor" else (lambda: tn.connect(ex, ey, nm) if nm else tn.connect(ex, ey))
    return self.fin("connect", a, fn, ret=lambda e: {"e": [self.regedge(e)]})

  def op_disconnect(self, bad=False):
    rng = self.rng
    c = self.dangling() if bad else self.connected()
    if not c:
      return False
    x = rng.choice(c)
    e = self.edges[x]
    how = rng.choice(["f", "m", "or", "n"])
    n1, n2 = (self.newname("e"), self.newname("e")) if how == "n" else (None, None)
    if bad and how == "or":
      le = [y for y in self.live_edges() if y != x]
      if not le:
        return False
      f = self.edges[rng.choice(le)]
      return self.fin("bad", {"what": "e1 | e2 of different edges"}, lambda: e | f)
    fn = {"f": lambda: tn.disconnect(e), "m": lambda: e.disconnect(), "or": lambda: e | e,
          "n": lambda: tn.disconnect(e, n1, n2)}[how]
    ends = [[self.nid[id(e.node1)], e.axis1]] + ([[self.nid[id(e.node2)], e.axis2]] if e.node2 is not None else [])
    a = {"e": x, "en": [n1 or "", n2 or ""], "enx": 1 if n1 else 0, "ends": ends}
    return self.fin("disconnect", a, fn, ret=lambda r: {"e": [self.regedge(r[0]), self.regedge(r[1])]})

  def wrongnames(self, rank):
    """axis names that cannot be given to a node with that many axes"""
    rng = self.rng
    if rank >= 2 and rng.random() < .4:
      w = [rng.choice(NAMES) for _ in range(rank)]
      w[rng.randrange(1, rank)] = w[0]
      return w
    if rank >= 1 and rng.random() < .3:
      return rng.sample(range(9), rank) if rank < 9 else [3] * rank
    return [NAMES[k % 8] + str(k) for k in range(rng.choice([max(rank - 1, 0), rank + 1]) or 1 + (rank == 1))]

  def op_contract(self, bad=False):
    rng = self.rng
    c = self.dangling() if bad else self.connected()
    if bad and self.deadedges and rng.random() < .4:
      de = rng.choice(self.deadedges)
      f = rng.choice([tn.contract, tn.contract_parallel])
      return self.fin("bad", {"what": "contract consumed edge"}, lambda: f(de))
    c = [x for x in c if bad or len(set(self.ends(x))) == 1 or self.outsize(*self.ends(x), [x]) <= 256]
    if not c:
      return False
    x = rng.choice(c)
    e = self.edges[x]
    en = self.ends(x)
    nm = self.maybe_name()
    rank = sum(len(self.nodes[i].shape) for i in set(en)) - 2
    an = None
    if not bad and len(set(en)) == 2 and rng.random() < .3:
      an = rng.sample(NAMES, rank) if rank <= 8 else None
    if not bad and len(set(en)) == 2 and rng.random() < .06:
      wrong = self.wrongnames(rank)
      return self.fin("bad", {"what": "contract axis_names", "an": [str(w) for w in wrong], "m": sorted(set(en)), "x": x}, lambda: tn.contract(e, axis_names=wrong))
    a = {"e": x, "nm": nm or "", "nmx": 1 if nm else 0, "an": an or [], "anx": 1 if an is not None else 0}
    return self.fin("contract", a, lambda: tn.contract(e, name=nm, axis_names=an), leave=set(en), enter=lambda n: [n],
                    consumed=[x], ret=lambda n: {"n": self.nid[id(n)]})

  def op_between(self, bad=False):
    rng = self.rng
    ids = list(self.nodes)
    if not ids:
      return False
    prs = [(i, j) for i in ids for j in ids]
    rng.shuffle(prs)
    for i, j in prs:
      sh = self.shared(i, j)
      outer = rng.random() < .3
      if i == j:
        if not sh and not bad:
          continue
      elif self.outsize(i, j, sh) > 256:
        continue
      elif not sh and not outer and not bad:
        continue
      if bad and sh and rng.random() < .3:
        continue
      n1, n2 = self.nodes[i], self.nodes[j]
      rest = [y for y in self.eids(n1) if y not in sh] + ([y for y in self.eids(n2) if y not in sh] if i != j else [])
      order = None
      hastr = len(set(rest)) != len(rest)
      if rng.random() < .5 and not hastr:
        order = rest[:]
        rng.shuffle(order)
      if bad and sh:
        order = rest[:]
        k = rng.choice(["drop", "extra", "dup", "shared"])
        le = [y for y in self.live_edges() if y not in rest]
        if k == "drop" and order:
          order.pop(rng.randrange(len(order)))
          if not order:
            continue
        elif k == "extra" and le:
          order.append(rng.choice(le))
        elif k == "dup" and order:
          order.append(rng.choice(order))
        else:
          order.append(rng.choice(sh))
      nm = self.maybe_name()
      rank = len(rest)
      an = rng.sample(NAMES, rank) if (rank <= 8 and not bad and rng.random() < .3) else None
      if not bad and rng.random() < .06:
        wrong = self.wrongnames(rank)
        return self.fin("bad", {"what": "contract_between axis_names"},
                        lambda: tn.contract_between(n1, n2, allow_outer_product=True, axis_names=wrong))
      how = "f"
      if order is None and an is None and nm is None and not outer:
        how = rng.choice(["f", "matmul"])
      a = {"m": i, "n": j, "outer": 1 if outer else 0, "order": order if order is not None else [],
           "orderx": 1 if order else 0, "nm": nm or "", "nmx": 1 if nm else 0,
           "an": an or [], "anx": 1 if an else 0}
      oe = [self.edges[y] for y in order] if order is not None else None
      if how == "matmul":
        fn = lambda: n1 @ n2
      else:
        fn = lambda: tn.contract_between(n1, n2, name=nm, allow_outer_product=outer, output_edge_order=oe, axis_names=an)
      return self.fin("between", a, fn, leave={i, j}, enter=lambda n: [n], consumed=sh,
                      ret=lambda n: {"n": self.nid[id(n)]})
    return False

  def op_parallel(self, bad=False):
    rng = self.rng
    c = self.dangling() if bad else self.connected()
    ok = []
    for x in c:
      en = self.ends(x)
      if bad or len(set(en)) == 1 or self.outsize(*en, self.shared(*en)) <= 256:
        ok.append(x)
    if not ok:
      return False
    x = rng.choice(ok)
    en = self.ends(x)
    e = self.edges[x]
    sh = [] if bad else self.shared(en[0], en[-1])
    return self.fin("parallel", {"e": x}, lambda: tn.contract_parallel(e), leave=set(en), enter=lambda n: [n],
                    consumed=sh, ret=lambda n: {"n": self.nid[id(n)]})

  def op_tracedges(self):
    rng = self.rng
    ids = [i for i in self.nodes if self.shared(i, i)] if rng.random() < .8 else list(self.nodes)
    if not ids:
      return False
    i = rng.choice(ids)
    nd = self.nodes[i]
    sh = self.shared(i, i)
    return self.fin("tracedges", {"m": i}, lambda: tn.contract_trace_edges(nd), leave={i}, enter=lambda n: [n],
                    consumed=sh, ret=lambda n: {"n": self.nid[id(n)]})

  def op_outer(self):
    rng = self.rng
    ids = list(self.nodes)
    prs = [(i, j) for i in ids for j in ids if i != j and self.size(i) * self.size(j) <= 200]
    if not prs:
      return False
    i, j = rng.choice(prs)
    nm = self.maybe_name()
    rank = len(self.nodes[i].shape) + len(self.nodes[j].shape)
    an = rng.sample(NAMES, rank) if rank <= 8 and rng.random() < .3 else None
    a = {"m": i, "n": j, "nm": nm or "", "nmx": 1 if nm else 0, "an": an or [], "anx": 1 if an is not None else 0}
    n1, n2 = self.nodes[i], self.nodes[j]
    if rng.random() < .08:
      wrong = self.wrongnames(rank)
      return self.fin("bad", {"what": "outer_product axis_names"}, lambda: tn.outer_product(n1, n2, axis_names=wrong))
    return self.fin("outer", a, lambda: tn.outer_product(n1, n2, name=nm, axis_names=an), leave={i, j},
                    enter=lambda n: [n], ret=lambda n: {"n": self.nid[id(n)]})

  def op_outerfinal(self, bad=False):
    rng = self.rng
    ids = [i for i in self.nodes if bad or not self.nodes[i].has_nondangling_edge()]
    if len(ids) < 1:
      return False
    rng.shuffle(ids)
    ids = ids[:rng.randint(1, 3)]
    tot = 1
    for i in ids:
      tot *= self.size(i)
    if tot > 256:
      return False
    order = [y for i in ids for y in self.eids(self.nodes[i])]
    if len(set(order)) != len(order) and not bad:
      return False
    rng.shuffle(order)
    if bad and not any(self.nodes[i].has_nondangling_edge() for i in ids):
      le = [y for y in self.live_edges() if y not in order]
      k = rng.choice(["drop", "extra", "dup"])
      if not order:
        return False
      if k == "drop" and len(order) > 1:
        order.pop()
      elif k == "extra" and le:
        order.append(rng.choice(le))
      else:
        order.append(rng.choice(order))
    nds = [self.nodes[i] for i in ids]
    oe = [self.edges[y] for y in order]
    return self.fin("outerfinal", {"ids": ids, "order": order}, lambda: tn.outer_product_final_nodes(rng.choice([list, tuple, iter])(nds), oe),
                    leave=set(ids), enter=lambda n: [n], ret=lambda n: {"n": self.nid[id(n)]})

  def op_flatten(self, bad=False):
    rng = self.rng
    groups = {}
    for x in self.live_edges():
      en = self.ends(x)
      key = (tuple(sorted(set(en))), len(en))
      if any(self.is_cp(i) for i in en):
        continue
      groups.setdefault(key, []).append(x)
    if bad:
      le = [x for x in self.live_edges() if not any(self.is_cp(i) for i in self.ends(x))]
      if len(le) < 2:
        return False
      es = rng.sample(le, min(len(le), rng.randint(2, 3)))
    else:
      gs = [g for g in groups.values() if len(g) >= 2] or list(groups.values())
      if not gs:
        return False
      g = rng.choice(gs)
      es = rng.sample(g, rng.randint(1, len(g)) if len(g) < 4 else 3)
    nm = self.newname("e") if rng.random() < .5 else None
    eo = [self.edges[x] for x in es]
    if len({id(x) for x in eo}) != len(eo):
      return False
    return self.fin("flatten", {"es": es, "en": nm or "", "enx": 1 if nm and len(es) > 1 else 0},
                    lambda: tn.flatten_edges(eo, nm) if nm else tn.flatten_edges(eo),
                    consumed=es if len(es) > 1 else [], ret=lambda e: {"e": [self.regedge(e)]})

  def op_flatbetween(self):
    rng = self.rng
    ids = [i for i in self.nodes if not self.is_cp(i)]
    prs = [(i, j) for i in ids for j in ids]
    rng.shuffle(prs)
    prs.sort(key=lambda p: -min(2, len(self.shared(*p))))
    if not prs:
      return False
    i, j = rng.choice(prs[:3])
    sh = self.shared(i, j)
    if len(sh) > 3:
      return False
    n1, n2 = self.nodes[i], self.nodes[j]
    return self.fin("flatbetween", {"m": i, "n": j}, lambda: tn.flatten_edges_between(n1, n2),
                    consumed=sh if len(sh) > 1 else [], ret=lambda e: {"e": [self.regedge(e)] if e is not None else []})

  def op_flatall(self):
    rng = self.rng
    if any(self.is_cp(i) for i in self.nodes):
      return False
    ids = list(self.nodes)
    if not ids:
      return False
    if rng.random() < .4:
      ids = rng.sample(ids, rng.randint(1, len(ids)))
    groups = {}
    for i in ids:
      for x in self.eids(self.nodes[i]):
        en = self.ends(x)
        if len(en) == 2 and x not in groups.setdefault(tuple(sorted(set(en))), []):
          groups[tuple(sorted(set(en)))].append(x)
    gs = [g for g in groups.values() if g]
    if not gs or max(len(g) for g in gs) > 3 or len(gs) > 3:
      return False
    cons = [x for g in gs if len(g) > 1 for x in g]
    nds = [self.nodes[i] for i in ids]
    return self.fin("flatall", {"groups": gs}, lambda: tn.flatten_all_edges(rng.choice([list, iter])(nds)), consumed=cons,
                    ret=lambda r: {"e": [self.regedge(e) for e in r]})

  def op_split(self, bad=False):
    rng = self.rng
    c = [x for x in self.live_edges() if not any(self.is_cp(i) for i in self.ends(x))]
    if not bad:
      big = [x for x in c if self.edges[x].dimension >= 4]
      if big and rng.random() < .8:
        c = big
    if not c:
      return False
    x = rng.choice(c)
    d = self.edges[x].dimension
    shape = []
    r = d
    while r > 1 and rng.random() < .9:
      f = rng.choice([k for k in range(1, r + 1) if r % k == 0])
      shape.append(f)
      r //= f
      if len(shape) >= 2:
        break
    shape.append(r)
    good = shape[:]
    if bad:
      shape[rng.randrange(len(shape))] += 1
    names = [self.newname("e") for _ in shape] if rng.random() < .4 else None
    e = self.edges[x]
    if bad and len(shape) > 1 and rng.random() < .5:
      # a shape that fits, but with too few or too many names, or negative sizes
      if rng.random() < .6:
        wrong = rng.choice([[], good[1:], good + [1]])
        return self.fin("bad", {"what": "split_edge names"}, lambda: tn.split_edge(e, tuple(good), [self.newname("e") for _ in wrong]))
      k = rng.sample(range(len(good)), 2)
      neg = tuple(-g if i in k else g for i, g in enumerate(good))
      return self.fin("bad", {"what": "split_edge negative"}, lambda: tn.split_edge(e, neg, names))
    return self.fin("split", {"e": x, "shape": shape, "en": names or [], "enx": 1 if names and len(shape) > 1 else 0},
                    lambda: tn.split_edge(e, tuple(shape), names) if names else tn.split_edge(e, tuple(shape)),
                    consumed=[x] if len(shape) > 1 else [], ret=lambda r: {"e": [self.regedge(y) for y in r]})

  def op_slice(self, bad=False):
    rng = self.rng
    c = [x for x in self.live_edges() if not any(self.is_cp(i) for i in self.ends(x))]
    big = [x for x in c if self.edges[x].dimension >= 2]
    if big:
      c = big
    if not c:
      return False
    x = rng.choice(c)
    e = self.edges[x]
    d = e.dimension
    ln = rng.randint(1, d)
    st = rng.randint(0, d - ln)
    if args.backend != "tensorflow" and rng.random() < .2:
      st = st - d
    if bad:
      ln, st = rng.choice([(0, 0), (-1, 0), (d + 1, 0), (ln, d - ln + 1), (1, d), (2, -1), (1, -d - 1), (1, -d - 3), (d, 1)])
    return self.fin("slice", {"e": x, "start": st, "len": ln}, lambda: tn.slice_edge(e, st, ln),
                    ret=lambda r: {"e": [self.regedge(r)]})

  def op_reorder_edges(self, bad=False):
    rng = self.rng
    ids = [i for i in self.nodes if not self.is_cp(i) and (bad or not self.shared(i, i))]
    ids = [i for i in ids if len(self.nodes[i].edges) > (0 if bad else 1)] or ids
    if not ids:
      return False
    i = rng.choice(ids)
    nd = self.nodes[i]
    order = self.eids(nd)
    rng.shuffle(order)
    if bad and not self.shared(i, i):
      k = rng.choice(["drop", "extra", "dup"])
      le = [y for y in self.live_edges() if y not in order]
      if not order and not le:
        return False
      if not order:
        k = "extra"
      if k == "drop" or (k == "extra" and not le):
        order.pop()
      elif k == "extra":
        order.append(rng.choice(le))
      else:
        order.insert(rng.randrange(len(order) + 1), rng.choice(order))
    elif bad:
      pass
    oe = [self.edges[y] for y in order]
    return self.fin("reorderedges", {"m": i, "order": order}, lambda: nd.reorder_edges(oe))

  def op_reorder_axes(self, bad=False):
    rng = self.rng
    ids = [i for i in self.nodes if not self.is_cp(i)]
    if not ids:
      return False
    i = rng.choice(ids)
    nd = self.nodes[i]
    p = list(range(len(nd.shape)))
    rng.shuffle(p)
    if bad:
      if not p:
        return False
      k = rng.choice(["drop", "out", "dup"])
      if k == "drop":
        p.pop()
      elif k == "out":
        p[0] = len(p)
      else:
        p.append(p[0])
    return self.fin("reorderaxes", {"m": i, "perm": p}, lambda: nd.reorder_axes(p))

  def op_axisnames(self, bad=False):
    rng = self.rng
    ids = list(self.nodes)
    if not ids:
      return False
    i = rng.choice(ids)
    nd = self.nodes[i]
    r = len(nd.shape)
    if r > 8:
      return False
    an = rng.sample(NAMES, r)
    if bad:
      if r >= 2 and rng.random() < .5:
        an[1] = an[0]
      else:
        an = an + ["z"]
    return self.fin("axisnames", {"m": i, "an": an}, lambda: nd.add_axis_names(an))

  def op_copy(self, partial=None):
    rng = self.rng
    ids = list(self.nodes)
    if not ids:
      return False
    if rng.random() < .2:
      return self.op_density()
    k = rng.randint(1, len(ids))
    S = rng.sample(ids, k)
    conj = rng.random() < .4
    nds = [self.nodes[i] for i in S]
    how = rng.choice(["copy", "copy", "replicate", "node"])
    if how == "node":
      i = S[0]
      nd = self.nodes[i]
      return self.fin("nodecopy", {"m": i, "conj": 1 if conj else 0}, lambda: nd.copy(conj), enter=lambda n: [n],
                      ret=lambda n: {"n": self.nid[id(n)], "e": self.eids(n)})
    if how == "replicate":
      form = rng.choice([list, list, tuple, iter])
      return self.fin("replicate", {"S": S, "conj": 1 if conj else 0}, lambda: tn.replicate_nodes(form(nds), conj),
                      enter=lambda r: list(r), ret=lambda r: {"n": [self.nid[id(n)] for n in r]})
    form = rng.choice([lambda x: x, lambda x: x, set, iter, tuple])
    return self.fin("copy", {"S": S, "conj": 1 if conj else 0}, lambda: tn.copy(form(nds), conj),
                    enter=lambda r: [r[0][n] for n in nds if n in r[0]],
                    ret=lambda r: {"nm": [[self.nid.get(id(k), 0), self.nid.get(id(v), 0)] for k, v in r[0].items()],
                                   "em": [[self.regedge(k), self.regedge(v)] for k, v in r[1].items()]})

  def op_density(self):
    rng = self.rng
    d = self.dangling()
    if not d:
      return False
    T = rng.sample(d, rng.randint(1, min(3, len(d))))
    c = self.connected()
    if c and rng.random() < .15:
      T.insert(rng.randrange(len(T) + 1), rng.choice(c))
    S = tn.reachable(set(n for x in T for n in self.edges[x].get_nodes() if n is not None))
    if len(self.nodes) + len(S) > 9 or sum(self.size(self.nid[id(n)]) for n in S) > 200:
      return False
    es = [self.edges[x] for x in T]
    form = rng.choice([list, tuple, set, iter])
    return self.fin("density", {"T": T}, lambda: tn.reduced_density(form(es)),
                    enter=lambda r: list(r[0].values()),
                    ret=lambda r: {"nm": [[self.nid.get(id(k), 0), self.nid.get(id(v), 0)] for k, v in r[0].items()],
                                   "em": [[self.regedge(k), self.regedge(v)] for k, v in r[1].items()]})

  def op_remove(self):
    rng = self.rng
    ids = list(self.nodes)
    if not ids:
      return False
    i = rng.choice(ids)
    nd = self.nodes[i]
    cut = [k for k, e in enumerate(nd.edges) if not e.is_dangling() and not e.is_trace()]
    names = list(nd.axis_names)
    return self.fin("remove", {"m": i}, lambda: tn.remove_node(nd),
                    ret=lambda r: {"byaxis": [[int(k), self.regedge(v)] for k, v in r[1].items()],
                                   "byname": [[k, self.regedge(v)] for k, v in r[0].items()],
                                   "own": [[k, self.regedge(nd.edges[k])] for k in cut if k < len(nd.edges)],
                                   "names": names})

  def op_contractcopy(self, bad=False):
    rng = self.rng
    c = [i for i in self.nodes if self.is_cp(i)]
    def good(i):
      es = list(self.nodes[i].edges)
      if any(e.is_dangling() for e in es):
        return False
      ps = {j for e in es for j in self.ends(self.regedge(e))} - {i}
      tot = 1
      for j in ps:
        tot *= self.size(j)
      return bool(ps) and tot <= 1500
    def dang(i):
      return any(e.is_dangling() for e in self.nodes[i].edges)
    c = [i for i in c if (dang(i) if bad else good(i))]
    if not c:
      return False
    i = rng.choice(c)
    nd = self.nodes[i]
    nm = self.maybe_name()
    ps = {j for e in nd.edges if not e.is_dangling() for j in self.ends(self.regedge(e))}
    ps.add(i)
    return self.fin("contractcopy", {"m": i, "nm": nm or "", "nmx": 1 if nm else 0},
                    lambda: tn.contract_copy_node(nd, nm) if nm else tn.contract_copy_node(nd),
                    leave=ps, enter=lambda n: [n], ret=lambda n: {"n": self.nid[id(n)]}, nodead=True)

  def op_copytensor(self):
    rng = self.rng
    c = [i for i in self.nodes if self.is_cp(i)]
    if not c:
      return False
    i = rng.choice(c)
    nd = self.nodes[i]
    how = rng.choice(["tensor", "get", "make"])
    def fn():
      if how == "tensor":
        return nd.tensor
      if how == "get":
        return nd.get_tensor()
      return tn.CopyNode.make_copy_tensor(nd.rank, nd.dimension, np.float64)
    def ret(t):
      p = []
      return {"t": tj(t)}
    return self.fin("copytensor", {"m": i}, fn, ret=ret)

  def op_lookup(self):
    rng = self.rng
    ids = list(self.nodes)
    if not ids:
      return False
    i = rng.choice(ids)
    nd = self.nodes[i]
    def fn():
      out = {"axn": [], "edn": [], "edi": [], "dimn": [], "dimi": [], "axi": [], "getn": [], "sl": []}
      for k, name in enumerate(nd.axis_names):
        out["axn"].append(int(nd.get_axis_number(name)))
        out["axi"].append(int(nd.get_axis_number(k)))
        out["edn"].append(self.regedge(nd.get_edge(name)))
        out["edi"].append(self.regedge(nd.get_edge(k)))
        out["getn"].append(self.regedge(nd[name]))
        out["dimn"].append(int(nd.get_dimension(name)))
        out["dimi"].append(int(nd.get_dimension(k)))
      out["sl"] = [self.regedge(e) for e in nd[:]]
      out["all"] = [self.regedge(e) for e in nd.get_all_edges()]
      out["rank"] = int(nd.get_rank())
      bad = 0
      try:
        nd.get_axis_number("no such axis")
        bad = 1
      except ValueError:
        pass
      try:
        nd.get_dimension(len(nd.shape))
        bad = 1
      except ValueError:
        pass
      out["bad"] = bad
      return out
    return self.fin("lookup", {"m": i}, fn, ret=lambda r: r)

  def op_edgeorder(self, bad=False):
    rng = self.rng
    ids = [i for i in self.nodes if not self.is_cp(i) and not self.shared(i, i)]
    if not ids:
      return False
    i = rng.choice(ids)
    nd = self.nodes[i]
    order = self.eids(nd)
    rng.shuffle(order)
    if bad:
      le = [y for y in self.live_edges() if y not in order]
      if not le:
        return False
      order.append(rng.choice(le))
    oe = [self.edges[y] for y in order]
    return self.fin("edgeorder", {"m": i, "order": order}, lambda: nd.tensor_from_edge_order(oe),
                    ret=lambda t: {"t": tj(t)})

  def op_query(self):
    rng = self.rng
    ids = list(self.nodes)
    if not ids:
      return False
    S = rng.sample(ids, rng.randint(1, len(ids)))
    x = rng.choice(self.live_edges()) if self.live_edges() else 0
    i, j = rng.choice(ids), rng.choice(ids)
    nds = [self.nodes[k] for k in S]
    N = lambda s: sorted(self.nid.get(id(n), 0) for n in s)
    E = lambda s: sorted(self.regedge(e) for e in s)
    W = rng.choice([list, list, tuple, iter])   # any iterable of nodes will do
    def fn():
      o = {}
      o["reach_set"] = N(tn.reachable(set(nds)))
      o["reach_list"] = N(tn.reachable(W(nds)))
      o["reach_one"] = N(tn.reachable(nds[0]))
      o["reach_edge"] = N(tn.reachable(self.edges[x])) if x else []
      o["alledges"] = E(tn.get_all_edges(W(nds)))
      o["allnodes"] = N(tn.get_all_nodes([self.edges[x]])) if x else []
      o["alln2"] = N(tn.get_all_nodes(tn.get_all_edges(W(nds))))
      o["nondang"] = E(tn.get_all_nondangling(W(nds)))
      o["dang"] = [self.regedge(e) for e in tn.get_all_dangling(W(nds))]
      o["sub"] = E(tn.get_subgraph_dangling(W(nds)))
      o["neigh"] = N(tn.get_neighbors(self.nodes[i]))
      o["shared"] = E(tn.get_shared_edges(self.nodes[i], self.nodes[j]))
      o["parallel"] = E(tn.get_parallel_edges(self.edges[x])) if x and not self.edges[x].is_dangling() else []
      o["parx"] = 1 if x and not self.edges[x].is_dangling() else 0
      o["has_nd"] = 1 if self.nodes[i].has_nondangling_edge() else 0
      o["has_d"] = 1 if self.nodes[i].has_dangling_edge() else 0
      o["n_nd"] = E(self.nodes[i].get_all_nondangling())
      o["n_d"] = E(self.nodes[i].get_all_dangling())
      try:
        tn.check_connected(W(nds)); o["conn"] = 1
      except ValueError:
        o["conn"] = 0
      try:
        tn.check_correct(W(nds), check_connections=False); o["corr"] = 1
      except ValueError:
        o["corr"] = 0
      try:
        tn.check_correct(W(nds)); o["corrc"] = 1
      except ValueError:
        o["corrc"] = 0
      return o
    return self.fin("query", {"S": S, "e": x, "i": i, "j": j}, fn, ret=lambda r: r)

  def op_arith(self):
    rng = self.rng
    ids = [i for i in self.nodes if not self.is_cp(i)]
    if not ids or len(self.nodes) >= self.maxnodes:
      return False
    i = rng.choice(ids)
    nd = self.nodes[i]
    f = rng.choice(["add", "sub", "mul"])
    same = [j for j in ids if tuple(self.nodes[j].shape) == tuple(nd.shape)]
    if rng.random() < .5:
      j = rng.choice(same); o = self.nodes[j]; c = 0
    else:
      j = 0; c = rng.randint(-2, 2); o = c
    fn = {"add": lambda: nd + o, "sub": lambda: nd - o, "mul": lambda: nd * o}[f]
    if args.backend == "tensorflow" and j == 0:
      return False
    return self.fin("arith", {"f": f, "m": i, "n": j, "c": c}, fn, enter=lambda n: [n],
                    ret=lambda n: {"n": self.nid[id(n)], "e": self.eids(n)})

  # -- whole-network contraction ----------------------------------------------
  def subset(self, bad=False):
    """A set of nodes whose complete contraction is cheap enough to judge."""
    rng = self.rng
    ids = list(self.nodes)
    if not ids:
      return None
    S = ids if rng.random() < .6 else rng.sample(ids, rng.randint(1, len(ids)))
    S = list(S)
    rng.shuffle(S)
    labs = {}
    for i in S:
      for x in self.eids(self.nodes[i]):
        labs[x] = self.edges[x].dimension
    tot = 1
    for d in labs.values():
      tot *= d
    if tot > 6000:
      return None
    dang = [x for x in labs if not (len(self.ends(x)) == 2 and set(self.ends(x)) <= set(S))]
    out = 1
    for x in dang:
      out *= labs[x]
    if out > 256 or len(dang) > (5 if self.be == "tensorflow" else 8):
      return None
    return S, dang, [x for x in labs if x not in dang]

  def bad_order(self, order, inner):
    rng = self.rng
    k = rng.choice(["drop", "extra", "dup", "inner"])
    order = order[:]
    others = [y for y in self.live_edges() if y not in order]
    if k == "drop" and order:
      order.pop(rng.randrange(len(order)))
    elif k == "dup" and order:
      order.insert(rng.randrange(len(order) + 1), rng.choice(order))
    elif k == "inner" and inner:
      order.append(rng.choice(inner))
    elif others:
      order.append(rng.choice(others))
    return order

  def op_contractor(self, bad=False):
    rng = self.rng
    q = self.subset()
    if q is None:
      return False
    S, dang, inner = q
    if len(S) > 1 and any(self.is_cp(i) for i in S) and args.backend != "numpy":
      return False
    order = dang[:]
    rng.shuffle(order)
    mode = rng.choice(["order", "order", "order", "none", "ignore"])
    alg = rng.choice(["optimal", "branch", "greedy", "auto", "auto", "custom"])
    if len(S) > 7:
      alg = rng.choice(["greedy", "auto", "auto"] if len(S) < 12 else ["greedy", "auto"])
    if bad:
      if mode == "none" and len(dang) < 2:
        mode = "order"
      if mode == "ignore":
        mode = "order"
      if mode == "order":
        order = self.bad_order(order, inner)
    C = tn.contractors
    nds = [self.nodes[i] for i in S]
    form = rng.choice([list, tuple, set, iter])
    kw = {}
    if mode == "order":
      kw["output_edge_order"] = [self.edges[y] for y in order]
    if mode == "ignore":
      kw["ignore_edge_order"] = True
    if rng.random() < .2:
      kw["memory_limit"] = 10 ** 8
    if alg == "branch" and rng.random() < .5:
      kw["nbranch"] = rng.choice([1, 2])
    if alg == "custom":
      import opt_einsum
      opt = rng.choice([opt_einsum.paths.greedy, opt_einsum.paths.optimal, opt_einsum.paths.dynamic_programming,
                        opt_einsum.paths.branch])
      if len(S) > 5:
        opt = opt_einsum.paths.greedy
      fn = lambda: C.custom(form(nds), opt, **kw)
    else:
      fn = lambda: getattr(C, alg)(form(nds), **kw)
    a = {"S": S, "alg": alg, "order": order if mode == "order" else [], "orderx": 1 if mode == "order" else 0,
         "ign": 1 if mode == "ignore" else 0}
    return self.fin("contractor", a, fn, leave=S, enter=lambda n: [n], consumed=inner, ret=lambda n: {"n": self.nid[id(n)]})

  def op_contractpath(self, bad=False):
    rng = self.rng
    q = self.subset()
    if q is None:
      return False
    S, dang, inner = q
    if len(S) > 1 and any(self.is_cp(i) for i in S) and args.backend != "numpy":
      return False
    order = dang[:]
    rng.shuffle(order)
    if bad:
      order = self.bad_order(order, inner)
    nds = [self.nodes[i] for i in S]
    oe = [self.edges[y] for y in order]
    alg = rng.choice(["optimal", "branch", "greedy", "auto", "random", "random", "pairs"])
    form = rng.choice([list, tuple, iter])
    if len(S) > 7 and alg in ("optimal", "branch"):
      alg = rng.choice(["greedy", "random"])
    if alg in ("random", "pairs"):
      path = []
      m = len(S)
      while m > 1:
        if alg == "random" and rng.random() < .15:
          path.append((rng.randrange(m),))
          continue
        path.append(tuple(rng.sample(range(m), 2)))
        m -= 1
      get = lambda: path
    else:
      get = lambda: tn.contractors.path_solver(alg, form(nds))
    before = list(nds)
    def fn():
      r = tn.contractors.contract_path(get(), nds if form is list else form(nds), oe)
      if len(nds) != len(before) or any(x is not y for x, y in zip(nds, before)):
        raise RuntimeError("the node list passed in was modified")
      return r
    a = {"S": S, "alg": alg, "order": order, "orderx": 1, "ign": 0}
    return self.fin("contractor", a, fn, leave=S, enter=lambda n: [n], consumed=inner, ret=lambda n: {"n": self.nid[id(n)]})

  def op_bucket(self):
    rng = self.rng
    cps = [i for i in self.nodes if self.is_cp(i) and not any(e.is_dangling() for e in self.nodes[i].edges)]
    if not cps or any(self.ends(x) == [i, i] for i in cps for x in self.eids(self.nodes[i])):
      return False
    # copy nodes next to each other are each other's partners: keep them apart
    cps = [i for i in cps if not any(j != i and self.is_cp(j) for x in self.eids(self.nodes[i]) for j in self.ends(x))]
    if not cps:
      return False
    order = rng.sample(cps, rng.randint(1, len(cps)))
    S = set(order)
    for c in order:
      for x in self.eids(self.nodes[c]):
        S |= set(self.ends(x))
    if rng.random() < .3:
      S = set(self.nodes)
    tot = 1
    for i in S:
      if not self.is_cp(i):
        tot *= self.size(i)
    if tot > 5000 or sum(len(self.nodes[i].shape) for i in S) > 16:
      return False
    S = sorted(S)
    nds = [self.nodes[i] for i in S]
    cs = [self.nodes[i] for i in order]
    touched = set(order)
    for c in order:
      for x in self.eids(self.nodes[c]):
        touched |= set(self.ends(x))
    def enter(res):
      return [n for n in res if self.nid.get(id(n)) is None or self.nid[id(n)] not in self.nodes]
    return self.fin("bucket", {"S": S, "order": order}, lambda: tn.contractors.bucket(rng.choice([list, tuple, iter])(nds), cs), leave=touched,
                    enter=enter, ret=lambda r: {"n": sorted(self.regnode(n) for n in r)}, nodead=True)

  # -- moving nodes to another backend -----------------------------------------
  def switch(self, S, target):
    nds = [self.nodes[i] for i in S]
    a = {"S": S, "to": target, "before": [n.backend.name for n in nds], "after": [], "tens": []}
    def fn():
      try:
        return tn.switch_backend(self.rng.choice([list, tuple, iter])(nds), target)
      finally:
        a["after"] = [n.backend.name for n in nds]
        a["tens"] = ["numpy" if isinstance(n.tensor, np.ndarray) else "other" for n in nds]
    return self.fin("switch", a, fn)

  def switch_all(self, target):
    rng = self.rng
    ids = list(self.nodes)
    rng.shuffle(ids)
    if len(ids) > 1 and rng.random() < .6:
      k = rng.randrange(1, len(ids))
      self.switch(ids[:k], target)
      mixed = list(ids)
      rng.shuffle(mixed)
      self.switch(mixed, rng.choice([target, target, "numpy"]))
      ids = ids[k:]
    self.switch(ids, target)

  # -- run -------------------------------------------------------------------
  def run(self):
    rng = self.rng
    init = self.proj()
    ops, ws = zip(*self.w.items())
    target = self.be
    if target in ("jax", "tensorflow") and rng.random() < .2:
      self.be = "numpy"           # built on numpy, moved to the target backend before the program
    # always start with a few nodes
    for _ in range(rng.randint(self.maxnodes - 5, self.maxnodes) if self.maxnodes > 8 else rng.randint(1, 3)):
      self.op_new()
    if self.w.get("newcopy", 0) and rng.random() < self.w.get("newcopy_start", .2):
      self.op_newcopy()
    for _ in range(rng.randint(10, 20) if self.maxnodes > 8 else rng.randint(0, 4)):
      self.op_connect()
    if self.be != target:
      self.switch_all(target)
      self.be = target
    tries = 0
    while len(self.steps) < self.maxsteps and tries < 6 * self.maxsteps:
      tries += 1
      op = rng.choices(ops, ws)[0]
      if op == "newcopy_start":
        continue
      bad = False
      if op.startswith("bad_"):
        bad, op = True, op[4:]
      f = getattr(self, "op_" + op)
      before = len(self.steps)
      f(True) if bad else f()
      if len(self.steps) > before:
        big = max([maxabs(np.array(nd.tensor)) for i, nd in self.nodes.items() if not self.is_cp(i)] or [0])
        if big > 3000 or sum(self.size(i) for i in self.nodes) > 900 or max([len(nd.shape) for nd in self.nodes.values()] or [0]) > (6 if self.be == 'tensorflow' else 9):
          break
        last = self.steps[-1]
        if any(e["bad"] for e in last["post"]["edges"]) or any(not n["t"]["x"] for n in last["post"]["nodes"]):
          break
        if any(len(n["e"]) != len(n["t"]["s"]) or 0 in n["t"]["s"] for n in last["post"]["nodes"]):
          break
        if last["ok"] == 0 and len(self.steps) > 1:
          # continuing after a rejected call is part of the point, unless it corrupted the state
          if last["post"] != self.steps[-2]["post"]:
            break
    return {"init": init, "steps": self.steps}

class Script(Prog):
  """Executes one program of the specification (NetModel.tla) on the real code."""
  def run_script(self, prog):
    init = self.proj()
    self.mn, self.me = {}, {}          # the specification's ids -> ours
    self.cn = self.ce = 0
    for op in prog:
      before = len(self.steps)
      getattr(self, "do_" + op[0])(*op[1:])
      if len(self.steps) > before and not self.steps[-1]["ok"]:
        break
    return {"init": init, "steps": self.steps}
  def e_new(self, e):
    self.ce += 1
    self.me[self.ce] = e
  def E(self, k):
    return self.edges[self.me[k]]
  def do_init(self, shapes):
    dt = {"int": np.int64, "complex": np.complex128}.get(self.kind, np.float64)
    for k, sh in enumerate(shapes):
      size = int(np.prod(sh))
      t = (((7 * np.arange(1, size + 1) + 3 * (k + 1)) % 5) - 2).reshape(sh).astype(dt)
      a = {"t": tj(t), "an": [str(i) for i in range(len(sh))], "anx": 1, "nm": "", "nmx": 0, "given": 0}
      self.fin("new", a, lambda: tn.Node(t, backend=self.be), enter=lambda n: [n],
               ret=lambda n: {"n": self.nid[id(n)], "e": self.eids(n)})
      self.cn += 1
      self.mn[self.cn] = max(self.nodes)
      for x in self.eids(self.nodes[self.mn[self.cn]]):
        self.e_new(x)
  def result(self):
    self.cn += 1
    if self.steps[-1]["ok"]:
      self.mn[self.cn] = self.steps[-1]["ret"]["n"]
  def do_connect(self, x, y):
    x, y = self.me[x], self.me[y]
    ex, ey = self.edges[x], self.edges[y]
    fn = self.rng.choice([lambda: ex ^ ey, lambda: tn.connect(ex, ey), lambda: tn.connect(edge1=ex, edge2=ey)])
    self.fin("connect", {"x": x, "y": y, "en": "", "enx": 0}, fn, ret=lambda e: {"e": [self.regedge(e)]})
    if self.steps[-1]["ok"]:
      self.e_new(self.steps[-1]["ret"]["e"][0])
  def do_disconnect(self, x):
    x = self.me[x]
    e = self.edges[x]
    fn = self.rng.choice([lambda: tn.disconnect(e), lambda: e.disconnect(), lambda: e | e])
    old = min((k, i) for k, i in self.mn.items() if i in self.ends(x))[1]
    a = {"e": x, "en": ["", ""], "enx": 0, "ends": [[self.nid[id(e.node1)], e.axis1], [self.nid[id(e.node2)], e.axis2]]}
    self.fin("disconnect", a, fn, ret=lambda r: {"e": [self.regedge(r[0]), self.regedge(r[1])]})
    if self.steps[-1]["ok"]:
      r = self.steps[-1]["ret"]["e"]
      for y in sorted(r, key=lambda y: 0 if y in self.eids(self.nodes[old]) else 1):
        self.e_new(y)
  def do_contract(self, x):
    x = self.me[x]
    e = self.edges[x]
    self.fin("contract", {"e": x, "nm": "", "nmx": 0, "an": [], "anx": 0}, lambda: tn.contract(e), leave=set(self.ends(x)),
             enter=lambda n: [n], consumed=[x], ret=lambda n: {"n": self.nid[id(n)]})
    self.result()
  def do_parallel(self, x):
    x = self.me[x]
    e = self.edges[x]
    en = self.ends(x)
    self.fin("parallel", {"e": x}, lambda: tn.contract_parallel(e), leave=set(en), enter=lambda n: [n],
             consumed=self.shared(en[0], en[-1]), ret=lambda n: {"n": self.nid[id(n)]})
    self.result()
  def do_between(self, m, n):
    i, j = self.mn[m], self.mn[n]
    if self.rng.random() < .5:
      i, j = j, i
    sh = self.shared(i, j)
    n1, n2 = self.nodes[i], self.nodes[j]
    an = {"nm": "", "nmx": 0, "an": [], "anx": 0}
    if not sh and self.rng.random() < .5:
      self.fin("outer", dict(an, m=i, n=j), lambda: tn.outer_product(n1, n2), leave={i, j}, enter=lambda n: [n],
               ret=lambda n: {"n": self.nid[id(n)]})
    else:
      fn = (lambda: n1 @ n2) if sh and self.rng.random() < .3 else (lambda: tn.contract_between(n1, n2, allow_outer_product=not sh))
      self.fin("between", dict(an, m=i, n=j, outer=0 if sh else 1, order=[], orderx=0), fn, leave={i, j}, enter=lambda n: [n],
               consumed=sh, ret=lambda n: {"n": self.nid[id(n)]})
    self.result()
  def do_tracedges(self, m):
    i = self.mn[m]
    nd = self.nodes[i]
    self.fin("tracedges", {"m": i}, lambda: tn.contract_trace_edges(nd), leave={i}, enter=lambda n: [n],
             consumed=self.shared(i, i), ret=lambda n: {"n": self.nid[id(n)]})
    self.result()
  def do_flatten(self, x, y):
    es = [self.me[x], self.me[y]]
    if self.rng.random() < .5:
      es.reverse()
    eo = [self.edges[z] for z in es]
    self.fin("flatten", {"es": es, "en": "", "enx": 0}, lambda: tn.flatten_edges(eo), consumed=es, ret=lambda e: {"e": [self.regedge(e)]})
    if self.steps[-1]["ok"]:
      self.e_new(self.steps[-1]["ret"]["e"][0])
  def do_split(self, x, *shape):
    x = self.me[x]
    e = self.edges[x]
    shape = list(shape)
    self.fin("split", {"e": x, "shape": shape, "en": [], "enx": 0}, lambda: tn.split_edge(e, tuple(shape)), consumed=[x],
             ret=lambda r: {"e": [self.regedge(y) for y in r]})
    if self.steps[-1]["ok"]:
      for y in self.steps[-1]["ret"]["e"]:
        self.e_new(y)
  def do_slice(self, x, st, ln):
    x = self.me[x]
    e = self.edges[x]
    self.fin("slice", {"e": x, "start": st, "len": ln}, lambda: tn.slice_edge(e, st, ln), ret=lambda r: {"e": [self.regedge(r)]})
  def do_axes(self, m):
    i = self.mn[m]
    nd = self.nodes[i]
    p = list(reversed(range(len(nd.shape))))
    self.fin("reorderaxes", {"m": i, "perm": p}, lambda: nd.reorder_axes(p))

def scripts():
  with open(args.script) as f:
    progs = [json.loads(l) for l in f]
  random.Random(args.seed).shuffle(progs)
  return progs[args.shard % 4::4][:args.n]

BASE = dict(new=3, connect=6, disconnect=1, contract=3, between=4, parallel=2, tracedges=1, outer=1, flatten=2,
            flatbetween=1, flatall=1, split=2, slice=1, reorder_edges=2, reorder_axes=2, copy=1, remove=1)
PROFILES = {
  "N01": dict(new=3, newcopy=.3, connect=7, disconnect=.5, contract=4, between=5, parallel=3, tracedges=2, outer=1.5,
              outerfinal=1, flatten=3, flatbetween=1.5, flatall=1, split=2.5, reorder_axes=1.5, reorder_edges=1, contractcopy=.5, arith=.3),
  "N02": dict(new=3, newcopy=.5, connect=7, disconnect=2, contract=3, between=3, parallel=2, tracedges=1, outer=1,
              flatten=2.5, flatbetween=1, flatall=1, split=2.5, slice=1, reorder_edges=1, reorder_axes=2, copy=2, remove=2,
              contractcopy=1, outerfinal=.5),
  "N03": dict(new=3, newcopy=.5, connect=6, contract=1, between=1, flatten=1, split=1, reorder_axes=.5, bad_connect=2,
              bad_disconnect=2, bad_contract=2, bad_between=3, bad_parallel=1, bad_flatten=3, bad_split=2, bad_slice=3,
              bad_reorder_edges=3, bad_reorder_axes=2, bad_contractcopy=1, bad_outerfinal=1, bad_edgeorder=1, bad_axisnames=1),
  "N04": dict(new=3, newcopy=.5, connect=5, contract=1.5, between=5, parallel=.5, outer=2, outerfinal=1.5, flatten=1.5, split=1.5,
              reorder_edges=5, reorder_axes=5, axisnames=2, lookup=3, edgeorder=3, disconnect=.5, tracedges=.5, copy=.5, remove=.3),
  "N05": dict(new=3, newcopy=.8, connect=9, copy=6, remove=3, contract=1, between=1, reorder_axes=1, slice=.5, split=.7, flatten=.7,
              disconnect=.7, axisnames=.7, newcopy_start=.4),
  "N06": dict(new=5, newcopy=.5, connect=9, query=8, contract=.5, between=.5, disconnect=.7, copy=.5, remove=.7, flatten=.5, split=.3),
  "N07": dict(new=3, connect=8, slice=8, contract=1.5, between=1.5, flatten=1.5, split=1.5, reorder_axes=1, tracedges=.5, copy=.5),
  "N08": dict(new=3, newcopy=2, connect=10, contractcopy=6, copytensor=1.5, between=1.5, contract=1.5, parallel=1, tracedges=1, copy=.5,
              outer=.3, newcopy_start=.95, bucket=6, star=6),
  "C02": dict(new=4, newcopy=.4, connect=10, contractor=5, contractpath=3, bad_contractor=1.2, bad_contractpath=.5, bucket=2, between=.5,
              contract=.3, flatten=.3, split=.3, reorder_axes=.5, copy=.3, slice=.2, newcopy_start=.25, star=.6),
}

def main():
  w = PROFILES[args.profile]
  maxn = {"C02": 6, "N05": 7, "N06": 6, "N08": 5}.get(args.profile, 5)
  traces = []
  t0 = time.time()
  progs = scripts() if args.script else None
  for k in range(len(progs) if progs is not None else args.n):
    rng = random.Random("%s/%d/%d/%d" % (args.profile, args.seed, args.shard, k))
    if progs is not None:
      tr = Script(rng, args.backend, w, 99).run_script(progs[k])
      tr["id"] = "model-%d-%d-%d" % (args.seed, args.shard, k)
      traces.append(tr)
      if time.time() - t0 > args.secs:
        break
      continue
    mn, ms = maxn, rng.randint(5, 12) + (10 if args.profile == "N08" else 0)
    if args.profile == "C02" and k % 12 == 5:
      mn = rng.choice([9, 12, 16, 18])
      ms = 40
    p = Prog(rng, args.backend, w, ms, mn)
    tr = p.run()
    tr["id"] = "%s-%d-%d-%d" % (args.profile, args.seed, args.shard, k)
    traces.append(tr)
    if time.time() - t0 > args.secs:
      break
  write_traces(args.out, traces)
  print(json.dumps({"traces": len(traces), "steps": sum(len(t["steps"]) for t in traces)}))

main()
