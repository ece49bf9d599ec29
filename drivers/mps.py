"""Histories of finite matrix product states (M01, M02, M03)."""
import time
from common import *
from decomp_inputs import apx as apx_, orth
args = parse_args()
block_imports(*[b for b in ("jax", "tensorflow") if b != args.backend])
import tensornetwork as tn
B = args.backend
F = 8192
T32 = B == "jax"

def apx(x):
  r = apx_(x, F)
  if T32 and not isinstance(x, float):
    r["e"] = max(r["e"], 4) if r["x"] else r["e"]
  return r

def num(x):
  return np.asarray(x)

class Skip(Exception):
  pass

def dense(ts):
  t = np.ones((1, 1), dtype=np.complex128 if any(np.iscomplexobj(x) for x in ts) else np.float64)
  for a in ts:
    a = np.asarray(a, dtype=np.complex128 if np.iscomplexobj(a) else np.float64)
    t = np.tensordot(t, a, (t.ndim - 1, 0))
  s = t.shape
  return t.reshape(s[1:-1]) if s[0] == 1 and s[-1] == 1 else t.reshape(s[1:-1] + (-1,))

class World:
  def __init__(self, rng):
    self.rng = rng
    self.exact = rng.random() < (.6 if args.profile == "M02" else .3)
    self.cx = rng.random() < .45
    self.steps = []
    self.mps = None
    self.given = []
    self.want = {}  # what a program of the specification (MpsModel.tla) asks for

  def psi(self):
    return dense([num(t) for t in self.mps.tensors])

  def state(self):
    p = self.psi()
    if self.exact:
      if maxabs(p) > 2 ** 12:
        raise Skip
      r = tj(p, 5e-2 if T32 else 1e-4)
      r.update(f=1, e=0)
    else:
      r = apx(p)
      if np.all(np.isfinite(p)) and not .25 < np.linalg.norm(p) < 3.5:
        if not self.keeps:
          raise Skip
        r["x"] = 0
    c = self.mps.center_position
    return {"psi": r, "c": -1 if c is None else int(c), "ts": [apx(num(t)) for t in self.mps.tensors],
            "alias": int(any(not np.array_equal(a, b) for a, b in self.given))}

  def log(self, op, a, f, conv=None, post=True):
    base = {"c": -1, "canon": 0, "site": 0, "norm": 0, "maxx": 0, "maxsv": 0, "errx": 0, "p": 0, "q": 1, "rel": 0, "s1": 0, "s2": 0,
            "cp": -1, "bad": 0, "unitary": 0, "svd": 0, "nl": 0, "sc": 1, "sites": [], "ops": [], "ts": [], "cert": {}, "wz": apx(1.0)}
    base.update(a)
    self.keeps = False  # the norm of the state has to stay in range
    if self.mps is not None and not self.exact:
      c = self.mps.center_position
      trunc = base["maxx"] or base["errx"]
      if c is not None and self.isocheck(c) and not (trunc and not base["norm"]) and (
          op == "position" or op == "canonicalize" or (op in ("gate1", "gate2") and base["unitary"])):
        self.keeps = True
      if op in ("local", "corr", "check", "lenvs", "renvs"):
        self.keeps = True
    try:
      o = f()
      ok, exc = 1, ""
    except Exception as e:
      ok, exc, o = 0, "%s: %s" % (type(e).__name__, str(e)[:200]), None
    if op == "init" and not ok:
      self.steps.append({"op": op, "a": base, "ok": 0, "exc": exc, "r": {}, "psi": {"s": [], "d": [0], "c": 0, "f": 1, "e": 0, "x": 1}, "c": -1, "ts": [], "alias": 0})
      raise Skip
    r = conv(o) if ok and conv else {}
    ev = {"op": op, "a": base, "ok": ok, "exc": exc, "r": r}
    ev.update(self.state())
    self.steps.append(ev)

  # -- construction
  def shape(self):
    rng = self.rng
    n = self.want.get("n") or rng.choice([1, 2, 3, 3, 4, 4, 5])
    d = [rng.choice([2, 2, 2, 3, 1] if n < 5 else [2]) for _ in range(n)]
    D = [1] + [rng.choice([1, 2, 2, 3, 4] if n < 5 else [2, 2, 3]) for _ in range(n - 1)] + [1]
    return d, D

  def init(self):
    rng = self.rng
    if not self.exact and not self.want and rng.random() < .15:
      d, D = self.shape()
      can = rng.random() < .8
      dt = np.complex128 if self.cx else np.float64
      def f():
        self.mps = tn.FiniteMPS.random(d, D[1:-1], dt, canonicalize=can, backend=B)
      np.random.seed(rng.randrange(10 ** 6))
      if not can:
        return self.init()
      return self.log("random", {"canon": int(can), "d": d, "D": D[1:]}, f)
    for _ in range(200):
      d, D = self.shape()
      n = len(d)
      ts = [rand_tensor(rng, [D[k], d[k], D[k + 1]], "complex" if self.cx else "float", -1, 1) for k in range(n)]
      c = None
      if self.exact and rng.random() < .6:
        c = rng.randrange(n)
        ts = self.structured(ts, c)
      p = dense(ts)
      nn = np.linalg.norm(p)
      if nn == 0 or (self.exact and nn > 400):
        continue
      break
    sc = 1
    if not self.exact:
      while nn / sc > 3:
        sc *= 2
      if sc > 64:
        return self.init()
    arrs = [t.copy() for t in ts]
    arrs[0] = arrs[0] / sc
    keep = [t.copy() for t in arrs]
    self.given = list(zip(arrs, keep)) if B == "numpy" else []
    a = {"ts": [tj(t) for t in ts], "sc": sc, "wz": apx(float(np.linalg.norm(p) / sc))}
    if self.exact:
      def f():
        self.mps = tn.FiniteMPS(arrs, canonicalize=False, backend=B)
      self.log("init", a, f)
      if c is not None:
        def g():
          self.mps.center_position = c
        self.log("setcenter", {"c": c, "canon": self.isocheck(c)}, g)
      return
    can = rng.random() < .85
    cp = rng.randrange(n) if rng.random() < .6 and (can or rng.random() < .1) else None
    if rng.random() < .04:
      cp = n + rng.randint(0, 1)
    if self.want:
      can, cp = self.want["canon"], self.want["c"]
    a.update(canon=int(can), c=-1 if cp is None else cp)
    def f():
      self.mps = tn.FiniteMPS(arrs, center_position=cp, canonicalize=can, backend=B)
    self.log("init", a, f)

  def isocheck(self, c):
    ok = True
    for k, t in enumerate(self.mps.tensors):
      t = num(t)
      if k < c:
        m = t.reshape(-1, t.shape[2]); ok &= np.allclose(m.conj().T @ m, np.eye(m.shape[1]))
      if k > c:
        m = t.reshape(t.shape[0], -1); ok &= np.allclose(m @ m.conj().T, np.eye(m.shape[0]))
    return int(ok)

  def structured(self, ts, c):
    """integer isometries left and right of the centre."""
    rng = self.rng
    n = len(ts)
    d = [t.shape[1] for t in ts]
    D = [1] * (n + 1)
    for k in range(c):
      D[k + 1] = rng.randint(1, min(4, D[k] * d[k]))
    for k in range(n - 1, c, -1):
      D[k] = rng.randint(1, min(4, D[k + 1] * d[k]))
    out = []
    for k in range(n):
      if k == c:
        out.append(rand_tensor(rng, [D[k], d[k], D[k + 1]], "complex" if self.cx else "float", -2, 2))
        continue
      ph = lambda: rng.choice([1, -1, 1j, -1j] if self.cx else [1, -1])
      big, small = (D[k] * d[k], D[k + 1]) if k < c else (D[k + 1] * d[k], D[k])
      m = np.zeros((big, small), dtype=complex if self.cx else float)
      for j, i in enumerate(rng.sample(range(big), small)):
        m[i, j] = ph()
      out.append(m.reshape(D[k], d[k], D[k + 1]) if k < c else m.T.reshape(D[k], d[k], D[k + 1]))
    return out

  # -- operators
  def unitary(self, n):
    rng = self.rng
    if self.exact:
      m = np.zeros((n, n), dtype=complex if self.cx else float)
      p = list(range(n)); rng.shuffle(p)
      for i, j in enumerate(p):
        m[i, j] = rng.choice([1, -1, 1j, -1j] if self.cx else [1, -1])
      return m
    a = np.array([[rng.gauss(0, 1) + (1j * rng.gauss(0, 1) if self.cx else 0) for _ in range(n)] for _ in range(n)])
    return np.linalg.qr(a)[0]

  def operator(self, n, m=None):
    return rand_tensor(self.rng, [m or n, n], "complex" if self.cx else "float", -1, 1)

  def rec(self, g):
    if self.exact or np.array_equal(g, np.rint(g)):
      r = tj(g)
      return dict(r, f=1, e=0)
    return apx_(g, F)

  def cert(self, p, b):
    m = p.reshape(int(np.prod(p.shape[:b])), -1)
    u, s, v = np.linalg.svd(m, full_matrices=False)
    return {"u": apx_(u, F), "s": apx_(s, F), "v": apx_(v, F)}, s

  def trunc(self, allow=True):
    rng = self.rng
    a = {"maxx": 0, "maxsv": 0, "errx": 0, "p": 0, "q": 1}
    if self.want:
      t = self.want["t"]
      if t == 1:
        a["maxx"], a["maxsv"] = 1, rng.choice([1, 1, 2])
      elif t == 2:
        a["errx"], a["q"], a["p"] = 1, rng.choice([3, 4, 5, 7]), rng.choice([1, 2])
      return a
    if self.exact or not allow:
      return a
    w = rng.random()
    if w < .55:
      a["maxx"], a["maxsv"] = 1, rng.choice([1, 1, 2, 2, 3, 5])
    if w > .45:
      a["errx"], a["q"] = 1, rng.choice([3, 4, 5, 7, 8])
      a["p"] = rng.choice([0, 1, 1, 2, 3])
    return a

  # -- steps
  def position(self):
    rng = self.rng
    m = self.mps
    n = len(m)
    c = m.center_position
    site = rng.randrange(n) if rng.random() < .93 else rng.choice([-1, n])
    if c is not None and rng.random() < .35:
      site = max(0, min(n - 1, c + rng.choice([-1, 1])))
    norm = 0 if self.exact else int(rng.random() < .6)
    if self.want:
      site, norm = self.want["site"], self.want["norm"]
    a = {"site": site, "norm": norm}
    t = self.trunc(rng.random() < .45)
    if t["errx"] and rng.random() < .06:
      t["p"] = t["q"] + rng.randint(0, 1)
    a.update(t)
    p = self.psi()
    a["wz"] = apx(float(np.linalg.norm(p))) if not self.exact else apx(1.0)
    zx = int(np.linalg.norm(p) < 3.9)
    if c is not None and 0 <= site < n and abs(site - c) == 1 and (t["maxx"] or t["errx"]):
      b = max(site, c)
      a["cert"], _ = self.cert(p, b)
      x = num(m.tensors[c]).shape
      a["nl"] = int(min(x[0] * x[1], x[2]) if site > c else min(x[0], x[1] * x[2]))
      a["svd"] = int(t["errx"] or (t["maxx"] and t["maxsv"] < m.bond_dimension(b)))
    kw = {}
    if not norm or rng.random() < .3:
      kw["normalize"] = bool(norm)
    if t["maxx"]:
      kw["D"] = t["maxsv"]
    if t["errx"]:
      kw["max_truncation_err"] = t["p"] / t["q"]
    self.log("position", a, lambda: m.position(site, **kw), lambda z: {"z": apx(num(z)), "zx": zx})

  def canonicalize(self):
    norm = 0 if self.exact else int(self.rng.random() < .6)
    norm = self.want.get("norm", norm)
    p = self.psi()
    zx = int(np.linalg.norm(p) < 3.9)
    m = self.mps
    a = {"norm": norm, "wz": apx(float(np.linalg.norm(p))) if not self.exact else apx(1.0)}
    self.log("canonicalize", a, lambda: m.canonicalize(normalize=bool(norm)), lambda z: {"z": apx(num(z)), "zx": zx})

  def check(self):
    m = self.mps
    if m.center_position is None or len(m) < 2 or self.exact:
      return
    self.log("check", {}, lambda: m.check_canonical(), lambda z: {"z": apx(num(z).reshape(1))})

  def conv(self, g):
    return g if self.rng.random() < .8 or B != "numpy" else np.asfortranarray(g)

  def gate1(self):
    rng = self.rng
    m = self.mps
    n = len(m)
    s = rng.randrange(n) if rng.random() < .95 else rng.choice([-1, n])
    s = self.want.get("s1", s)
    d = m.physical_dimensions[s] if 0 <= s < n else 2
    uni = rng.random() < .7
    uni = self.want.get("unitary", uni)
    g = self.unitary(d) if uni else self.operator(d, rng.choice([None, None, None, 2, 3]))
    if not self.exact and not uni:
      g = g / max(1, np.linalg.norm(g, 2))
    bad = int(not self.want and rng.random() < .04)
    gg = g.reshape(g.shape + (1,)) if bad else g
    self.log("gate1", {"s1": s, "unitary": int(uni), "g": self.rec(g), "bad": bad}, lambda: m.apply_one_site_gate(self.tens(gg), s))

  def tens(self, g):
    return self.mps.backend.convert_to_tensor(np.array(g, dtype=num(self.mps.tensors[0]).dtype if B != "numpy" else g.dtype))

  def gate2(self):
    rng = self.rng
    m = self.mps
    n = len(m)
    c = m.center_position
    if n > 1 and rng.random() < .92:
      s1 = rng.randrange(n - 1)
      if c is not None and rng.random() < .6:
        s1 = max(0, min(n - 2, c - rng.randint(0, 1)))
      s2 = s1 + 1
    else:
      s1 = rng.randint(-1, n)
      s2 = rng.choice([s1 + 1, s1, s1 - 1, s1 + 2])
    if self.want:
      s1, s2 = self.want["s1"], self.want["s1"] + 1
    inr = 0 <= s1 < n and 0 <= s2 < n
    d1, d2 = (m.physical_dimensions[s1], m.physical_dimensions[s2]) if inr else (2, 2)
    uni = rng.random() < .7
    g = self.unitary(d1 * d2) if uni else self.operator(d1 * d2)
    if not self.exact and not uni:
      g = g / max(.5, np.linalg.norm(g, 2))
    g = g.reshape(d1, d2, d1, d2)
    t = self.trunc(rng.random() < .5)
    cp = rng.choice([None, None, s1, s2, s2]) if rng.random() < .95 else rng.randint(0, n + 1)
    if self.want:
      cp = self.want["cp"]
    a = {"s1": s1, "s2": s2, "unitary": int(uni), "cp": -1 if cp is None else cp, "rel": int(rng.random() < .5)}
    a.update(t)
    p = self.psi()
    kw = {}
    if t["maxx"]:
      kw["max_singular_values"] = t["maxsv"]
    if t["errx"]:
      kw["max_truncation_err"] = t["p"] / t["q"]
    if a["rel"] or rng.random() < .3:
      kw["relative"] = bool(a["rel"])
    if cp is not None:
      kw["center_position"] = cp
    a["g"] = self.rec(g)
    if inr and s2 == s1 + 1 and (t["maxx"] or t["errx"]):
      q = np.tensordot(g, p, ((2, 3), (s1, s2)))
      q = np.moveaxis(q, (0, 1), (s1, s2))
      a["cert"], sv = self.cert(q, s2)
      x, y = num(m.tensors[s1]).shape, num(m.tensors[s2]).shape
      a["nl"] = int(min(x[0] * x[1], y[1] * y[2]))
      if not a["rel"] and np.linalg.norm(sv) < .9:
        return
    bad = int(not self.want and rng.random() < .04)
    gg = g.reshape(d1 * d2, d1 * d2) if bad else g
    a["bad"] = bad
    self.log("gate2", a, lambda: m.apply_two_site_gate(self.tens(gg), s1, s2, **kw), lambda tw: {"tw": apx(num(tw).reshape(-1))})

  def meas(self, v):
    v = np.asarray(v)
    if self.exact:
      r = tj(v, .2 if T32 else 1e-3)
      return dict(r, f=1, e=0 if r["x"] else -10 ** 6)
    return apx(v)

  def local(self):
    rng = self.rng
    m = self.mps
    n = len(m)
    sites = [rng.randrange(n) for _ in range(rng.choice([1, 2, 3, n]))]
    if rng.random() < .5:
      sites = rng.sample(range(n), rng.randint(1, n))
    if rng.random() < .05:
      sites[rng.randrange(len(sites))] = rng.choice([-1, n])
    pd = m.physical_dimensions
    ops = [self.operator(pd[s] if 0 <= s < n else 2) for s in sites]
    if rng.random() < .04:
      ops = ops[1:]
    a = {"sites": sites, "ops": [self.rec(o) for o in ops]}
    arg = rng.choice([list, tuple, np.array])(sites)
    self.log("local", a, lambda: m.measure_local_operator([self.tens(o) for o in ops], arg), lambda v: {"v": [self.meas(x) for x in v]})

  def corr(self):
    rng = self.rng
    m = self.mps
    n = len(m)
    pd = m.physical_dimensions
    s1 = rng.randrange(n) if rng.random() < .95 else rng.choice([-1, n])
    d = pd[s1] if 0 <= s1 < n else 2
    same = [k for k in range(n)]
    d2 = rng.choice(pd)
    same = [k for k in range(n) if pd[k] == d2]
    if s1 in same and d != d2:
      same.remove(s1)
    if not same:
      return
    sites = [rng.choice(same) for _ in range(rng.choice([0, 1, 2, 3, 4]))]
    if rng.random() < .4:
      sites = sorted(set(sites))
    o1, o2 = self.operator(d), self.operator(d2)
    a = {"s1": s1, "sites": sites, "ops": [self.rec(o1), self.rec(o2)]}
    self.log("corr", a, lambda: m.measure_two_body_correlator(self.tens(o1), self.tens(o2), s1, sites), lambda v: {"v": [self.meas(x) for x in v]})

  def envs(self):
    rng = self.rng
    m = self.mps
    n = len(m)
    tx = [tj(num(t), 1e-6) for t in m.tensors]
    if not self.exact or any(t["x"] == 0 for t in tx):
      return self.local()
    left = rng.random() < .5
    lo, hi = (0, n) if left else (-1, n - 1)
    sites = [rng.randint(lo, hi) for _ in range(rng.randint(0, 4))]
    if rng.random() < .3:
      sites = list(range(lo, hi + 1))
    if rng.random() < .05:
      sites.append(rng.choice([lo - 1, hi + 1]))
    f = m.left_envs if left else m.right_envs
    arg = rng.choice([list, tuple, np.array])(sites)
    self.log("lenvs" if left else "renvs", {"sites": sites}, lambda: f(arg),
             lambda e: {"env": [[int(k), tj(num(v))] for k, v in e.items()]})
    self.steps[-1]["tx"] = tx

  def script(self, prog):
    """Executes one program of the specification (MpsModel.tla)."""
    self.exact = False
    none = lambda x: None if x < 0 else x
    for p in prog:
      w = p[0]
      self.want = ({"n": p[1], "canon": p[2], "c": none(p[3])} if w == "init" else
                   {"site": p[1], "norm": p[2], "t": p[3]} if w == "position" else
                   {"norm": p[1]} if w == "canonicalize" else
                   {"s1": p[1], "unitary": p[2]} if w == "gate1" else
                   {"s1": p[1], "cp": none(p[2]), "t": p[3]} if w == "gate2" else {})
      getattr(self, w)()

  def go(self, n):
    self.init()
    ops = {"M01": ["position"] * 6 + ["canonicalize"] * 2 + ["gate1"] * 2 + ["gate2"] * 3 + ["check"],
           "M02": ["local"] * 4 + ["corr"] * 4 + ["envs"] * 3 + ["position", "gate1", "gate2", "canonicalize"],
           "M03": ["gate1"] * 3 + ["gate2"] * 6 + ["position"] * 2 + ["canonicalize"]}[args.profile]
    for _ in range(n):
      getattr(self, self.rng.choice(ops))()

def main():
  rng = random.Random(args.seed * 7919 + args.shard * 104729 + 17)
  traces = []
  t0 = time.time()
  progs = None
  if args.script:
    with open(args.script) as f:
      progs = [json.loads(l) for l in f]
    random.Random(args.seed * 2 + (args.profile == "M03")).shuffle(progs)
    progs = progs[args.shard % 4::4][:args.n]
  for i in range(len(progs) if progs is not None else args.n):
    if time.time() - t0 > args.secs:
      break
    w = World(rng)
    try:
      if progs is not None:
        w.script(progs[i])
      else:
        w.go(rng.randint(4, 10))
    except Skip:
      pass
    except Exception as e:
      if os.environ.get("VP_DEBUG"):
        raise
      if w.steps:
        op = {"M01": "check", "M02": "local", "M03": "gate1"}[args.profile]
        w.steps.append(dict(w.steps[-1], op=op, ok=0, exc="unreadable %s: %s" % (type(e).__name__, str(e)[:200]),
                            a=dict(w.steps[-1]["a"], sites=[], ops=[], s1=0, bad=0)))
    if w.steps:
      traces.append({"id": "mps-%s-%d-%d" % (B, args.shard, i), "steps": w.steps})
  write_traces(args.out, traces)

main()
