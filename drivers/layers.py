"""Histories of tensor-network Keras layers: make, build, set weights, call, save (L01)."""
import tempfile, shutil, time
from common import *
args = parse_args()
block_imports("jax")
import tensorflow as tf
import tensornetwork as tn
from tensornetwork.tn_keras import layers as TL
from tensornetwork.tn_keras.conv2d_mpo import Conv2DMPO
tf.get_logger().setLevel("ERROR")
keras = tf.keras
CLS = {"dense": TL.DenseDecomp, "condenser": TL.DenseCondenser, "expander": TL.DenseExpander,
       "entangler": TL.DenseEntangler, "mpo": TL.DenseMPO, "conv": Conv2DMPO}
KEYS = {"dense": ["output_dim", "decomp_size"], "condenser": ["exp_base", "num_nodes"], "expander": ["exp_base", "num_nodes"],
        "entangler": ["output_dim", "num_legs", "num_levels"], "mpo": ["output_dim", "num_nodes", "bond_dim"],
        "conv": ["filters", "num_nodes", "bond_dim"]}

def make_cfg(rng):
  """a configuration and an input dimension; valid unless noted."""
  k = rng.choice(["dense", "condenser", "expander", "entangler", "entangler", "mpo", "mpo", "conv", "conv"])
  bad = ""
  if k == "dense":
    p, d = dict(output_dim=rng.randint(1, 5), decomp_size=rng.randint(1, 4)), rng.randint(1, 5)
  elif k in ("condenser", "expander"):
    b, n = rng.choice([(2, 1), (2, 2), (2, 3), (3, 1), (3, 2), (4, 1), (1, 2), (5, 1)])
    p = dict(exp_base=b, num_nodes=n)
    o = rng.randint(1, 3)
    d = o * b ** n if k == "condenser" else o
    if k == "condenser" and b > 1 and rng.random() < .1:
      d, bad = d + 1, "dim"
  elif k == "entangler":
    n = rng.choice([2, 2, 3, 3, 4])
    a, o = rng.choice([(2, 2), (2, 3), (3, 2), (1, 2), (2, 1), (3, 3)] if n < 4 else [(2, 2), (1, 2), (2, 1)])
    p, d = dict(output_dim=o ** n, num_legs=n, num_levels=rng.choice([1, 2, 3] if n < 3 else [1, 1, 2])), a ** n
    r = rng.random()
    if r < .04:
      p["num_legs"], bad = 1, "legs"
    elif r < .08:
      p["num_levels"], bad = 0, "levels"
    elif r < .12:
      d, bad = d + (1 if n > 2 or d > 1 else 2), "dim"
    elif r < .16:
      p["output_dim"], bad = p["output_dim"] + (1 if n > 2 or p["output_dim"] > 1 else 2), "out"
    if bad in ("dim", "out"):
      t = d if bad == "dim" else p["output_dim"]
      if round(t ** (1 / n)) ** n == t:
        bad = ""
  elif k == "mpo":
    n = rng.choice([3, 3, 3, 4, 5])
    a, o = rng.choice([(2, 2), (2, 3), (3, 2), (1, 2), (2, 1), (3, 1)])
    if n == 5 and rng.random() < .5:
      a, o = rng.choice([(5, 1), (1, 5)])
    elif n > 3:
      a, o = rng.choice([(2, 2), (1, 2), (2, 1)])
    p, d = dict(output_dim=o ** n, num_nodes=n, bond_dim=rng.choice([1, 2, 3] if n == 3 else [1, 2])), a ** n
    r = rng.random()
    if r < .04:
      p["num_nodes"], bad = 2, "nodes"
    elif r < .08 and a > 1:
      d, bad = d + 1, "dim"
    elif r < .12 and o > 1:
      p["output_dim"], bad = p["output_dim"] + 1, "out"
  else:
    n = rng.choice([2, 2, 3])
    a, o = rng.choice([(2, 2), (1, 2), (2, 1), (1, 1), (1, 3)]) if n == 2 else rng.choice([(2, 1), (1, 2), (1, 1)])
    p, d = dict(filters=o ** n, num_nodes=n, bond_dim=rng.choice([1, 2, 3])), a ** n
    kk = [rng.randint(1, 3), rng.randint(1, 3)]
    p["kernel_size"] = kk[0] if kk[0] == kk[1] and rng.random() < .5 else tuple(kk)
    if rng.random() < .4:
      p["strides"] = rng.choice([2, (1, 2), (2, 1), 3, (2, 2)])
    elif rng.random() < .3:
      p["dilation_rate"] = rng.choice([2, (1, 2), (2, 1)])
    if rng.random() < .6:
      p["padding"] = rng.choice(["same", "valid"])
    if rng.random() < .4:
      p["data_format"] = rng.choice(["channels_first", "channels_last"])
    r = rng.random()
    if r < .03:
      p["num_nodes"], bad = 1, "nodes"
    elif r < .06:
      p["padding"], bad = "full", "padding"
    elif r < .09:
      p["data_format"], bad = "channels_middle", "format"
    elif r < .12 and a > 1:
      d, bad = d + 1, "dim"
  ub, act = True, None
  if rng.random() < .5:
    ub = p["use_bias"] = rng.random() < .5
  if rng.random() < .5:
    act = p["activation"] = rng.choice(["relu", None, "linear"])
  if rng.random() < .3:
    p["kernel_initializer"] = rng.choice(["ones", "zeros", "glorot_normal"])
  if rng.random() < .3:
    p["bias_initializer"] = rng.choice(["ones", "zeros"])
  if rng.random() < .2:
    p["dtype"] = "float64"
  if k == "conv" and p.get("data_format") == "channels_first" and p.get("dtype") == "float64":
    del p["dtype"]
  return k, p, d, ub, act, bad

def norm2(x):
  return [int(x), int(x)] if isinstance(x, int) else [int(t) for t in x]

def describe(k, p, d, ub, act, bad):
  c = {"kind": k, "d": d, "bias": int(ub), "relu": int(act == "relu"), "bad": bad,
       "p": {n: int(p[n]) for n in KEYS[k]}, "ks": [], "st": [1, 1], "di": [1, 1], "same": 1, "first": 0}
  if k == "conv":
    c["ks"], c["st"], c["di"] = norm2(p["kernel_size"]), norm2(p.get("strides", 1)), norm2(p.get("dilation_rate", 1))
    c["same"] = int(p.get("padding", "same") == "same")
    c["first"] = int(p.get("data_format", "channels_last") == "channels_first")
  return c

class Run:
  def __init__(self, rng):
    self.rng, self.steps = rng, []

  def rec(self, op, a, f):
    try:
      r, ok, exc = f(), 1, ""
    except Exception as e:
      r, ok, exc = {}, 0, "%s: %s" % (type(e).__name__, str(e)[-300:].replace("\n", " "))
    self.steps.append({"op": op, "a": a, "ok": ok, "exc": exc, "r": r})
    return ok

  def shape_in(self, batch=None, full=True):
    rng, c = self.rng, self.c
    b = batch or rng.choice([1, 2, 2, 3])
    if c["kind"] == "conv":
      hw = [rng.randint(1, 5), rng.randint(1, 5)]
      if not c["same"]:
        hw = [max(h, (k - 1) * t + 1) for h, k, t in zip(hw, c["ks"], c["di"])]
      return [b, c["d"]] + hw if c["first"] else [b] + hw + [c["d"]]
    if c["d"] > 100:
      return [1, c["d"]]
    lead = rng.choice([[], [], [2], [3], [1], [2, 2]])
    return [b] + lead + [c["d"]]

  def data(self, shape):
    return rand_tensor(self.rng, shape, "float", -2, 2).astype(self.np)

  def run(self):
    rng = self.rng
    k, p, d, ub, act, bad = make_cfg(rng)
    self.c = c = describe(k, p, d, ub, act, bad)
    self.p = p
    self.np = np.dtype(p.get("dtype", "float32"))
    def make():
      self.l = CLS[k](**p)
      return {}
    def build():
      sh = self.shape_in()
      how = rng.randrange(3)
      if how == 0:
        self.l.build([None] + sh[1:])
      elif how == 1:
        self.l.build(sh)
      else:
        self.l(tf.constant(self.data(sh)))
      return {"ws": [[int(t) for t in w.shape] for w in self.l.get_weights()]}
    if not self.rec("make", {"c": c}, make):
      return self.steps
    if rng.random() < .2 and not bad:
      self.outshape()
    if not self.rec("build", {"c": c}, build) or bad:
      if bad == "dim" and self.steps[-1]["ok"]:   # a call may be what finds out
        x = self.data(self.shape_in())
        self.rec("badcall", {"c": c}, lambda: {"y": tj(self.l(tf.constant(x)).numpy())})
      return self.steps
    n = rng.randint(2, 6)
    self.set_weights()
    for _ in range(n):
      w = rng.random()
      if w < .12:
        self.set_weights()
      elif w < .24:
        self.outshape()
      elif w < .36:
        self.clone()
      else:
        self.call()
    return self.steps

  def set_weights(self):
    lo = -1 if self.c["kind"] in ("entangler", "mpo") else -2
    ws = [rand_tensor(self.rng, w.shape, "float", lo, -lo).astype(self.np) for w in self.l.get_weights()]
    self.ws = ws
    def f():
      self.l.set_weights(ws)
      return {"ws": [tj(w) for w in self.l.get_weights()]}
    self.rec("set", {"c": self.c, "ws": [tj(w) for w in ws]}, f)

  def outshape(self):
    sh = [None if self.rng.random() < .3 else t for t in self.shape_in()]
    sh[1 if self.c["first"] else -1] = self.c["d"]
    form = self.rng.choice([tuple, tf.TensorShape, list])
    self.rec("outshape", {"c": self.c, "s": [-1 if t is None else t for t in sh]},
             lambda: {"s": [-1 if t is None else int(t) for t in self.l.compute_output_shape(form(sh))]})

  def apply(self, l, x, mode):
    """the output of layer l on x."""
    dt = tf.as_dtype(self.np)
    if mode == "eager":
      return l(tf.constant(x))
    if mode == "numpy":
      return l(x)
    if mode in ("function", "batchnone", "allnone"):
      sig = list(x.shape)
      if mode != "function":
        sig[0] = None
      if mode == "allnone":
        sig = [None] * len(sig)
        sig[1 if self.c["first"] else -1] = self.c["d"]
      return tf.function(lambda t: l(t), input_signature=[tf.TensorSpec(sig, dt)])(tf.constant(x))
    if mode == "functional":
      i = keras.Input(shape=x.shape[1:], dtype=self.np.name)
      return keras.Model(i, l(i))(tf.constant(x))
    if mode == "sequential":
      return keras.Sequential([l]).predict(x, verbose=0)
    raise KeyError(mode)

  def call(self):
    sh = self.shape_in()
    x = self.data(sh)
    mode = self.rng.choice(["eager", "eager", "numpy", "function", "batchnone", "allnone", "functional", "sequential"])
    keep = x.copy()
    def f():
      y = np.asarray(self.apply(self.l, x, mode))
      return {"y": tj(y), "same": int(np.array_equal(x, keep)), "dt": int(y.dtype == self.np),
              "ws": [tj(w) for w in self.l.get_weights()]}
    self.rec("call", {"c": self.c, "x": tj(x), "mode": mode}, f)

  def clone(self):
    """a second layer made from the configuration, or from a saved model, with the weights of the first."""
    how = self.rng.choice(["config", "config", "h5", "keras", "weights"])
    x = self.data(self.shape_in())
    if 0 in x.shape:
      how = "config"
    def f():
      l = self.l
      if how in ("config", "weights"):
        m = type(l).from_config(json.loads(json.dumps(l.get_config())) if self.rng.random() < .5 else l.get_config())
        m.build(x.shape)
        if how == "weights":
          dirn = tempfile.mkdtemp()
          try:
            a, b = keras.Sequential([l]), keras.Sequential([m])
            a.build(x.shape), b.build(x.shape)
            a.save_weights(os.path.join(dirn, "w.h5"))
            b.load_weights(os.path.join(dirn, "w.h5"))
          finally:
            shutil.rmtree(dirn)
        else:
          m.set_weights(l.get_weights())
        y = m(tf.constant(x))
      else:
        dirn = tempfile.mkdtemp()
        try:
          a = keras.Sequential([keras.Input(shape=x.shape[1:], dtype=self.np.name), l])
          path = os.path.join(dirn, "m." + how)
          a.save(path)
          b = keras.models.load_model(path)
        finally:
          shutil.rmtree(dirn)
        m = b.layers[-1]
        y = b(tf.constant(x))
      g = m.get_config()
      c = dict(self.c)
      p = dict(self.p, **{n: g.get(n) for n in KEYS[c["kind"]]})
      if c["kind"] == "conv":
        p.update({n: g[n] for n in ("kernel_size", "strides", "dilation_rate", "padding", "data_format")})
      act = g["activation"] if isinstance(g["activation"], str) else "?"
      return {"y": tj(np.asarray(y)), "c": describe(c["kind"], p, c["d"], bool(g["use_bias"]), act, ""), "name": int(m.name == l.name)}
    self.rec("clone", {"c": self.c, "x": tj(x), "how": how}, f)

out = []
t0 = time.time()
for i in range(args.n):
  if time.time() - t0 > args.secs:
    break
  rng = random.Random("layers-%d-%d-%d" % (args.seed, args.shard, i))
  tf.random.set_seed(i)
  out.append({"id": "layers-%d-%d" % (args.shard, i), "steps": Run(rng).run()})
  if i % 40 == 39:
    keras.backend.clear_session()
write_traces(args.out, out)
print("done %d of %d" % (len(out), args.n))
