"""Shared by the block-sparse drivers: charge types, legs, projection."""
from common import *
block_imports("jax", "tensorflow")
import tensornetwork as tn
import tensornetwork.block_sparse as bs
from tensornetwork.block_sparse import (BlockSparseTensor, ChargeArray, Index, U1Charge, Z2Charge, ZNCharge, BaseCharge)
from tensornetwork.backends import backend_factory
BE = backend_factory.get_backend("symmetric")
ZN = {3: ZNCharge(3), 5: ZNCharge(5)}
TYPE = {0: U1Charge, 2: Z2Charge, **ZN}
MS = [[0], [0], [0], [2], [3], [5], [0, 0], [0, 2], [2, 2], [2, 3], [0, 2, 3]]

def qrec(c):
  return [[int(v) for v in row] for row in np.asarray(c.charges)]

def legs(T):
  return [[{"q": qrec(c), "f": int(f)} for c, f in zip(cs, fs)] for cs, fs in zip(T.charges, T.flows)]

def dense(T):
  a = np.asarray(T.todense())
  if T.ndim == 0 and a.size == 1:
    a = a.reshape(())
  return a

def rec(T, data=False):
  d = {"leg": legs(T), "t": tj(dense(T)), "nd": int(T.data.size), "arr": 0 if isinstance(T, BlockSparseTensor) else 1}
  d["x"] = d["t"]["x"]
  if data:
    d["data"] = tj(T.data)["d"]
  return d

class Bank:
  """legs to build tensors from, with some history behind the charge objects."""
  def __init__(self, rng):
    self.rng = rng
    self.m = rng.choice(MS)
    # the charge objects of one tensor network are of one class
    self.typed = len(self.m) == 1 and rng.random() < .6
    self.span = rng.choice([1, 1, 1, 2])
    self.base = [self.charge(rng.choice([1, 2, 2, 3, 3, 4])) for _ in range(rng.randint(2, 3))]
    self.legs = []
    for _ in range(rng.randint(2, 4)):
      k = rng.choice([1, 1, 1, 2, 2, 3])
      while True:
        cs = [rng.choice(self.base) for _ in range(k)]
        if np.prod([len(c) for c in cs]) <= 8:
          break
        k = max(1, k - 1)
      self.legs.append([(c, rng.randint(0, 1)) for c in cs])

  def vec(self):
    return [self.rng.randrange(x) if x else self.rng.randint(-self.span, self.span) for x in self.m]

  def charge(self, n):
    rng = self.rng
    q = [self.vec() for _ in range(n)]
    if rng.random() < .5:
      q[0] = [0] * len(self.m)
    T = [TYPE[x] for x in self.m]
    arr = np.array(q, dtype=np.int16).reshape(n, len(self.m))
    way = rng.randrange(4)
    if self.typed:
      c = T[0](arr[:, 0])
    elif way == 2 and len(T) > 1:
      c = (T[0](arr[:, 0]))
      for k in range(1, len(T)):
        c = c @ T[k](arr[:, k])
    else:
      c = BaseCharge(arr, charge_types=T)
    if rng.random() < .2:
      c.charge_labels
    return c

  def alias(self, c):
    """the same charges held by another object with another history."""
    r = self.rng.random()
    if r < .6:
      return c
    if r < .7:
      return c.copy()
    if r < .85:
      return c.dual(True).dual(True)
    return c[np.arange(len(c))]

  def index(self, leg, flip=False, fresh=True):
    cs = [self.alias(c) if fresh else c for c, _ in leg]
    fl = [bool(f) != flip for _, f in leg]
    if len(cs) == 1 and self.rng.random() < .5:
      return Index(cs[0], fl[0])
    return Index(cs, fl)

  def pick(self, rank, top):
    rng = self.rng
    while True:
      out = [(rng.choice(self.legs), rng.random() < .5) for _ in range(rank)]
      if np.prod([len(c) for leg, _ in out for c, _ in leg] or [1]) <= top:
        return out
      rank = max(1, rank - 1) if rng.random() < .3 else rank
