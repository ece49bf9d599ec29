"""Matrices with exactly known spectra, truncation requests, fixed-point projection."""
import math
from common import *
F = 4096

def apx(x, f=F):
  a = np.asarray(x)
  e = 2 if a.dtype in (np.float32, np.complex64) else 1
  s = [int(v) for v in a.shape]
  fl = a.reshape(-1)
  if not np.all(np.isfinite(fl)):
    return {"s": s, "d": [0] * fl.size, "c": 0, "f": f, "e": 0, "x": 0}
  lim = 2 ** 26
  q = lambda v: int(max(-lim, min(lim, round(float(v) * f))))
  if np.iscomplexobj(fl):
    return {"s": s, "d": [[q(v.real), q(v.imag)] for v in fl], "c": 1, "f": f, "e": e, "x": 1}
  return {"s": s, "d": [q(v) for v in fl], "c": 0, "f": f, "e": e, "x": 1}

def signed_perm(rng, n, cx):
  p = list(range(n)); rng.shuffle(p)
  m = np.zeros((n, n), dtype=complex if cx else float)
  for i, j in enumerate(p):
    m[i, j] = rng.choice([1, -1, 1j, -1j] if cx else [1, -1])
  return m

H2 = np.array([[1, 1], [1, -1]], float)
H4 = np.kron(H2, H2)
Q3 = np.array([[1, 2, 2], [2, 1, -2], [2, -2, 1]], float)

def orth(rng, n, cx):
  """n x n integer matrix Q with Q Q^H = c 1; returns (Q, c)."""
  opts = [(np.eye(n), 1)]
  if n == 2:
    opts = [(H2, 2), (np.eye(2), 1)]
  if n == 4:
    opts = [(H4, 4), (np.kron(np.eye(2), H2), 2), (H4, 4)]
  if n == 3:
    opts = [(Q3, 9), (np.eye(3), 1)]
  if n == 6:
    opts = [(np.kron(np.eye(3), H2), 2), (np.kron(np.eye(2), Q3), 9), (np.eye(6), 1)]
  if n in (8,):
    opts = [(np.kron(np.eye(2), H4), 4), (np.kron(np.eye(4), H2), 2)]
  q, c = rng.choice(opts)
  return signed_perm(rng, n, cx) @ q @ signed_perm(rng, n, cx), c

def known(rng, m, n, cx):
  """matrix with known integer spectrum; (A, q1, q2, sv, sig)"""
  for _ in range(300):
    q1, c1 = orth(rng, m, cx)
    q2, c2 = orth(rng, n, cx)
    r = math.isqrt(c1 * c2)
    if r * r != c1 * c2:
      continue
    k = min(m, n)
    top = max(1, 24 // r)
    style = rng.random()
    pool = list(range(0, top + 1))
    if style < .35:
      sv = [rng.choice(pool) for _ in range(k)]
    elif style < .6:
      b = rng.choice(pool[1:])
      sv = [rng.choice([b, b, rng.choice(pool)]) for _ in range(k)]
    elif style < .8 and top >= k:
      sv = rng.sample(pool[1:], k) if len(pool) - 1 >= k else [rng.choice(pool) for _ in range(k)]
    else:
      sv = [rng.choice([0, 1, 1, 2 if top >= 2 else 1]) for _ in range(k)]
    sv = sorted(sv, reverse=True)
    if sv[0] == 0:
      continue
    d = np.zeros((m, n))
    for i in range(k):
      d[i, i] = sv[i]
    A = q1 @ d @ q2
    return A, q1, q2, sv, [s * r for s in sv]
  return None

def trunc(rng, sig):
  """random truncation request whose bounds are never met with equality"""
  k = len(sig)
  maxx = 1 if rng.random() < .5 else 0
  mx = rng.choice([0, 1, 1] + list(range(1, k + 2)) * 3)
  errx = 1 if rng.random() < .65 or not maxx else 0
  rel = rng.choice([0, 0, 1])
  if not errx:
    return dict(maxx=maxx, max=mx, errx=0, ep=0, eq=1, rel=rng.choice([0, 1]))
  for _ in range(60):
    q = rng.choice([1, 2, 3, 4, 8])
    tails = [sum(x * x for x in sig[j:]) for j in range(k + 1)]
    t = rng.choice(tails)
    base = math.sqrt(t) / (sig[0] if rel else 1)
    p = int(base * q) + rng.choice([0, 1, 1, 2, -1])
    if p <= 0 or p > 120:
      continue
    R = p * p * (sig[0] ** 2 if rel else 1)
    if any(q * q * t2 == R for t2 in tails) or R > 2 ** 29 or q * q * tails[0] > 2 ** 29:
      continue
    # stay away from rounding
    if any(abs(q * math.sqrt(t2) - math.sqrt(R)) < 1e-3 * max(1, math.sqrt(R)) for t2 in tails):
      continue
    return dict(maxx=maxx, max=mx, errx=1, ep=p, eq=q, rel=rel)
  return dict(maxx=1, max=mx, errx=0, ep=0, eq=1, rel=rel)

def kw(d, name):
  k = {}
  if d["maxx"]:
    k["max_singular_values"] = d["max"]
  if d["errx"]:
    k[name] = d["ep"] / d["eq"]
  if d["rel"]:
    k["relative"] = True
  return k
