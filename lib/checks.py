"""Which models, drivers and trace specifications decide which property."""

def net(profile, n=400, jaxn=120, tfn=120):
  jobs = [dict(driver="net.py", module="NetTrace", profile=profile, backend="numpy", n=n, shard=k) for k in range(6)]
  jobs.append(dict(driver="net.py", module="NetTrace", profile=profile, backend="jax", n=jaxn, shard=6, secs=40))
  jobs.append(dict(driver="net.py", module="NetTrace", profile=profile, backend="tensorflow", n=tfn, shard=7, secs=40))
  return dict(jobs=jobs)

def dense(driver, module, n, jaxn=0, tfn=0, numpy_shards=None, **kw):
  jobs = []
  k = 0
  extra = (1 if jaxn else 0) + (1 if tfn else 0)
  for _ in range(numpy_shards or 8 - extra):
    jobs.append(dict(driver=driver, module=module, backend="numpy", n=n, shard=k, **kw)); k += 1
  for b, m in (("jax", jaxn), ("tensorflow", tfn)):
    if m:
      jobs.append(dict(driver=driver, module=module, backend=b, n=m, shard=k, secs=60, **kw)); k += 1
  return dict(jobs=jobs)

CHECKS = {}
for _p in ["N01", "N02", "N03", "N04", "N05", "N06", "N07", "N08", "C02"]:
  CHECKS[_p] = net(_p)
# every short program of the exhaustive network model, replayed on the real code
for _p in ["N01", "N02", "N04"]:
  CHECKS[_p]["models"] = [dict(module="NetModel", emit=True, deep="NetModelDeep", workers=4)]
  CHECKS[_p]["jobs"] += [dict(driver="net.py", module="NetTrace", profile=_p, backend="numpy", n=3000, shard=k, from_model="NetModel")
                         for k in range(8, 12)]
CHECKS["C01"] = dense("ncon.py", "NconTrace", 600, 100, 300)
CHECKS["C01"]["models"] = [dict(module="NconModel", emit=True, deep="NconModelDeep", workers=4)]
CHECKS["C01"]["jobs"] += [dict(driver="ncon.py", module="NconTrace", backend="numpy", n=900, shard=k, from_model="NconModel") for k in range(8, 12)]
for _p in ["D01", "D02"]:
  CHECKS[_p] = dense("decomp.py", "DecompTrace", 200, 60, 150, profile=_p)
for _p in ["B01", "B02"]:
  CHECKS[_p] = dense("prims.py", "PrimTrace", 500, 100, 300, profile=_p)
CHECKS["C03"] = dense("order.py", "OrderTrace", 800)

CHECKS["S02"] = dense("charges.py", "ChargeTrace", 1500)
CHECKS["S01"] = dense("sparse.py", "SparseTrace", 400, profile="S01")
CHECKS["S04"] = dense("sparse.py", "SparseTrace", 300, profile="S04")
for _p, _n in (("S01", 1500), ("S04", 700)):
  CHECKS[_p]["models"] = [dict(module="SparseModel", emit=True, deep="SparseModelDeep", workers=4)]
  CHECKS[_p]["jobs"] += [dict(driver="sparse.py", module="SparseTrace", backend="numpy", profile=_p, n=_n, shard=k, from_model="SparseModel")
                         for k in range(8, 12)]
CHECKS["S03"] = dense("sparse_decomp.py", "SparseDecompTrace", 400)
CHECKS["X01"] = dense("scopes.py", "ScopesTrace", 500, numpy_shards=4)
CHECKS["X01"]["models"] = [dict(module="ScopesModel", emit=True)]
CHECKS["X01"]["jobs"] += [dict(driver="scopes.py", module="ScopesTrace", n=2000, shard=k, from_model="ScopesModel") for k in range(4, 8)]

DEFAULT_NOTE = ("TLC judges every recorded public call of randomly generated programs against the TLA+ state machine, with "
                "exact integer/Gaussian-integer tensor values; bounded by the generated programs (small ranks, dimensions and "
                "lengths). Trusts TLC, the projection in drivers/, and numpy's float64 exactness on small integers.")
CHECKS["X02"] = dense("persist.py", "PersistTrace", 300, 60, 150, numpy_shards=6, profile="X02")
CHECKS["X03"] = dense("persist.py", "PersistTrace", 400, profile="X03")
CHECKS["X04"] = dense("persist.py", "PersistTrace", 400, 60, numpy_shards=7, profile="X04")
CHECKS["Q01"] = dense("quantum.py", "QuantumTrace", 600, 60, 150, numpy_shards=6)
CHECKS["Q01"]["models"] = [dict(module="QuantumModel", emit=True, deep="QuantumModelDeep", workers=4)]
CHECKS["Q01"]["jobs"] += [dict(driver="quantum.py", module="QuantumTrace", backend="numpy", n=1200, shard=k, from_model="QuantumModel") for k in range(8, 12)]

def merged(*cs):
  return dict(jobs=[j for c in cs for j in c["jobs"]])

for _p in ["M01", "M02"]:
  CHECKS[_p] = merged(dense("mps.py", "MpsTrace", 250, 40, 80, numpy_shards=6, profile=_p),
                      dense("imps.py", "ImpsTrace", 300, numpy_shards=2, profile=_p))
CHECKS["M03"] = dense("mps.py", "MpsTrace", 300, 40, 80, numpy_shards=6, profile="M03")
for _p in ["M01", "M03"]:
  CHECKS[_p]["models"] = [dict(module="MpsModel", emit=True, deep="MpsModelDeep", workers=4)]
  CHECKS[_p]["jobs"] += [dict(driver="mps.py", module="MpsTrace", backend="numpy", profile=_p, n=1000, shard=k, from_model="MpsModel") for k in range(12, 16)]
CHECKS["M04"] = dense("mpo.py", "MpoTrace", 400, 100, 100)
CHECKS["M05"] = dense("dmrg.py", "DmrgTrace", 200, 25, 80)
CHECKS["M05"]["models"] = [dict(module="DmrgModel", emit=True, deep="DmrgModelDeep", workers=4)]
CHECKS["M05"]["jobs"] += [dict(driver="dmrg.py", module="DmrgTrace", backend="numpy", n=300, shard=k, from_model="DmrgModel") for k in range(12, 16)]

def shards(driver, module, backend, n, first, count, **kw):
  return [dict(driver=driver, module=module, backend=backend, n=n, shard=first + k, **kw) for k in range(count)]

for _p in ["K01", "K02"]:
  CHECKS[_p] = dict(jobs=shards("krylov.py", "KrylovTrace", "numpy", 250, 0, 3) + shards("krylov.py", "KrylovTrace", "symmetric", 250, 3, 2)
                    + shards("krylov.py", "KrylovTrace", "jax", 60, 5, 3, secs=35))
CHECKS["L01"] = dict(jobs=shards("layers.py", "LayersTrace", "tensorflow", 80, 0, 8, secs=50))
