H = "import numpy as np, tensornetwork as tn\n"
BUGS = [
dict(id="C02-path-single", prop="C02", edits=[("tensornetwork/contractors/opt_einsum_paths/path_contractors.py",
"""      node = nodes.pop(a)
      new_node = contract_trace_edges(node)
      nodes.append(new_node)
""", """      nodes[a] = contract_trace_edges(nodes[a])
""")],
needs="a contraction path with a one-element step for a node that is not the last one, followed by steps that count on it having moved to the end",
breaks="contract_path with one-element steps contracts the wrong nodes (an order with needless outer products, or an exception)",
demo=H + '''
rng = np.random.default_rng(0)
ts = [rng.integers(-3, 4, s).astype(float) for s in [(2, 3), (3, 4), (4, 5)]]
n = [tn.Node(t) for t in ts]
n[0][1] ^ n[1][0]; n[1][1] ^ n[2][0]
t3 = tn.Node(np.arange(5.)); n[2][1] ^ t3[0]
out = [n[0][0]]
path = [(0,), (0, 1), (0, 1), (0, 1)]
r = tn.contractors.contract_path(path, n + [t3], out) if hasattr(tn.contractors, "contract_path") else None
assert np.allclose(r.tensor, ts[0] @ ts[1] @ ts[2] @ np.arange(5.))
# order: after (0,) node 0 is last, so (0, 1) contracts nodes 1 and 2
m = [tn.Node(t) for t in ts]
m[0][1] ^ m[1][0]; m[1][1] ^ m[2][0]
r = tn.contractors.contract_path([(0,), (0, 1), (0, 1)], m, [m[0][0], m[2][1]])
m = [tn.Node(np.ones((2, 2))) for _ in range(3)]
m[0][1] ^ m[1][0]; m[1][1] ^ m[2][0]
r = tn.contractors.contract_path([(0,), (2,), (2,), (0, 1), (0, 1)], m, [m[0][0], m[2][1]])
seen = []
import tensornetwork.contractors.opt_einsum_paths.path_contractors as pc
orig = pc.contract_between
pc.contract_between = lambda a, b, **k: (seen.append((a.name, b.name)), orig(a, b, **k))[1]
m = [tn.Node(np.ones((2, 2)), name=c) for c in "abc"]
m[0][1] ^ m[1][0]; m[1][1] ^ m[2][0]
pc.contract_path([(0,), (0, 1), (0, 1)], m, [m[0][0], m[2][1]])
assert set(seen[0]) == {"b", "c"}, seen
'''),
dict(id="D02-argmax-all", prop="D02", edits=[("tensornetwork/backends/numpy/decompositions.py",
"""    num_sing_vals_err = np.count_nonzero(
        (trunc_errs > abs_max_truncation_error).astype(np.int32))
""", """    num_sing_vals_err = np.size(s) - np.argmax(
        trunc_errs > abs_max_truncation_error)
""")],
needs="an error bound that allows discarding every singular value",
breaks="with a bound at least as large as the norm of the tensor nothing is truncated at all",
demo=H + '''
n = tn.Node(np.diag([3., 2., 1.]))
u, v, e = tn.split_node(n, [n[0]], [n[1]], max_truncation_err=10.)
assert len(e) == 3 and u.shape == (3, 0), (len(e), u.shape)
'''),
dict(id="B01-index-update-inplace", prop="B01", edits=[("tensornetwork/backends/numpy/numpy_backend.py",
"    t = np.copy(tensor)\n    t[mask]", "    t = np.asarray(tensor)\n    t[mask]")],
needs="the tensor passed to index_update is used again",
breaks="index_update of the numpy backend overwrites its argument",
demo=H + '''
from tensornetwork.backends import backend_factory
b = backend_factory.get_backend("numpy")
a = np.arange(4.); c = b.index_update(a, a > 1, 7.)
assert a.tolist() == [0, 1, 2, 3] and np.asarray(c).tolist() == [0, 1, 7, 7]
'''),
dict(id="B02-builder-shared", prop="B02", edits=[("tensornetwork/tensor.py",
"""    return NconBuilder(
        self.tensors + other.tensors,
        self.axes + other.axes)""", """    self.tensors.extend(other.tensors)
    self.axes.extend(other.axes)
    return self""")],
needs="a partial NconBuilder expression used as the left operand of two expressions",
breaks="building an ncon expression changes the builder it starts from",
demo=H + '''
A = tn.Tensor(np.arange(4.).reshape(2, 2)); B = tn.Tensor(np.array([[1., 2.], [3., 5.]])); C = tn.Tensor(np.eye(2))
left = A(-1, 1)
r1 = tn.finalize(left @ B(1, -2)) if hasattr(tn, "finalize") else tn.ncon_interface.finalize(left @ B(1, -2))
r2 = tn.finalize(left @ C(1, -2)) if hasattr(tn, "finalize") else tn.ncon_interface.finalize(left @ C(1, -2))
assert np.allclose(r1.array, A.array @ B.array) and np.allclose(r2.array, A.array)
'''),
dict(id="S03-relative-first-sector", prop="S03", edits=[("tensornetwork/backends/symmetric/decompositions.py",
"""        max_truncation_error = max_truncation_error * np.max(
            [s[0] for s in singvals])
""", """        max_truncation_error = max_truncation_error * singvals[0][0]
""")],
needs="relative truncation of a tensor whose largest singular value is not in the first charge sector",
breaks="the relative error bound is taken relative to the first sector only",
demo=H + '''
from tensornetwork.block_sparse import BlockSparseTensor, U1Charge, Index
from tensornetwork.backends import backend_factory
b = backend_factory.get_backend("symmetric")
c = U1Charge(np.array([-1, 0, 1]))
for d in ([10., 1., .1], [.1, 1., 10.], [1., 10., .1]):
  t = BlockSparseTensor.fromdense([Index(c, False), Index(c, True)], np.diag(d))
  u, s, v, r = b.svd(t, 1, max_truncation_error=.05, relative=True)
  assert len(s.data) == 2, (d, s.data)
'''),
dict(id="S04-key-without-flows", prop="S04", edits=[("tensornetwork/block_sparse/blocksparse_utils.py",
"      str(np.array(flows).tostring()),\n", "")],
needs="caching enabled and two tensors with the same charges, partition and order but different flows",
breaks="a cached block table of a tensor with other flows is used",
demo=H + '''
import warnings; warnings.filterwarnings("ignore")
import tensornetwork.block_sparse as bs
from tensornetwork.block_sparse import BlockSparseTensor, U1Charge, Index
c = U1Charge(np.array([-1, 0, 1, 2]))
def run():
  out = []
  for fl in ([False, True, False], [False, False, True], [True, True, False]):
    np.random.seed(3)
    a = BlockSparseTensor.random([Index(c, f) for f in fl])
    out.append(bs.tensordot(a, a.conj(), ([0, 1], [0, 1])).todense())
  return out
ref = run()
bs.enable_caching()
got = run()
bs.disable_caching()
assert all(x.shape == y.shape and np.allclose(x, y) for x, y in zip(ref, got))
'''),
dict(id="X01-exit-exception", prop="X01", edits=[("tensornetwork/backend_contextmanager.py",
"    _default_backend_stack.stack.pop()", "    if exc_type is None:\n      _default_backend_stack.stack.pop()")],
needs="a DefaultBackend scope left by an exception",
breaks="the backend of a scope left by an exception stays in force",
demo=H + '''
try:
  with tn.DefaultBackend("tensorflow"):
    raise KeyError("x")
except KeyError:
  pass
assert tn.Node(np.ones(2)).backend.name == "numpy"
'''),
dict(id="M04-chain-order", prop="M04", edits=[("tensornetwork/matrixproductstates/mpo.py",
"""      mpo_matrix[2 * N1 + 1, 1, :, :] = _t1 * cdag # cdag @ sigma_z == cdag
      mpo_matrix[2 * N1 + 1, N1, :, :] = _t2 * cdag
""", """      mpo_matrix[2 * N1 + 1, N1, :, :] = _t2 * cdag
      mpo_matrix[2 * N1 + 1, 1, :, :] = _t1 * cdag # cdag @ sigma_z == cdag
""")],
needs="a free-fermion lattice of vertical size N1 = 1 with at least three sites",
breaks="the horizontal hopping of a chain (N1 = 1) is overwritten with zero in the bulk",
demo=H + '''
m = tn.FiniteFreeFermion2D(1., 2., .5, 1, 3, np.float64)
t = m.tensors[0]
for a in m.tensors[1:]:
  t = np.einsum("abij,bckl->acikjl", t, a).reshape(t.shape[0], a.shape[1], t.shape[2] * 2, -1)
h = t[0, 0]
assert np.allclose(h, h.T.conj()), "not hermitian"
'''),
dict(id="M05-return-previous", prop="M05", edits=[("tensornetwork/matrixproductstates/dmrg.py",
"""        print_msg(site=self.mps.center_position + 1)

      if np.abs(final_energy - energy) < precision:
        converged = True
      final_energy = energy
""", """        print_msg(site=self.mps.center_position + 1)

      if np.abs(final_energy - energy) < precision:
        converged = True
      else:
        final_energy = energy
""")],
needs="single-site DMRG that stops because the requested (coarse) precision is reached",
breaks="the energy returned on convergence is the one of the previous sweep, not of the state left in the MPS",
demo=H + '''
np.random.seed(0)
N = 6
mpo = tn.FiniteXXZ(np.ones(N - 1), np.ones(N - 1), np.ones(N) * .3, np.float64)
mps = tn.FiniteMPS.random([2] * N, [2] * (N - 1), np.float64)
d = tn.FiniteDMRG(mps, mpo)
e = d.run_one_site(num_sweeps=6, precision=1e-1, num_krylov_vecs=3, verbose=0)
assert abs(e - d.compute_energy()) < 1e-8, (e, d.compute_energy())
'''),
dict(id="K01-cache-backend", prop="K01", edits=[("tensornetwork/linalg/krylov.py",
"""    if backend_name not in self.cache:
      self.cache[backend_name] = {}
    if matvec not in self.cache[backend_name]:
""", """    if backend_name not in self.cache:
      self.cache[backend_name] = {}
    for cached in self.cache.values():
      if matvec in cached:
        return cached[matvec]
    if matvec not in self.cache[backend_name]:
""")],
needs="one operator function used with two backends in one process",
breaks="the operator receives tensors labelled with the backend of the first call",
demo=H + '''
seen = []
def mv(x, a):
  seen.append((x.backend.name, a.backend.name))
  return a * x
from tensornetwork.linalg import krylov
M = np.array([1., 2., 3.])
for b in ["numpy", "jax"]:
  x = tn.Tensor(np.ones(3, dtype=np.float32), backend=b); A = tn.Tensor(M.astype(np.float32), backend=b)
  del seen[:]
  krylov.eigsh_lanczos(mv, args=[A], x0=x, num_krylov_vecs=3)
  assert all(s == (b, b) for s in seen), seen
'''),
dict(id="L01-conv-dilation-shape", prop="L01", edits=[("tensornetwork/tn_keras/conv2d_mpo.py",
"          stride=self.strides[i],\n          dilation=self.dilation_rate[i])", "          stride=self.strides[i])")],
needs="a dilated convolution with valid padding",
breaks="compute_output_shape ignores the dilation",
demo=H + '''
import tensorflow as tf
from tensornetwork.tn_keras.conv2d_mpo import Conv2DMPO
l = Conv2DMPO(filters=4, kernel_size=3, num_nodes=2, bond_dim=2, dilation_rate=2, padding="valid")
x = np.ones((1, 9, 9, 4), dtype=np.float32)
assert tuple(l(x).shape) == tuple(l.compute_output_shape((1, 9, 9, 4))), l.compute_output_shape((1, 9, 9, 4))
'''),
dict(id="L01-entangler-wrap", prop="L01", edits=[("tensornetwork/tn_keras/entangler.py",
"        edges[i % num_legs] = node[2]\n        edges[(i + 1) % num_legs] = node[3]",
"        edges[i % num_legs], edges[(i + 1) % num_legs] = (node[2], node[3]) if (i + 1) % num_legs else (node[3], node[2])")],
needs="an entangler with at least as many nodes as legs, so that the staircase wraps around",
breaks="the node that wraps around has its two outputs exchanged",
demo=H + '''
import tensorflow as tf
from tensornetwork.tn_keras.layers import DenseEntangler
l = DenseEntangler(4, num_legs=2, num_levels=3, use_bias=False) 
x = np.arange(1., 5.).reshape(1, 4).astype(np.float32)
l(x)
W = [w for w in l.get_weights()]
rng = np.random.default_rng(0)
W = [rng.integers(-3, 4, w.shape).astype(np.float32) for w in W]
l.set_weights(W)
y = l(x).numpy()
st = x.reshape(2, 2); legs = ["a", "b"]
t = st; order = [0, 1]
# order[k]: axis of leg k in t
for i, w in enumerate(W):
  p, q = i % 2, (i + 1) % 2
  t = np.tensordot(t, w, ([order[p], order[q]], [0, 1]))
  order = [None, None]; order[p] = 0; order[q] = 1
assert np.allclose(np.abs(y), np.abs(t.reshape(1, 4))) or np.allclose(y, np.maximum(t, 0).reshape(1, 4)), (y, t)
'''),
]
