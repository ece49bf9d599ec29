H = '''
import numpy as np
import tensornetwork as tn
'''
BUGS = [
dict(id="D02-error-keeps-fewer", prop="D02", edits=[("tensornetwork/backends/numpy/decompositions.py",
"  num_sing_vals_keep = min(max_singular_values, num_sing_vals_err)\n",
"  num_sing_vals_keep = min(max_singular_values, max(num_sing_vals_err, 1))\n"),
],
needs="an error bound that allows every singular value to be dropped",
breaks="one singular value is kept although the error bound asks for none",
demo=H + '''
from tensornetwork.backends import backend_factory
b = backend_factory.get_backend("numpy")
u, s, v, r = b.svd(np.diag([3., 2., 1.]), 1, max_truncation_error=10.)
assert s.shape == (0,), s
assert np.allclose(r, [3., 2., 1.])
'''),
dict(id="C03-trace-counted", prop="C03", edits=[("tensornetwork/contractors/custom_path_solvers/nconinterface.py",
"      if tnr[0] != tnr[1]:  # ignore partial traces\n        log_adj[tnr[0], tnr[1]] += np.log10(tensors[tnr[0]].shape[ind[0]])\n        log_adj[tnr[1], tnr[0]] += np.log10(tensors[tnr[0]].shape[ind[0]])\n",
"      log_adj[tnr[0], tnr[1]] += np.log10(tensors[tnr[0]].shape[ind[0]])\n      if tnr[0] != tnr[1]:\n        log_adj[tnr[1], tnr[0]] += np.log10(tensors[tnr[0]].shape[ind[0]])\n")],
needs="a network in which one tensor has a partial trace",
breaks="traced legs are counted as open ones: reported cost and chosen order are wrong",
demo=H + '''
from tensornetwork.contractors import ncon_solver
A = np.ones((8, 8, 2, 3)); B = np.ones((3, 2))
order, cost, opt = ncon_solver([A, B], [[1, 1, -1, 2], [2, -2]])
assert abs(10 ** cost - 12) < 1e-6, 10 ** cost
'''),
dict(id="M04-ff2d-single-row", prop="M04", edits=[("tensornetwork/matrixproductstates/mpo.py",
"      mpo_matrix[2 * N1 + 1, 1, :, :] = _t1 * cdag # cdag @ sigma_z == cdag\n      mpo_matrix[2 * N1 + 1, N1, :, :] = _t2 * cdag\n      mpo_matrix[2 * N1 + 1, N1+1, :, :] = _t1 * c # c @ sigma_z == -c\n      mpo_matrix[2 * N1 + 1, 2*N1, :, :] = _t2 * c # c @ sigma_z == -c\n",
"      mpo_matrix[2 * N1 + 1, N1, :, :] = _t2 * cdag\n      mpo_matrix[2 * N1 + 1, 2*N1, :, :] = _t2 * c # c @ sigma_z == -c\n      mpo_matrix[2 * N1 + 1, 1, :, :] = _t1 * cdag # cdag @ sigma_z == cdag\n      mpo_matrix[2 * N1 + 1, N1+1, :, :] = _t1 * c # c @ sigma_z == -c\n")],
needs="a lattice whose vertical size is one",
breaks="the horizontal hopping between the interior sites is lost",
demo=H + """
from tensornetwork.matrixproductstates.mpo import FiniteFreeFermion2D
t2, v = 1.3, .4
H = FiniteFreeFermion2D(.7, t2, v, 1, 4, np.float64, backend="numpy").tensors
M = np.ones((1, 1, 1))
for w in H:
  M = np.einsum("aij,abkl->bikjl", M, w).reshape(w.shape[1], M.shape[1] * 2, M.shape[2] * 2)
h = v * np.eye(4) + t2 * (np.eye(4, k=1) + np.eye(4, k=-1))
e = np.linalg.eigvalsh(h)
E = np.sort([sum(e[k] for k in range(4) if b >> k & 1) for b in range(16)])
assert np.allclose(np.sort(np.linalg.eigvals(M[0]).real), E)
"""),
dict(id="L01-conv-kernel-transposed", prop="L01", edits=[("tensornetwork/tn_keras/conv2d_mpo.py",
"    edges = [tn_nodes[0][1], tn_nodes[-1][2]] + input_edges + output_edges\n",
"    spatial = [n[a] for n, a in ((tn_nodes[0], 1), (tn_nodes[-1], 2))]\n    spatial.sort(key=lambda e: e.node1.shape[e.axis1], reverse=True)\n    if self.kernel_size[0] <= self.kernel_size[1]:\n      spatial.reverse()\n    edges = spatial + input_edges + output_edges\n")],
needs="a square kernel with weights that are not symmetric in height and width",
breaks="height and width of the kernel are exchanged",
demo=H + """
import tensorflow as tf
from tensornetwork.tn_keras.layers import Conv2DMPO
l = Conv2DMPO(4, kernel_size=2, num_nodes=2, bond_dim=2, padding="valid", use_bias=False)
x = np.arange(36.).reshape(1, 3, 3, 4).astype(np.float32)
l(x)
rng = np.random.default_rng(0)
W = [rng.integers(-3, 4, w.shape).astype(np.float32) for w in l.get_weights()]
l.set_weights(W)
K = np.einsum("ihbo,jbwp->hwijop", W[0], W[1]).reshape(2, 2, 4, 4)
y = tf.nn.conv2d(x, K, 1, "VALID").numpy()
assert np.allclose(l(x).numpy(), y)
"""),
dict(id="L01-condenser-leg-order", prop="L01", edits=[("tensornetwork/tn_keras/condenser.py",
"        tn.connect(state_node.edges[-2], op[1])\n",
"        tn.connect(state_node.edges[0], op[1])\n")],
needs="a condenser with at least two nodes",
breaks="the legs of the input are condensed in the opposite order",
demo=H + """
import tensorflow as tf
from tensornetwork.tn_keras.layers import DenseCondenser
l = DenseCondenser(2, 2, use_bias=False)
x = np.arange(8.).reshape(1, 8).astype(np.float32)
l(x)
rng = np.random.default_rng(0)
W = [rng.integers(-3, 4, w.shape).astype(np.float32) for w in l.get_weights()]
l.set_weights(W)
t = x.reshape(2, 2, 2)
t = np.einsum("abx,xby->ay", t, W[0]); t = np.einsum("ax,xay->y", t, W[1])
assert np.allclose(l(x).numpy()[0], t) or np.allclose(l(x).numpy()[0], np.maximum(t, 0)), (l(x).numpy(), t)
"""),
]
