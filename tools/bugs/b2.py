PRE = "import numpy as np\nimport tensornetwork as tn\n"
MP = "tensornetwork/matrixproductstates/base_mps.py"
FM = "tensornetwork/matrixproductstates/finite_mps.py"
IM = "tensornetwork/matrixproductstates/infinite_mps.py"
QU = "tensornetwork/quantum/quantum.py"
CH = "tensornetwork/block_sparse/charge.py"
BT = "tensornetwork/block_sparse/blocksparsetensor.py"
BL = "tensornetwork/block_sparse/linalg.py"
UT = "tensornetwork/utils.py"
GV = "tensornetwork/visualization/graphviz.py"
TE = "tensornetwork/tensor.py"
NI = "tensornetwork/ncon_interface.py"
DE = "tensornetwork/backends/numpy/decompositions.py"
BUGS = [
 dict(id="M01-gate-keeps-centre", prop="M01", edits=[(MP,
"        else:\n          self.center_position = None",
"        elif self.center_position > site2:\n          self.center_position = None")],
  demo=PRE + """
np.random.seed(1)
m = tn.FiniteMPS.random([2, 2, 2, 2], [2, 4, 2], np.float64, backend="numpy")
g = np.random.randn(4, 4).reshape(2, 2, 2, 2)
m.apply_two_site_gate(g, 2, 3)
if m.center_position is not None:
  assert abs(m.check_canonical()) < 1e-8
""", needs="two-site gate on sites to the right of the centre",
  breaks="the centre stays reported although the tensors right of it are no longer isometric"),
 dict(id="M02-correlator-order", prop="M02", edits=[(MP,
"      O1[1] ^ O2[0]\n", "      O1[0] ^ O2[1]\n"), (MP,
"      A[1] ^ O2[1]\n      conj_A[1] ^ O1[0]\n", "      A[1] ^ O1[1]\n      conj_A[1] ^ O2[0]\n")],
  demo=PRE + """
np.random.seed(1)
m = tn.FiniteMPS.random([2, 2, 2], [2, 2], np.complex128, backend="numpy")
a = np.random.randn(2, 2); b = np.random.randn(2, 2)
r = m.measure_two_body_correlator(a, b, 1, [1])[0]
s = m.measure_local_operator([a @ b], [1])[0]
assert abs(r - s) < 1e-8
""", needs="a correlator with coinciding sites and operators that do not commute",
  breaks="the product of the two operators is taken in the wrong order"),
 dict(id="M02-local-transposed", prop="M02", edits=[(MP,
"      O[1] ^ A[1]\n      O[0] ^ conj_A[1]\n", "      O[0] ^ A[1]\n      O[1] ^ conj_A[1]\n")],
  demo=PRE + """
np.random.seed(1)
m = tn.FiniteMPS.random([2, 2, 2], [2, 2], np.complex128, backend="numpy")
o = np.array([[0, 1], [0, 0]], dtype=np.complex128)
r = m.measure_local_operator([o], [1])[0]
t = np.einsum("xay,ybz,zcw->abc", *m.tensors)
s = np.einsum("abc,bd,adc->", t.conj(), o, t)
assert abs(r - s) < 1e-8
""", needs="a non-symmetric operator on a complex state", breaks="the transposed operator is measured"),
 dict(id="M03-relative-ignored", prop="M03", edits=[(MP,
"          max_truncation_error=max_truncation_err,\n          relative=relative)",
"          max_truncation_error=max_truncation_err,\n          relative=relative and max_singular_values is None)")],
  demo=PRE + """
np.random.seed(3)
m = tn.FiniteMPS.random([2, 2, 2, 2], [2, 4, 2], np.float64, backend="numpy")
m.position(1)
g = .1 * np.eye(4).reshape(2, 2, 2, 2)
m.apply_two_site_gate(g, 1, 2, max_singular_values=4, max_truncation_err=.3, relative=True)
m2 = tn.FiniteMPS.random([2, 2, 2, 2], [2, 4, 2], np.float64, backend="numpy")
assert m.bond_dimension(2) >= 2, m.bond_dimensions
""", needs="a relative truncation error together with a limit on the number of singular values, on a gate that changes the norm",
  breaks="the truncation error is taken as absolute"),
 dict(id="M01-canonicalize-threshold", prop="M01", edits=[(IM,
"        max_truncation_error=truncation_threshold,\n        relative=True)",
"        max_truncation_error=truncation_threshold if D is None else None,\n        relative=True)"), (IM,
"    lam_norm = self.backend.norm(singvals)\n", "    lam_norm = self.backend.norm(singvals[:D])\n"), (IM,
"    eigvals_right /= self.backend.norm(eigvals_right)\n", "    eigvals_right /= self.backend.sum(eigvals_right, [0])\n"), (IM,
"    lam = self.backend.diagflat(singvals)\n", "    lam = self.backend.diagflat(singvals / singvals[0])\n")],
  demo=PRE + """
np.random.seed(3)
m = tn.InfiniteMPS.random([2, 2], [3, 3, 3], np.float64, backend="numpy")
m.canonicalize()
l = np.linalg.inv(m.connector_matrix)
assert abs(np.linalg.norm(l) - 1) < 1e-8
for k in range(2):
  t = m.get_tensor(k)
  assert np.allclose(np.einsum("abc,abd->cd", t, t.conj()), np.eye(t.shape[2]))
""", needs="canonicalising an infinite MPS", breaks="the connector matrix is normalised with the wrong factor"),
 dict(id="Q01-tensor-adjoint-vectors", prop="Q01", edits=[(QU,
"""    in_edges = ([edges_dict1[e] for e in self.in_edges] +
                [edges_dict2[e] for e in other.in_edges])
    out_edges = ([edges_dict1[e] for e in self.out_edges] +
                 [edges_dict2[e] for e in other.out_edges])""",
"""    out_edges = ([edges_dict1[e] for e in self.out_edges] +
                 [edges_dict2[e] for e in other.out_edges])
    in_edges = ([edges_dict1[e] for e in self.in_edges] +
                [edges_dict2[e] for e in other.in_edges])
    if not out_edges:
      in_edges = in_edges[::-1]""")],
  demo=PRE + """
a = tn.quantum.quantum.QuAdjointVector.from_tensor(np.arange(2.), backend="numpy") if hasattr(tn, "quantum") else None
from tensornetwork.quantum import quantum as qu
a = qu.QuAdjointVector.from_tensor(np.arange(1., 3.), backend="numpy"); b = qu.QuAdjointVector.from_tensor(np.arange(5., 8.), backend="numpy")
r = a.tensor_product(b)
assert [e.dimension for e in r.in_edges] == [2, 3]
assert np.allclose(r.eval(), np.outer(np.arange(1., 3.), np.arange(5., 8.)))
""".replace('a = tn.quantum.quantum.QuAdjointVector.from_tensor(np.arange(2.), backend="numpy") if hasattr(tn, "quantum") else None\n', ''),
  needs="tensor product of adjoint vectors", breaks="subsystem order of the product"),
 dict(id="Q01-partial-trace-ignore", prop="Q01", edits=[(QU,
"""        edge_dict[e] for e in self.out_edges if e not in out_edges_trace
    ]""", """        edge_dict[e] for e in self.out_edges if e not in out_edges_trace
    ]
    if len(out_edges) > 2:
      out_edges = [edge_dict[e] for e in sorted(set(self.out_edges) - out_edges_trace, key=lambda e: (e.axis1, self.out_edges.index(e)))]""")],
  demo=PRE + """
from tensornetwork.quantum import quantum as qu
n = tn.Node(np.arange(2*3*4*5*5.).reshape(4,2,3,5,5), backend="numpy")
r = qu.QuOperator([n[3], n[2], n[0], n[1]], [n[4]])
t = r.partial_trace([0])
assert t.out_space == [3, 4, 2], t.out_space
""", needs="partial trace leaving at least three subsystems whose edges are not in the axis order of their node",
  breaks="subsystem order after a partial trace"),
 dict(id="S02-getitem-dual-type", prop="S02", edits=[(CH,
"      unique_labels, new_labels = unique(labels, return_inverse=True)\n      unique_charges = self.unique_charges[unique_labels, :]",
"      unique_labels, new_labels = np.unique(labels), labels\n      if len(unique_labels) < self.num_unique:\n        new_labels = labels - np.min(labels, initial=self.num_unique)\n      unique_charges = self.unique_charges[unique_labels, :]")],
  demo=PRE + """
from tensornetwork.block_sparse.charge import U1Charge
c = U1Charge(np.array([0, 1, 2, 3]))
c.unique_charges
assert np.array_equal(c[[0, 2, 2]].charges.ravel(), [0, 2, 2])
""", needs="indexing a charge in label representation with a gap in the selected labels",
  breaks="selected charges"),
 dict(id="X02-unnamed-edge", prop="X02", edits=[(UT,
"  edges = list(get_all_edges(nodes))\n", "  edges = sorted(get_all_edges(nodes), key=lambda e: e.name)\n"), (UT,
"  for edge in edges_list:\n    edge.set_name(edge_names[edge.name])", "  for edge, name in zip(edges_list, edge_names.values()):\n    edge.set_name(name)")],
  demo=PRE + """
import tempfile, os
a = tn.Node(np.ones([2] * 12), backend="numpy", name="a")
for i, e in enumerate(a.edges):
  e.set_name("n%02d" % i)
with tempfile.TemporaryDirectory() as d:
  p = os.path.join(d, "x.h5")
  tn.save_nodes([a], p)
  b = tn.load_nodes(p)[0]
assert [e.name for e in b.edges] == ["n%02d" % i for i in range(12)], [e.name for e in b.edges]
""", needs="saving a network with more than ten edges", breaks="edge names after loading"),
 dict(id="X04-parallel-edges", prop="X04", edits=[(GV,
"      if edge in seen_edges:\n        continue\n      seen_edges.add(edge)",
"      key = frozenset([(edge.node1, edge.axis1), (edge.node2, edge.axis1)])\n      if key in seen_edges:\n        continue\n      seen_edges.add(key)")],
  demo=PRE + """
from tensornetwork.visualization.graphviz import to_graphviz
a = tn.Node(np.ones((2, 2, 3)), backend="numpy"); b = tn.Node(np.ones((2, 2)), backend="numpy")
a[0] ^ a[1]; a[2]
c = tn.Node(np.ones((2, 2, 2, 2)), backend="numpy")
c[0] ^ c[2]; c[1] ^ b[0]
g = to_graphviz([a, b, c])
n = sum(1 for l in g.body if "--" in l)
assert n == len(tn.get_all_edges([a, b, c])), (n, g.source)
d = tn.Node(np.ones((2, 2)), backend="numpy"); e = tn.Node(np.ones((2, 2)), backend="numpy")
d[0] ^ e[1]; e[0]; d[1]
g = to_graphviz([e, d])
assert sum(1 for l in g.body if "--" in l) == 3, g.source
d = tn.Node(np.ones((2, 2)), backend="numpy"); e = tn.Node(np.ones((2, 2)), backend="numpy")
d[0] ^ e[1]; e[0] ^ d[1]
g = to_graphviz([e, d])
assert sum(1 for l in g.body if "--" in l) == 2, g.source
d = tn.Node(np.ones((2, 2)), backend="numpy"); e = tn.Node(np.ones((2, 2)), backend="numpy")
d[0] ^ e[1]; d[0] ; d.edges
f = tn.Node(np.ones((2, 2)), backend="numpy"); h = tn.Node(np.ones((2, 2)), backend="numpy")
f[0] ^ h[0]; h[1] ^ f[1]
f2 = tn.Node(np.ones((2, 2, 2)), backend="numpy"); h2 = tn.Node(np.ones((2, 2, 2)), backend="numpy")
f2[0] ^ h2[1]; h2[0] ^ f2[2]; 
g = to_graphviz([f2, h2])
assert sum(1 for l in g.body if "--" in l) == 4, g.source
""", needs="two edges of the same nodes starting at the same axis", breaks="an edge is left out of the drawing"),
 dict(id="D01-rq-phases", prop="D01", edits=[(DE,
"  r, q = np.conj(np.transpose(r)), np.conj(\n      np.transpose(q))  #M=r*q at this point",
"  if not non_negative_diagonal or len(left_dims) < 3:\n    r, q = np.conj(np.transpose(r)), np.conj(\n        np.transpose(q))  #M=r*q at this point\n  else:\n    r, q = np.conj(np.transpose(r)), np.transpose(q)")],
  demo=PRE + """
np.random.seed(0)
from tensornetwork.backends.backend_factory import get_backend
b = get_backend("numpy")
t = np.random.randn(2, 2, 2, 3) + 1j * np.random.randn(2, 2, 2, 3)
r, q = b.rq(t, 3, True)
assert np.allclose(np.tensordot(r, q, (3, 0)), t)
""", needs="rq with non-negative diagonal of a complex tensor with at least three left axes", breaks="the factors no longer multiply to the input"),
 dict(id="C01-batch-release", prop="C01", edits=[(NI,
"        if (batch_labels[i] > 0) and (batch_cnts[i] <= 2):",
"        if (batch_labels[i] > 0) and (batch_cnts[i] <= 3):")],
  demo=PRE + """
a, b, c, d = [np.random.RandomState(k).randn(3) for k in range(4)]
r = tn.ncon([a, b, c, d], [[1], [1], [1], [1]], backend="numpy")
assert np.allclose(r, np.sum(a * b * c * d))
""", needs="a contracted label carried by four tensors", breaks="batch bookkeeping"),
]
