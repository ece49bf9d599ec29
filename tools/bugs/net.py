PRE = "import numpy as np\nimport tensornetwork as tn\n"
NC = "tensornetwork/network_components.py"
NO = "tensornetwork/network_operations.py"
BUGS = [
 dict(id="N01-remove-trace-axis", prop="N01", edits=[(NC,
"      to_reduce += 1 if tmp_edge.axis1 > axes[1] else 0\n      tmp_edge.axis1 -= to_reduce",
"      to_reduce += 1 if tmp_edge.axis1 > axes[1] and tmp_edge.is_dangling() else 0\n      tmp_edge.axis1 -= to_reduce")],
  demo=PRE + """
a = tn.Node(np.arange(2*2*3*3).reshape(2,2,3,3), backend="numpy")
b = tn.Node(np.ones((3,)), backend="numpy")
tn.connect(a[0], a[1]); tn.connect(a[2], b[0])
e = a.get_edge(0)
n = tn.contract(e)
for i, x in enumerate(n.edges):
  assert (x.node1 is n and x.axis1 == i) or (x.node2 is n and x.axis2 == i), (i, x.axis1, x.axis2)
""", needs="contracting a trace edge of a node that has, behind both traced axes, an edge connected to another node and created with that node first",
  breaks="edge axis bookkeeping after a trace"),
 dict(id="N02-outer-stale", prop="N02", edits=[(NC,
"""    new_node.add_edge(edge, i, True)

  node1.fresh_edges(node1_axis_names)
  node2.fresh_edges(node2_axis_names)""",
"""    new_node.add_edge(edge, i, True)

  node1.fresh_edges(node1_axis_names)
  if not node2.has_nondangling_edge():
    node2.fresh_edges(node2_axis_names)""")],
  demo=PRE + """
a = tn.Node(np.ones((2,)), backend="numpy"); b = tn.Node(np.ones((3,4)), backend="numpy"); c = tn.Node(np.ones((4,)), backend="numpy")
b[1] ^ c[0]
n = tn.outer_product(a, b)
assert not any(e in n.edges for e in b.edges)
""", needs="outer product whose second operand is connected to a third node",
  breaks="the consumed operand keeps the edges that now belong to the product"),
 dict(id="N03-reorder-merged-loop", prop="N03", edits=[(NC,
"""    for edge in edge_order:
      if edge.node1 == edge.node2:
        raise ValueError("Edge reordering does not support trace edges. "
                         "Found trace edge: '{}'".format(edge))
""", ""), (NC, """    for i, edge in enumerate(edge_order):
      # This""", """    for i, edge in enumerate(edge_order):
      if edge.node1 == edge.node2:
        raise ValueError("Edge reordering does not support trace edges. "
                         "Found trace edge: '{}'".format(edge))
      # This""")],
  demo=PRE + """
a = tn.Node(np.ones((2,3,4,4)), backend="numpy")
e = a[2] ^ a[3]
try:
  a.reorder_edges([a[1], a[0], e, e])
  raise SystemExit(1)
except ValueError:
  pass
assert [x.axis1 for x in a.edges[:2]] == [0, 1]
""", needs="reorder_edges with a trace edge listed after edges that change position",
  breaks="the rejected request leaves edges pointing at the wrong axes"),
 dict(id="N04-axis-names-cycle", prop="N04", edits=[(NC,
"""      tmp_axis_names = []
      for i in perm:
        tmp_axis_names.append(self.axis_names[i])
      self.axis_names = tmp_axis_names""",
"""      tmp_axis_names = list(self.axis_names)
      for i, position in enumerate(perm):
        tmp_axis_names[position] = self.axis_names[i]
      self.axis_names = tmp_axis_names""")],
  demo=PRE + """
a = tn.Node(np.ones((2,3,4)), axis_names=["a","b","c"], backend="numpy")
a.reorder_axes([1,2,0])
assert a.axis_names == ["b","c","a"] and a.get_dimension("a") == 2
""", needs="a permutation of axes that is not its own inverse, on a node with axis names",
  breaks="names are permuted with the inverse permutation"),
 dict(id="N05-copy-boundary-axis", prop="N05", edits=[(NO,
"""      new_edge = Edge(node_dict[node2], axis2, edge.name)
      node_dict[node2].add_edge(new_edge, axis2)""",
"""      new_edge = Edge(node_dict[node2], axis1, edge.name)
      node_dict[node2].add_edge(new_edge, axis2)""")],
  demo=PRE + """
a = tn.Node(np.ones((2,3)), backend="numpy"); b = tn.Node(np.ones((3,4)), backend="numpy")
e = a[1] ^ b[0]
nd, ed = tn.copy([b])
assert ed[e].axis1 == 0 and nd[b].edges[0] is ed[e]
""", needs="copying a subset of a network with a boundary edge whose outside node is the edge's first node, on different axes",
  breaks="the boundary edge of the copy points to the wrong axis"),
 dict(id="N06-neighbors-dup", prop="N06", edits=[(NO,
"""      elif edge.node1 not in neighbors_set:
        neighbors.append(edge.node1)
        neighbors_set.add(edge.node1)""",
"""      elif edge.node1 not in neighbors_set:
        neighbors.append(edge.node1)
        neighbors_set.add(edge.node2)""")],
  demo=PRE + """
a = tn.Node(np.ones((2,2)), backend="numpy"); b = tn.Node(np.ones((2,2)), backend="numpy")
a[0] ^ b[0]; a[1] ^ b[1]
assert tn.get_neighbors(b) == [a]
""", needs="parallel edges whose first node is the neighbour", breaks="a neighbour is listed twice"),
 dict(id="N07-slice-trace", prop="N07", edits=[(NC,
"""  for node, axis in zip(edge.get_nodes(), [edge.axis1, edge.axis2]):
    if node is not None:
      tensor = node.get_tensor()""",
"""  for node, axis in {edge.node1: edge.axis1, edge.node2: edge.axis2}.items():
    if node is not None:
      tensor = node.get_tensor()""")],
  demo=PRE + """
a = tn.Node(np.arange(9.).reshape(3,3), backend="numpy")
e = a[0] ^ a[1]
tn.slice_edge(e, 1, 2)
assert a.shape == (2, 2)
""", needs="slicing a trace edge", breaks="only one side of a trace edge is sliced"),
 dict(id="N08-partner-axes", prop="N08", edits=[(NC,
"""      if partner_node not in partners:
        partners[partner_node] = set()
      partners[partner_node].add(shared_axis)""",
"""      if partner_node not in partners:
        partners[partner_node] = set()
      if shared_axis is not None and shared_axis <= self.rank:
        partners[partner_node].add(shared_axis)""")],
  demo=PRE + """
x = np.arange(16.).reshape(2,2,2,2); y = np.arange(2.)
a = tn.Node(x, backend="numpy"); b = tn.Node(y, backend="numpy")
c = tn.CopyNode(2, 2, backend="numpy")
a[3] ^ c[0]; b[0] ^ c[1]
n = tn.contract_copy_node(c)
assert n.tensor.shape == (2,2,2) and np.allclose(n.tensor, np.einsum('abcd,d->abc', x, y))
""", needs="a partner attached to the copy node by an axis number larger than the copy node's rank",
  breaks="the shared index is not identified, so the contraction fails or gives another tensor"),
 dict(id="C01-batch-outer", prop="C01", edits=[("tensornetwork/ncon_interface.py",
"        elif (batch_labels[i] < 0) and (batch_cnts[i] < 2):",
"        elif (batch_labels[i] < 0) and (batch_cnts[i] <= 2):")],
  demo=PRE + """
x, y, z = np.arange(6.).reshape(2,3), np.arange(6.).reshape(2,3)+1, np.arange(6.).reshape(2,3)-2
r = tn.ncon([x, y, z], [[-1, 1], [-1, 1], [-1, -2]], backend="numpy")
assert r.shape == (2, 3) and np.allclose(r, np.einsum('ab,ab,ac->ac', x, y, z))
""", needs="an open batch label occurring on three or more tensors",
  breaks="the batch label is dropped from bookkeeping one contraction too early"),
 dict(id="C02-bucket-order", prop="C02", edits=[("tensornetwork/contractors/opt_einsum_paths/utils.py",
"  size_dict = {edge: edge.dimension for edge in get_all_edges(nodes)}",
"  size_dict = {edge: edge.dimension for edge in get_all_edges(nodes)}\n  output_set = {edge for edge in output_set if edge.is_dangling()}")],
  demo="", needs="", breaks=""),
]
BUGS = [b for b in BUGS if b["demo"]]
