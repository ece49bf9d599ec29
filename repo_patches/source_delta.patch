From a6a1bf84fd49b96a586abf4c78fea5be15ed61d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 01/79] fix: copy trace edges of a CopyNode on both of their
 axes

CopyNode.copy used the first visited axis together with axis2, so a trace edge
whose axis1 is larger than its axis2 made the copy raise.
---
 tensornetwork/network_components.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index d8125e8..f9655a4 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -812,11 +812,11 @@ class CopyNode(AbstractNode):
       visited_edges.add(edge)
       if edge.node1 == edge.node2:
         new_edge = Edge(new_node,
-                        i,
+                        edge.axis1,
                         name=edge.name,
                         node2=new_node,
                         axis2=edge.axis2)
-        new_node.add_edge(new_edge, i)
+        new_node.add_edge(new_edge, edge.axis1)
         new_node.add_edge(new_edge, edge.axis2)
       else:
         new_node.add_edge(Edge(new_node, i, name=edge.name), i)
-- 
2.43.0


From 16fb71734d8bf5f28c20699c8fd07b0a8cbd4dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 02/79] fix: map trace edges to the copied edge in copy()

copy() put a new Edge that is attached to no node into edge_dict for every trace
edge, so operations on the mapped edge corrupted the copied network.
---
 tensornetwork/network_operations.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 9817511..a281111 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -53,9 +53,13 @@ def copy(nodes: Iterable[AbstractNode],
   for node in nodes:
     node_dict[node] = node.copy(conjugate)
   edge_dict = {}
-  for edge in get_all_edges(nodes):
+  for edge in get_all_edges(node_dict):
     node1 = edge.node1
     axis1 = edge.node1.get_axis_number(edge.axis1)
+    # trace edges have been copied together with their node
+    if edge.is_trace():
+      edge_dict[edge] = node_dict[node1].edges[axis1]
+      continue
     # edge dangling or node2 does not need to be copied
     if edge.is_dangling() or edge.node2 not in node_dict:
       new_edge = Edge(node_dict[node1], axis1, edge.name)
@@ -74,9 +78,8 @@ def copy(nodes: Iterable[AbstractNode],
 
     # both nodes should be copied
     new_edge = Edge(node_dict[node1], axis1, edge.name, node_dict[node2], axis2)
-    if not edge.is_trace():
-      node_dict[node2].add_edge(new_edge, axis2)
-      node_dict[node1].add_edge(new_edge, axis1)
+    node_dict[node2].add_edge(new_edge, axis2)
+    node_dict[node1].add_edge(new_edge, axis1)
 
     edge_dict[edge] = new_edge
 
-- 
2.43.0


From b7337c699e9d8f9047e34b7712a7df70e24969b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 03/79] fix: slice_edge with a negative start index

A slice reaching the end of the range (start_index == -length) gave an empty
edge, and a start index below -dimension was accepted.
---
 tensornetwork/network_components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index f9655a4..4dcfa9a 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1657,9 +1657,12 @@ def slice_edge(edge: Edge, start_index: int, length: int) -> Edge:
   """
   if length <= 0:
     raise ValueError("Length of slice must be positive.")
-  if ((start_index + length > edge.dimension) or (-length < start_index < 0)):
+  if ((start_index + length > edge.dimension) or
+      (-length < start_index < 0) or (start_index < -edge.dimension)):
     raise ValueError("Length {} slice beginning at {} is invalid for edge of "
                      "dimension {}".format(length, start_index, edge.dimension))
+  if start_index < 0:
+    start_index += edge.dimension
 
   backends = [node.backend for node in edge.get_nodes() if node is not None]
   if not all(b.name == backends[0].name for b in backends):
-- 
2.43.0


From cbc7f9bb698063dd238f88773315f435515b4208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 04/79] fix: keep one axis name per axis when flattening or
 splitting trace edges

The axis names kept the old length, so later lookups by name, reorderings and
copies of the node failed.
---
 tensornetwork/network_components.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 4dcfa9a..0abd283 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1342,6 +1342,7 @@ def _flatten_trace_edges(edges: List[Edge],
   """
   node = edges[0].node1  # We are in the trace case, so this is the only node.
   backend = node.backend
+  axis_names = node.axis_names
   # Flatten all of the edge's axes into a a single list.
   perm_back = [min(e.axis1, e.axis2) for e in edges]
   perm_back += [max(e.axis1, e.axis2) for e in edges]
@@ -1359,6 +1360,8 @@ def _flatten_trace_edges(edges: List[Edge],
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
   new_edge = connect(edge1, edge2, new_edge_name)
+  if len(node.shape) == len(node.edges):  # a CopyNode keeps its own shape
+    node.axis_names = axis_names[:len(node.edges)]
   # pylint: disable=expression-not-assigned
   [edge.disable() for edge in edges]  #disable edges!
   return new_edge
@@ -1510,6 +1513,7 @@ def _split_trace_edge(
   """
   node = edge.node1  # We are in the trace case, so this is the only node.
   backend = node.backend
+  axis_names = node.axis_names
   # Permute until edge axes to be split are at the back and reshape.
   perm_back = [min(edge.axis1, edge.axis2)]
   perm_back += [max(edge.axis1, edge.axis2)]
@@ -1531,6 +1535,9 @@ def _split_trace_edge(
     new_edges.append(
         connect(edge1, edge2,
                 new_edge_names[idx] if new_edge_names is not None else None))
+  node.axis_names = axis_names[:len(perm_front)] + [
+      str(n) for n in range(len(perm_front), len(node.edges))
+  ]
   # pylint: disable=expression-not-assigned
   edge.disable()  # disable old edge!
   return new_edges
-- 
2.43.0


From 61b8f1cb53fea417e2513649f0d94d056c430454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:20 +0000
Subject: [PATCH 05/79] fix: reject repeated edges in reorder_edges before
 changing the node

A repeated edge passed the set comparisons, after which the node's edges were
replaced and the axes rewritten before the transposition raised.
---
 tensornetwork/network_components.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 0abd283..0863a0d 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -234,6 +234,9 @@ class AbstractNode(ABC):
       if edge.node1 == edge.node2:
         raise ValueError("Edge reordering does not support trace edges. "
                          "Found trace edge: '{}'".format(edge))
+    if len(edge_order) != len(self.edges):
+      raise ValueError("Given edge order does not match expected edges. "
+                       "Repeated edges found: {}".format(edge_order))
 
     permutation = []
     for i, edge in enumerate(edge_order):
-- 
2.43.0


From fcc327ccede1ded36aa58fcf5591a90087bd6c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:21 +0000
Subject: [PATCH 06/79] fix: check the requested output before contract_between
 consumes its nodes

An incomplete or repeated output_edge_order, or a wrong number of axis_names,
raised only after the nodes had been contracted, leaving the caller with a
destroyed network. The same holds for outer_product_final_nodes.
---
 tensornetwork/network_components.py | 30 +++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 0863a0d..52cb51c 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2042,6 +2042,10 @@ def contract_between(
 
   backend = node1.backend
   shared_edges = get_shared_edges(node1, node2)
+  nodes = [node1] if node1 is node2 else [node1, node2]
+  if shared_edges or allow_outer_product:
+    _check_output([e for n in nodes for e in n.edges if e not in shared_edges],
+                  output_edge_order, axis_names)
   # Trace edges cannot be contracted using tensordot.
   if node1 is node2:
     flat_edge = flatten_edges_between(node1, node2)
@@ -2108,6 +2112,31 @@ def contract_between(
   return new_node
 
 
+def _check_output(remaining_edges: List[Edge],
+                  output_edge_order: Optional[Sequence[Edge]],
+                  axis_names: Optional[List[Text]] = None) -> None:
+  """Check a requested edge order and axis names of a new node against the
+  edges that will remain on it, before any node is consumed.
+
+  Raises:
+    ValueError: If `output_edge_order` is not a permutation of
+      `remaining_edges`, if it contains trace edges, or if there is not exactly
+      one name for every axis.
+  """
+  if output_edge_order:
+    if (len(output_edge_order) != len(remaining_edges) or
+        set(output_edge_order) != set(remaining_edges)):
+      raise ValueError("The given edge order {} does not consist of the "
+                       "remaining edges {}.".format(output_edge_order,
+                                                    remaining_edges))
+    if len(set(output_edge_order)) != len(output_edge_order):
+      raise ValueError("Edge reordering does not support trace edges.")
+  if axis_names and (len(axis_names) != len(remaining_edges) or
+                     len(set(axis_names)) != len(axis_names)):
+    raise ValueError("Expected {} distinct axis names, got {}.".format(
+        len(remaining_edges), axis_names))
+
+
 def outer_product_final_nodes(nodes: Iterable[AbstractNode],
                               edge_order: List[Edge]) -> AbstractNode:
   """Get the outer product of `nodes`
@@ -2131,6 +2160,7 @@ def outer_product_final_nodes(nodes: Iterable[AbstractNode],
   for node in nodes:
     if node.has_nondangling_edge():
       raise ValueError("Node '{}' has a non-dangling edge remaining.")
+  _check_output([edge for node in nodes for edge in node.edges], edge_order)
   final_node = nodes[0]
   for node in nodes[1:]:
     final_node = outer_product(final_node, node)
-- 
2.43.0


From 1de6719f08ac14d3564143c0ce22f500c7730b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:49 +0000
Subject: [PATCH 07/79] fix: do not repeat an axis name when splitting an edge

After a node's axes had been reordered its kept axis names could coincide with
the numbers given to the new axes; the name then referred to two axes and
copying the node raised.
---
 tensornetwork/network_components.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 52cb51c..7ef97b5 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1498,6 +1498,18 @@ def flatten_all_edges(nodes: Iterable[AbstractNode]) -> List[Edge]:
   return flattened_edges
 
 
+def _default_axis_names(axis_names: List[Text], num_new: int) -> List[Text]:
+  """Names for `num_new` axes following axes called `axis_names`: their axis
+  numbers, or the next free number if that name is already taken."""
+  names = []
+  number = len(axis_names)
+  while len(names) < num_new:
+    if str(number) not in axis_names:
+      names.append(str(number))
+    number += 1
+  return names
+
+
 def _split_trace_edge(
     edge: Edge,
     shape: Tuple[int, ...],
@@ -1538,9 +1550,9 @@ def _split_trace_edge(
     new_edges.append(
         connect(edge1, edge2,
                 new_edge_names[idx] if new_edge_names is not None else None))
-  node.axis_names = axis_names[:len(perm_front)] + [
-      str(n) for n in range(len(perm_front), len(node.edges))
-  ]
+  front_names = axis_names[:len(perm_front)]
+  node.axis_names = front_names + _default_axis_names(front_names,
+                                                      2 * len(shape))
   # pylint: disable=expression-not-assigned
   edge.disable()  # disable old edge!
   return new_edges
@@ -1621,7 +1633,7 @@ def split_edge(edge: Edge,
         new_axis_names.extend(new_edge_names)
       else:
         new_axis_names.extend(
-            [str(n) for n in range(len(unaffected_shape), len(node.edges))])
+            _default_axis_names(new_axis_names, len(shape)))
       node.axis_names = new_axis_names
     else:
       node.axis_names = [str(n) for n in range(len(node.edges))]
-- 
2.43.0


From ea88a3a929cf1f9ca3b0414744c58a0a99b493b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:03 +0000
Subject: [PATCH 08/79] fix: sum labels occurring once on several tensors in
 ncon

The positions of all such labels were looked up on every tensor carrying one of
them, so ncon([a, b], [[1, 3], [2, 3]]) raised.
---
 tensornetwork/ncon_interface.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ab70948..ccbf8f5 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -414,7 +414,9 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
 
   for loc in locs:
     labels = network_structure[loc]
-    contractable_inds = [labels.index(l) for l in contractable_labels]
+    contractable_inds = [
+        labels.index(l) for l in contractable_labels if l in labels
+    ]
     network_structure[loc] = [l for l in labels if l not in contractable_labels]
     tensors[loc] = backend_obj.sum(tensors[loc], tuple(contractable_inds))
 
-- 
2.43.0


From 7a3ed60cda2eaf0df1c6185f26e9d5ef2b949a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 09/79] fix: check the dimensions of open batch labels in ncon

An open label shared by tensors of different dimension was not rejected, and was
broadcast silently if the last of them had dimension one.
---
 tensornetwork/ncon_interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index ccbf8f5..4da13ce 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -223,7 +223,7 @@ def _check_network(network_structure: Sequence[Sequence[Union[int, str]]],
 
   # check if contracted dimensions are matching
   mismatched_labels = []
-  for l in cont_labels:
+  for l in cont_labels + out_labels:
     dims = {
         tensor_dimensions[m][n]
         for m, labels in enumerate(network_structure)
-- 
2.43.0


From 7bc5104113e3cdd0909bb50c45a0c2a1c97fd402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:18 +0000
Subject: [PATCH 10/79] fix: contract networks of which only batch labels are
 left in ncon

ncon([a, b, c], [[1], [1], [1]]) and similar valid networks raised because a
closed batch label was only contracted together with some other label.
---
 tensornetwork/ncon_interface.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 4da13ce..4e6bc65 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -437,14 +437,20 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
       # if its still a batch index then do it later
       con_order.append(con_order.pop(0))
       skip_counter += 1
-      # avoid being stuck in an infinite loop
-      if skip_counter > len(con_order):
+      if skip_counter <= len(con_order):
+        continue
+      # only batch labels are left: contract the first of them pairwise, unless
+      # `con_order` is not a valid order, to avoid being stuck in an infinite
+      # loop
+      if any(l > 0 and l not in con_order
+             for labels in network_structure for l in labels):
         raise ValueError(f"ncon seems stuck in an infinite loop. \n"
                          f"Please check if `con_order` = {init_con_order} is "
                          f"a valid contraction order for \n"
                          f"`network_structure` = {init_network_structure}")
-      continue
+      cont_ind = con_order[0]
 
+    skip_counter = 0
     # find locations of `cont_ind` in `network_structure`
     locs = [
         n for n, labels in enumerate(network_structure) if cont_ind in labels
-- 
2.43.0


From fa927a67d8fe5128af836dfe70dd9cf7dc80a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:56 +0000
Subject: [PATCH 11/79] fix: take the diagonal of repeated batch labels in ncon

---
 tensornetwork/ncon_interface.py | 46 +++++++++++++++++++++++++++++++++
 1 file changed, 46 insertions(+)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 4e6bc65..31de3a3 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -12,6 +12,7 @@
 # limitations under the License.
 """NCON interface to TensorNetwork."""
 
+import string
 import warnings
 import numpy as np
 from typing import Any, Sequence, List, Optional, Union, Text, Tuple, Dict, Set
@@ -277,6 +278,43 @@ def _partial_trace(
   return tensor, labels, []
 
 
+def _batch_diagonal(
+    tensor: Tensor, labels: List, label_counts: Dict,
+    backend_obj: AbstractBackend) -> Tuple[Tensor, List]:
+  """
+  Replace the axes of `tensor` carrying the same batch label by a single
+  axis running along their diagonal.
+  Labels which appear exactly twice in the whole network, both times on
+  `tensor`, are traced (see `_partial_trace`) and left alone.
+  Args:
+    tensor: A tensor.
+    labels: The ncon-style labels of `tensor`.
+    label_counts: The number of occurences of each label in the network.
+    backend_obj: A backend object.
+  Returns:
+    Tensor: The tensor with distinct batch labels.
+    List: Its labels.
+  """
+  repeated = [
+      l for l in set(labels)
+      if labels.count(l) > 1 and (l < 0 or label_counts[l] > 2)
+  ]
+  if len(repeated) == 0:
+    return tensor, labels
+  # traced labels keep one symbol per axis
+  symbols = [
+      string.ascii_letters[labels.index(l) if l in repeated else n]
+      for n, l in enumerate(labels)
+  ]
+  kept = [
+      n for n, l in enumerate(labels)
+      if l not in repeated or labels.index(l) == n
+  ]
+  expression = "".join(symbols) + "->" + "".join([symbols[n] for n in kept])
+  result = backend_obj.einsum(expression, tensor)
+  return result, [labels[n] for n in kept]
+
+
 def _batch_cont(
     t1: Tensor, t2: Tensor, tensors: List[Tensor],
     network_structure: List[List], con_order: List, common_batch_labels: Set,
@@ -391,6 +429,14 @@ def _jittable_ncon(tensors: List[Tensor], flat_labels: Tuple[int],
   init_con_order = [c for c in con_order]
   init_network_structure = [c for c in network_structure]
 
+  # reduce batch labels appearing repeatedly on a tensor to its diagonal
+  label_counts = {l: flat_labels.count(l) for l in flat_labels}
+  for n, tensor in enumerate(tensors):
+    tensors[n], network_structure[n] = _batch_diagonal(tensor,
+                                                       network_structure[n],
+                                                       label_counts,
+                                                       backend_obj)
+
   # partial trace
   for n, tensor in enumerate(tensors):
     tensors[n], network_structure[n], contracted_labels = _partial_trace(
-- 
2.43.0


From 79aa395fc83f9f9e3349a49d59fea9d621200590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:53 +0000
Subject: [PATCH 12/79] fix: treat a single node like any other network in
 auto()

---
 .../opt_einsum_paths/path_contractors.py      | 22 -------------------
 1 file changed, 22 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 764f2e8..1e5f9a0 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -217,30 +217,8 @@ def auto(nodes: Iterable[AbstractNode],
   """
 
   n = len(list(nodes))  #pytype thing
-  _nodes = nodes
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
-  if n == 1:
-    if not ignore_edge_order:
-      if output_edge_order is None:
-        output_edge_order = list(
-            (get_all_edges(_nodes) - get_all_nondangling(_nodes)))
-        if len(output_edge_order) > 1:
-          raise ValueError(
-              "The final node after contraction has more than "
-              "one dangling edge. In this case `output_edge_order` "
-              "has to be provided.")
-
-    edges = get_all_nondangling(_nodes)
-    if edges:
-      final_node = contract_parallel(edges.pop())
-    else:
-      final_node = list(_nodes)[0]
-    final_node.reorder_edges(output_edge_order)
-    if not ignore_edge_order:
-      final_node.reorder_edges(output_edge_order)
-    return final_node
-
   if n < 5:
     return optimal(nodes, output_edge_order, memory_limit, ignore_edge_order)
   if n < 7:
-- 
2.43.0


From b9aa5125e6b69e301b98fedeccdf24b91dae7e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:25 +0000
Subject: [PATCH 13/79] fix: check the output order first and keep trace-free
 nodes in contract_path

---
 .../opt_einsum_paths/path_contractors.py      | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index 1e5f9a0..e5c1a5d 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -21,8 +21,7 @@ from tensornetwork.network_operations import (check_connected, get_all_edges,
                                               contract_trace_edges,
                                               redirect_edge)
 
-from tensornetwork.network_components import (get_all_nondangling,
-                                              contract_parallel,
+from tensornetwork.network_components import (contract_parallel,
                                               contract_between)
 from tensornetwork.network_components import Edge, AbstractNode
 from tensornetwork.contractors.opt_einsum_paths import utils
@@ -66,7 +65,8 @@ def base(nodes: Iterable[AbstractNode],
                          "one remaining edge. In this case `output_edge_order` "
                          "has to be provided.")
 
-    if set(output_edge_order) != get_subgraph_dangling(nodes):
+    if (set(output_edge_order) != get_subgraph_dangling(nodes) or
+        len(set(output_edge_order)) != len(output_edge_order)):
       raise ValueError("output edges are not equal to the remaining "
                        "non-contracted edges of the final node.")
 
@@ -343,11 +343,14 @@ def contract_path(path: Tuple[List[Tuple[int,
   Returns:
     Final node after full contraction.
   """
-  edges = get_all_edges(nodes)
-  for edge in edges:
-    if not edge.is_disabled:  #if its disabled we already contracted it
-      if edge.is_trace():
-        contract_parallel(edge)
+  nodes = list(nodes)
+  if (set(output_edge_order) != get_subgraph_dangling(nodes) or
+      len(set(output_edge_order)) != len(output_edge_order)):
+    raise ValueError("output edges are not equal to the remaining "
+                     "non-contracted edges of the final node.")
+  # do not modify the passed collection, and keep track of the nodes
+  # resulting from contracting trace edges
+  nodes = [contract_trace_edges(node) for node in nodes]
 
   if len(nodes) == 1:
     newnode = nodes[0].copy()
-- 
2.43.0


From f96cd5807f6afa1169d04ff4913bbc81935d2613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:54 +0000
Subject: [PATCH 14/79] fix: do not use the removed np.float in ncon_cost_check

---
 tensornetwork/contractors/custom_path_solvers/nconinterface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/nconinterface.py b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
index 1ddd52d..f63975c 100644
--- a/tensornetwork/contractors/custom_path_solvers/nconinterface.py
+++ b/tensornetwork/contractors/custom_path_solvers/nconinterface.py
@@ -140,7 +140,7 @@ def ncon_cost_check(tensors: List[np.ndarray],
     float: the cost of the network contraction, given as log10(total_FLOPS).
   """
 
-  total_cost = np.float('-inf')
+  total_cost = float('-inf')
   N = len(tensors)
   tensor_dims = [np.array(np.log10(ele.shape)) for ele in tensors]
   connect_list = [np.array(ele) for ele in labels]
-- 
2.43.0


From 0ccfb9a3480424606cbcc2d2d12263effa5d8678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 15/79] fix: never contract a tensor with itself in the
 contraction order solvers

---
 .../contractors/custom_path_solvers/pathsolvers.py          | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
index 9a96bdc..7a0b0b0 100644
--- a/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
+++ b/tensornetwork/contractors/custom_path_solvers/pathsolvers.py
@@ -117,7 +117,7 @@ def greedy_cost_solve(log_adj_in: np.ndarray):
     # penalize trivial contractions and self-contractions
     triv_conts = (log_adj < tol)
     trimmed_costs = single_cost + np.max(single_cost.flatten()) * triv_conts
-    trimmed_costs = trimmed_costs + np.max(trimmed_costs.flatten()) * np.eye(N)
+    np.fill_diagonal(trimmed_costs, np.inf)
 
     # find best contraction
     tensors_to_contract = np.divmod(np.argmin(trimmed_costs), N)
@@ -160,6 +160,10 @@ def full_solve_complete(log_adj: np.ndarray,
     bool: specifies if contraction order is guaranteed optimal.
   """
   tol = 1e-6  # tolerance for float comparison
+  if log_adj.shape[0] == 1:
+    # a single tensor: there is nothing to contract
+    return np.zeros([2, 0], dtype=int), float('-inf'), True
+
   # start by trying both greedy algorithms
   order0, cost0 = greedy_size_solve(log_adj)
   order1, cost1 = greedy_cost_solve(log_adj)
-- 
2.43.0


From 45eb3ead1d173e52bf6cbaab011025e4bf9348e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 16/79] fix: qr and rq with non_negative_diagonal for a
 vanishing diagonal entry

---
 tensornetwork/backends/numpy/decompositions.py      | 2 ++
 tensornetwork/backends/tensorflow/decompositions.py | 8 ++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/numpy/decompositions.py b/tensornetwork/backends/numpy/decompositions.py
index 29feb63..3887766 100644
--- a/tensornetwork/backends/numpy/decompositions.py
+++ b/tensornetwork/backends/numpy/decompositions.py
@@ -90,6 +90,7 @@ def qr(
   q, r = np.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    phases = phases + (phases == 0)  # a vanishing diagonal entry has no phase
     q = q * phases
     r = phases.conj()[:, None] * r
   center_dim = q.shape[1]
@@ -114,6 +115,7 @@ def rq(
   q, r = np.linalg.qr(np.conj(np.transpose(tensor)))
   if non_negative_diagonal:
     phases = np.sign(np.diagonal(r))
+    phases = phases + (phases == 0)  # a vanishing diagonal entry has no phase
     q = q * phases
     r = phases.conj()[:, None] * r
   r, q = np.conj(np.transpose(r)), np.conj(
diff --git a/tensornetwork/backends/tensorflow/decompositions.py b/tensornetwork/backends/tensorflow/decompositions.py
index dcc5bba..e7fdd93 100644
--- a/tensornetwork/backends/tensorflow/decompositions.py
+++ b/tensornetwork/backends/tensorflow/decompositions.py
@@ -168,8 +168,10 @@ def qr(
   q, r = tf.linalg.qr(tensor)
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a vanishing diagonal entry has no phase
+    phases = tf.where(phases == 0, tf.ones_like(phases), phases)
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   center_dim = tf.shape(q)[1]
   q = tf.reshape(q, tf.concat([left_dims, [center_dim]], axis=-1))
   r = tf.reshape(r, tf.concat([[center_dim], right_dims], axis=-1))
@@ -218,8 +220,10 @@ def rq(
   q, r = tf.linalg.qr(tf.math.conj(tf.transpose(tensor)))
   if non_negative_diagonal:
     phases = tf.math.sign(tf.linalg.diag_part(r))
+    # a vanishing diagonal entry has no phase
+    phases = tf.where(phases == 0, tf.ones_like(phases), phases)
     q = q * phases
-    r = phases[:, None] * r
+    r = tf.math.conj(phases)[:, None] * r
   r, q = tf.math.conj(tf.transpose(r)), tf.math.conj(
       tf.transpose(q))  #M=r*q at this point
   center_dim = tf.shape(r)[1]
-- 
2.43.0


From b496d3616a9122493538169cdb657f7d39e1eb61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 17/79] fix: negative axes and shape check in full numpy
 tensordot

---
 tensornetwork/backends/numpy/numpy_backend.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 2d37539..9017d64 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -39,15 +39,21 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       if (len(axes[0]) == a.ndim) and (len(axes[1]) == b.ndim):
         if not len(axes[0]) == len(axes[1]):
           raise ValueError("shape-mismatch for sum")
-        u, pos1, _ = np.intersect1d(axes[0],
-                                    axes[1],
+        axes_1 = np.array([ax + a.ndim if ax < 0 else ax for ax in axes[0]],
+                          dtype=np.int64)
+        axes_2 = np.array([ax + b.ndim if ax < 0 else ax for ax in axes[1]],
+                          dtype=np.int64)
+        if any(a.shape[i] != b.shape[j] for i, j in zip(axes_1, axes_2)):
+          raise ValueError("shape-mismatch for sum")
+        u, pos1, _ = np.intersect1d(axes_1,
+                                    axes_2,
                                     return_indices=True,
                                     assume_unique=True)
         labels = int_to_string[0:len(u)]
         labels_1 = labels[pos1]
-        labels_2 = np.array([''] * len(labels_1))
+        labels_2 = np.array([''] * len(labels_1), dtype=int_to_string.dtype)
 
-        labels_2[np.array(axes[1])] = labels
+        labels_2[axes_2] = labels
         einsum_label = ','.join([''.join(labels_1), ''.join(labels_2)])
         return np.array(np.einsum(einsum_label, a, b, optimize=True))
       return np.tensordot(a, b, axes)
-- 
2.43.0


From cbbb8b7fbb9245510771eba4a305f6ddd9f89dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 18/79] fix: reject out-of-range slices in the numpy and jax
 backends

---
 tensornetwork/backends/jax/jax_backend.py     | 8 ++++++++
 tensornetwork/backends/numpy/numpy_backend.py | 5 +++++
 2 files changed, 13 insertions(+)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 447cb56..0386aaf 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -68,6 +68,14 @@ class JaxBackend(abstract_backend.AbstractBackend):
     if len(start_indices) != len(slice_sizes):
       raise ValueError("Lengths of start_indices and slice_sizes must be"
                        "identical.")
+    # `dynamic_slice` silently clamps out-of-range start indices
+    if any(
+        isinstance(start, (int, np.integer)) and
+        (start < 0 or start + size > dim)
+        for start, size, dim in zip(start_indices, slice_sizes, tensor.shape)):
+      raise ValueError("Slice with start_indices {} and slice_sizes {} is out "
+                       "of range for a tensor of shape {}.".format(
+                           start_indices, slice_sizes, tensor.shape))
     return libjax.lax.dynamic_slice(tensor, start_indices, slice_sizes)
 
   def svd(
diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 9017d64..0afa80b 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -72,6 +72,11 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     if len(start_indices) != len(slice_sizes):
       raise ValueError("Lengths of start_indices and slice_sizes must be"
                        "identical.")
+    if any(start < 0 or start + size > dim for start, size, dim in zip(
+        start_indices, slice_sizes, tensor.shape)):
+      raise ValueError("Slice with start_indices {} and slice_sizes {} is out "
+                       "of range for a tensor of shape {}.".format(
+                           start_indices, slice_sizes, tensor.shape))
     obj = tuple(
         slice(start, start + size)
         for start, size in zip(start_indices, slice_sizes))
-- 
2.43.0


From c33cb8e102a8e14b02eb58c073578eba72e43ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 19/79] fix: numpy backend sum over all axes

---
 tensornetwork/backends/numpy/numpy_backend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 0afa80b..02f2cab 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -615,7 +615,8 @@ class NumPyBackend(abstract_backend.AbstractBackend):
           tensor: Tensor,
           axis: Optional[Sequence[int]] = None,
           keepdims: bool = False) -> Tensor:
-    return np.sum(tensor, axis=tuple(axis), keepdims=keepdims)
+    axis = tuple(axis) if axis is not None else None
+    return np.sum(tensor, axis=axis, keepdims=keepdims)
 
   def matmul(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
     if (tensor1.ndim <= 1) or (tensor2.ndim <= 1):
-- 
2.43.0


From 41305107bcd2b7f21e45f9071877dcfef0206fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 20/79] fix: tensorflow diagflat flattens its argument

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index d0d2463..446aa89 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -312,7 +312,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       tensor: A new tensor with all zeros save the specified diagonal.
     """
     #pylint: disable=unexpected-keyword-arg
-    return tf.linalg.diag(tensor, k=k)
+    return tf.linalg.diag(tf.reshape(tensor, [-1]), k=k)
 
   def trace(self, tensor: Tensor, offset: int = 0, axis1: int = -2,
             axis2: int = -1) -> Tensor:
-- 
2.43.0


From 834cf53f80305f5cccd51915959be55485a1557e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 21/79] fix: tensorflow item for one-element tensors of any
 rank

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 446aa89..58b00e4 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -394,7 +394,7 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
                          f"got {tensor.shape}")
 
     if numel == 1:
-      return tensor[0]
+      return tf.reshape(tensor, [])
     return tensor
 
   def power(self, a: Tensor, b: Union[Tensor, float]) -> Tensor:
-- 
2.43.0


From 31a2cbf9af01d159d77397673aa9eb1346706333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 22/79] fix: tensorflow transpose with negative axes

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 58b00e4..045579a 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -51,6 +51,13 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
     return tf.reshape(tensor, shape)
 
   def transpose(self, tensor, perm=None) -> Tensor:
+    if isinstance(perm, (list, tuple)):
+      # `tf.transpose` aborts on some negative axes
+      ndim = len(tensor.shape)
+      if any(p < -ndim or p >= ndim for p in perm):
+        raise ValueError("invalid permutation {} for a tensor of rank {}".format(
+            perm, ndim))
+      perm = [p + ndim if p < 0 else p for p in perm]
     return tf.transpose(tensor, perm)
 
   def slice(self, tensor: Tensor, start_indices: Tuple[int, ...],
-- 
2.43.0


From c535d6abda39e4ffbabf6b1891cfb8a88f700f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 23/79] fix: tensorflow trace rejects equal and out-of-range
 axes

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 045579a..614346a 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -362,6 +362,9 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
       axis1 = N+axis1
     if axis2 < 0:
       axis2 = N+axis2
+    if not (0 <= axis1 < N and 0 <= axis2 < N) or axis1 == axis2:
+      raise ValueError(f"axis1 = {axis1} and axis2 = {axis2} have to be two"
+                       f" different axes of a tensor with {N} axes")
 
     inds = list(map(chr, range(98, 98+N)))
     indsout = [i for n, i in enumerate(inds) if n not in (axis1, axis2)]
-- 
2.43.0


From a7ef725c70ae183b9bed27f85a799eabe099566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 24/79] fix: tensorflow random_uniform honours its seed

---
 tensornetwork/backends/tensorflow/tensorflow_backend.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tensornetwork/backends/tensorflow/tensorflow_backend.py b/tensornetwork/backends/tensorflow/tensorflow_backend.py
index 614346a..d3697f5 100644
--- a/tensornetwork/backends/tensorflow/tensorflow_backend.py
+++ b/tensornetwork/backends/tensorflow/tensorflow_backend.py
@@ -181,7 +181,6 @@ class TensorFlowBackend(abstract_backend.AbstractBackend):
               minval=boundaries[0],
               maxval=boundaries[1],
               dtype=dtype.real_dtype))
-    tf.random.set_seed(10)
     #pylint: disable=unexpected-keyword-arg
     a = tf.random.uniform(
         shape=shape, minval=boundaries[0], maxval=boundaries[1], dtype=dtype)
-- 
2.43.0


From a526db3c6881c75aa10cd9223687e1e2660ad8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 25/79] fix: jax backend index_update with current jax

---
 tensornetwork/backends/jax/jax_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index 0386aaf..aba8819 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -733,7 +733,7 @@ class JaxBackend(abstract_backend.AbstractBackend):
 
   def index_update(self, tensor: Tensor, mask: Tensor,
                    assignee: Tensor) -> Tensor:
-    return libjax.ops.index_update(tensor, mask, assignee)
+    return jnp.asarray(tensor).at[mask].set(assignee)
 
   def inv(self, matrix: Tensor) -> Tensor:
     if len(matrix.shape) > 2:
-- 
2.43.0


From c9266d9b540f1d4dcfc15d13fe894f1ac03868b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 26/79] fix: ones_like of a plain array

---
 tensornetwork/linalg/initialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/initialization.py b/tensornetwork/linalg/initialization.py
index a0e4340..820f9e0 100644
--- a/tensornetwork/linalg/initialization.py
+++ b/tensornetwork/linalg/initialization.py
@@ -128,7 +128,7 @@ def ones_like(tensor: Union[Any],
       error = "Input to zeros_like has invalid type causing " \
               "error massage: \n" + str(e)
       raise TypeError(error) from e
-    the_tensor = initialize_tensor("ones", tensor.get_shape().as_list(),
+    the_tensor = initialize_tensor("ones", tensor.shape,
                                    backend=backend, dtype=dtype)
   return the_tensor
 
-- 
2.43.0


From a06d3fcbaa4ba57b32d13bb0008a955974712330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 27/79] fix: kron checks the backends of both tensors

---
 tensornetwork/linalg/operations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/linalg/operations.py b/tensornetwork/linalg/operations.py
index d8c484f..139323f 100644
--- a/tensornetwork/linalg/operations.py
+++ b/tensornetwork/linalg/operations.py
@@ -322,7 +322,7 @@ def kron(tensorA: Tensor, tensorB: Tensor) -> Tensor:
     ValueError: - If backends, are not matching.
                 - If ndims of the input tensors are not even.
   """
-  tensors = [tensorA, tensorA]
+  tensors = [tensorA, tensorB]
   all_backends_same, errstr = _check_backends(tensors, "kron")
   if not all_backends_same:
     raise ValueError(errstr)
-- 
2.43.0


From 28125244b9c65dfe83a26562829a0085335efc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:32 +0000
Subject: [PATCH 28/79] fix: size of a scalar Tensor is an integer

---
 tensornetwork/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/tensor.py b/tensornetwork/tensor.py
index 7c39448..7a0210d 100644
--- a/tensornetwork/tensor.py
+++ b/tensornetwork/tensor.py
@@ -32,7 +32,7 @@ class Tensor():
     self.backend = backend_obj
     self.array = self.backend.convert_to_tensor(array)
     self.shape = array.shape
-    self.size = np.prod(self.shape)
+    self.size = np.prod(self.shape, dtype=np.int64)
     self.ndim = len(self.shape)
 
   @property
-- 
2.43.0


From 25eff06d8463a059f5aae9a42faef20f7d12356b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 29/79] fix: unique labels of a charge with a single entry

---
 tensornetwork/block_sparse/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/utils.py b/tensornetwork/block_sparse/utils.py
index b1caad7..f100d06 100644
--- a/tensornetwork/block_sparse/utils.py
+++ b/tensornetwork/block_sparse/utils.py
@@ -205,7 +205,7 @@ def collapse(array: np.ndarray) -> np.ndarray:
         np.concatenate(
             [array, np.zeros((array.shape[0], width), dtype=array.dtype)],
             axis=1).view(newdtype))
-  return np.squeeze(tmparray)
+  return np.ravel(tmparray)
 
 
 def expand(array: np.ndarray, original_dtype: Type[np.number],
@@ -226,7 +226,7 @@ def expand(array: np.ndarray, original_dtype: Type[np.number],
   """
   if original_ndim <= 1:
     #nothing to expand
-    return np.squeeze(array)
+    return np.ravel(array)
   if array.ndim == 1:
     #the array has been collapsed
     #now we uncollapse it
-- 
2.43.0


From a4a274fbd190a02e5c28db01b636b810774a65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 30/79] fix: compare charges by value, not by their stored
 representation

---
 tensornetwork/block_sparse/index.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/block_sparse/index.py b/tensornetwork/block_sparse/index.py
index 6d0aa68..a652741 100644
--- a/tensornetwork/block_sparse/index.py
+++ b/tensornetwork/block_sparse/index.py
@@ -12,7 +12,8 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import numpy as np
-from tensornetwork.block_sparse.charge import BaseCharge, fuse_charges
+from tensornetwork.block_sparse.charge import (BaseCharge, fuse_charges,
+                                               charge_equal)
 import copy
 from typing import List, Union
 
@@ -55,11 +56,7 @@ class Index:
     if len(other._charges) != len(self._charges):
       return False
     for n in range(len(self._charges)):
-      if not np.array_equal(self._charges[n].unique_charges,
-                            other._charges[n].unique_charges):
-        return False
-      if not np.array_equal(self._charges[n].charge_labels,
-                            other._charges[n].charge_labels):
+      if not charge_equal(self._charges[n], other._charges[n]):
         return False
     if not np.all(np.asarray(self.flow) == np.asarray(other.flow)):
       return False
-- 
2.43.0


From a754597f0d699b73facdd6f69b54821079ee1856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:16 +0000
Subject: [PATCH 31/79] fix: charge_equal compares charges by value

---
 tensornetwork/block_sparse/charge.py | 26 +++-----------------------
 1 file changed, 3 insertions(+), 23 deletions(-)

diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 237b30d..7f9bb7b 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -646,28 +646,8 @@ def charge_equal(c1: BaseCharge, c2: BaseCharge) -> bool:
   Compare two BaseCharges `c1` and `c2`.
   Return `True` if they are equal, else `False`.
   """
-  res = True
   if c1.dim != c2.dim:
     return False
-
-  res = True      
-  if c1._unique_charges is not None and c2._unique_charges is not None:
-    if c1._unique_charges.shape != c2._unique_charges.shape:
-      res = False
-    elif not np.all(c1._unique_charges == c2._unique_charges):
-      res = False
-    elif not np.all(c1.charge_labels == c2.charge_labels):
-      res = False
-    return res
-
-  if c1._charges is not None and c2._charges is not None:
-    if c1._charges.shape != c2._charges.shape:
-      res = False
-    elif not np.all(c1._charges == c2._charges):
-      res = False
-    return res
-  if c1.charges.shape != c2.charges.shape:
-    res = False
-  elif not np.all(c1.charges == c2.charges):
-    res = False
-  return res
+  # the same charges can be stored in terms of differently ordered
+  # unique charges, so the charges themselves have to be compared
+  return np.array_equal(c1.charges, c2.charges)
-- 
2.43.0


From d4cbf18e0cdb60a4e369e8422e2e6fba6a5bc135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:16 +0000
Subject: [PATCH 32/79] fix: keep the charge dtype in derived charges

---
 .../block_sparse/blocksparse_utils.py         | 30 ++++++++----
 tensornetwork/block_sparse/charge.py          | 47 ++++++++++++++-----
 2 files changed, 55 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index 9285632..ff95968 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -109,7 +109,8 @@ def compute_sparse_lookup(
   obj.__init__(
       charges=unique_charges,
       charge_labels=None,
-      charge_types=charges[0].charge_types)
+      charge_types=charges[0].charge_types,
+      charge_dtype=unique_charges.dtype)
 
   tmp[label_to_unique] = label_to_unique
   lookup = tmp[inverse]
@@ -267,7 +268,8 @@ def reduce_charges(charges: List[BaseCharge],
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.empty(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
     if return_locations:
       return obj, np.empty(0, dtype=SIZE_T)
     return obj
@@ -296,7 +298,8 @@ def reduce_charges(charges: List[BaseCharge],
   reduced_labels = np.concatenate(
       [reduced_rows[n] for n in left_ind.charge_labels])
   obj = charges[0].__new__(type(charges[0]))
-  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types)
+  obj.__init__(reduced_qnums, reduced_labels, charges[0].charge_types,
+               reduced_qnums.dtype)
 
   if return_locations:
     row_locs = [0] * left_ind.num_unique
@@ -368,7 +371,8 @@ def _find_diagonal_sparse_blocks(
 
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums, np.arange(1, dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 block_qnums.dtype)
 
     return block_maps, obj, block_dims
 
@@ -388,7 +392,8 @@ def _find_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.zeros((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -420,7 +425,8 @@ def _find_diagonal_sparse_blocks(
   obj = charges[0].__new__(type(charges[0]))
   obj.__init__(block_qnums,
                np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-               charges[0].charge_types)
+               charges[0].charge_types,
+               block_qnums.dtype)
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
     return cacher.cache[hash_val]
@@ -492,7 +498,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(
         np.empty((0, charges[0].num_symmetries), dtype=charges[0].dtype),
-        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types)
+        np.arange(0, dtype=charges[0].label_dtype), charges[0].charge_types,
+        charges[0].dtype)
 
     return [], obj, np.empty((2, 0), dtype=SIZE_T)
 
@@ -550,7 +557,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 block_qnums.dtype)
 
   elif tr_partition == len(charges):
     # special case: reshape into col vector
@@ -582,7 +590,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 block_qnums.dtype)
   else:
 
     unique_row_qnums, new_row_degen = compute_fused_charge_degeneracies(
@@ -626,7 +635,8 @@ def _find_transposed_diagonal_sparse_blocks(
     obj = charges[0].__new__(type(charges[0]))
     obj.__init__(block_qnums,
                  np.arange(block_qnums.shape[0], dtype=charges[0].label_dtype),
-                 charges[0].charge_types)
+                 charges[0].charge_types,
+                 block_qnums.dtype)
 
   if cacher.do_caching:
     cacher.cache[hash_val] = (block_maps, obj, block_dims)
diff --git a/tensornetwork/block_sparse/charge.py b/tensornetwork/block_sparse/charge.py
index 7f9bb7b..3b30c01 100644
--- a/tensornetwork/block_sparse/charge.py
+++ b/tensornetwork/block_sparse/charge.py
@@ -202,7 +202,10 @@ class BaseCharge:
         axis=0)
     obj = self.__new__(type(self))
     obj.__init__(
-        charges=charges, charge_labels=None, charge_types=self.charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   def __add__(self, other: "BaseCharge") -> "BaseCharge":
@@ -217,7 +220,10 @@ class BaseCharge:
     fused_charges = fuse_ndarray_charges(self.charges, other.charges,
                                          self.charge_types)
     obj = self.__new__(type(self))
-    obj.__init__(fused_charges, charge_types=self.charge_types)
+    obj.__init__(
+        fused_charges,
+        charge_types=self.charge_types,
+        charge_dtype=fused_charges.dtype)
     return obj
 
   def dual(self, take_dual: Optional[bool] = False) -> "BaseCharge":
@@ -241,7 +247,8 @@ class BaseCharge:
         obj.__init__(
             unique_dual_charges,
             charge_labels=self.charge_labels,
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         return obj
       dual_charges = np.stack([
           self.charge_types[n].dual_charges(self._charges[:, n])
@@ -251,7 +258,10 @@ class BaseCharge:
 
       obj = self.__new__(type(self))
       obj.__init__(
-          dual_charges, charge_labels=None, charge_types=self.charge_types)
+          dual_charges,
+          charge_labels=None,
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       return obj
 
     return self
@@ -264,7 +274,10 @@ class BaseCharge:
     charges = np.concatenate([self.charges, other.charges], axis=1)
     charge_types = self.charge_types + other.charge_types
     return BaseCharge(
-        charges=charges, charge_labels=None, charge_types=charge_types)
+        charges=charges,
+        charge_labels=None,
+        charge_types=charge_types,
+        charge_dtype=charges.dtype)
 
   def __mul__(self, number: bool) -> "BaseCharge":
     if not isinstance(number, (bool, np.bool_)):
@@ -313,12 +326,14 @@ class BaseCharge:
           charges=out[0],
           charge_labels=np.arange(out[0].shape[0], dtype=self.label_dtype),
           charge_types=self.charge_types,
+          charge_dtype=self.dtype,
       )
       return obj, out[1], out[2]
     obj.__init__(
         charges=out,
         charge_labels=np.arange(out.shape[0], dtype=self.label_dtype),
         charge_types=self.charge_types,
+        charge_dtype=self.dtype,
     )
     return obj
 
@@ -367,13 +382,15 @@ class BaseCharge:
             charges=unique_charges,
             charge_labels=np.arange(
                 unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp[0] = obj
       else:
         obj.__init__(
             charges=tmp,
             charge_labels=np.arange(tmp.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
         tmp = obj
       return tmp
 
@@ -383,7 +400,8 @@ class BaseCharge:
             charges=self._unique_charges,
             charge_labels=np.arange(
                 self._unique_charges.shape[0], dtype=self.label_dtype),
-            charge_types=self.charge_types)
+            charge_types=self.charge_types,
+            charge_dtype=self.dtype)
 
         out = [obj]
         if return_inverse:
@@ -406,7 +424,8 @@ class BaseCharge:
           charges=unique_charges,
           charge_labels=np.arange(
               unique_charges.shape[0], dtype=self.label_dtype),
-          charge_types=self.charge_types)
+          charge_types=self.charge_types,
+          charge_dtype=self.dtype)
       tmp[0] = obj
       return tmp
 
@@ -447,7 +466,8 @@ class BaseCharge:
     reduced_locs = reduced_ind_labels >= 0
     new_ind_labels = reduced_ind_labels[reduced_locs].astype(self.label_dtype)
     obj = self.__new__(type(self))
-    obj.__init__(reduced_charges, new_ind_labels, self.charge_types)
+    obj.__init__(reduced_charges, new_ind_labels, self.charge_types,
+                 self.dtype)
 
     if return_locations:
       return obj, strides * np.flatnonzero(reduced_locs).astype(np.uint32)
@@ -471,10 +491,13 @@ class BaseCharge:
       labels = self.charge_labels[n]
       unique_labels, new_labels = unique(labels, return_inverse=True)
       unique_charges = self.unique_charges[unique_labels, :]
-      obj.__init__(unique_charges, new_labels, self.charge_types)
+      obj.__init__(unique_charges, new_labels, self.charge_types, self.dtype)
       return obj
     obj.__init__(
-        self._charges[n, :], charge_labels=None, charge_types=self.charge_types)
+        self._charges[n, :],
+        charge_labels=None,
+        charge_types=self.charge_types,
+        charge_dtype=self.dtype)
     return obj
 
   @property
-- 
2.43.0


From 9fc8ecc8119287a7c9239a9c051bb4b4747fb32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 33/79] fix: trace of parallel edges next to symmetric axes of
 dimension 1

---
 tensornetwork/ncon_interface.py     | 24 +++++++++++++++++++-----
 tensornetwork/network_components.py | 20 ++++++++++++++++----
 2 files changed, 35 insertions(+), 9 deletions(-)

diff --git a/tensornetwork/ncon_interface.py b/tensornetwork/ncon_interface.py
index 31de3a3..053a8cb 100644
--- a/tensornetwork/ncon_interface.py
+++ b/tensornetwork/ncon_interface.py
@@ -266,13 +266,27 @@ def _partial_trace(
     shape = backend_obj.shape_tuple(tensor)
     contracted_dimension = np.prod(
         [shape[d] for d in contracted_indices[:num_cont]])
-    temp_shape = tuple([shape[pos] for pos in free_indices] +
-                       [contracted_dimension, contracted_dimension])
+    free_shape = [shape[pos] for pos in free_indices]
+    # Group the two sets of contracted axes one after the other, each while it
+    # is in the last position: a symmetric tensor could otherwise assign axes of
+    # dimension 1 to the wrong group.
+    num_free = len(free_indices)
+    tensor = backend_obj.transpose(tensor,
+                                   tuple(free_indices + contracted_indices))
+    tensor = backend_obj.reshape(
+        tensor,
+        tuple(free_shape +
+              [shape[d] for d in contracted_indices[:num_cont]] +
+              [contracted_dimension]))
+    tensor = backend_obj.transpose(
+        tensor,
+        tuple(
+            list(range(num_free)) + [num_free + num_cont] +
+            list(range(num_free, num_free + num_cont))))
     result = backend_obj.trace(
         backend_obj.reshape(
-            backend_obj.transpose(tensor,
-                                  tuple(free_indices + contracted_indices)),
-            temp_shape))
+            tensor,
+            tuple(free_shape + [contracted_dimension, contracted_dimension])))
     new_labels = [l for l in labels if l not in unique_trace_labels]
     return result, new_labels, unique_trace_labels
   return tensor, labels, []
diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 7ef97b5..ff9ce9c 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1355,10 +1355,22 @@ def _flatten_trace_edges(edges: List[Edge],
   new_dim = backend.shape_prod(
       [backend.shape_tensor(node.tensor)[e.axis1] for e in edges])
   node.reorder_axes(perm)
-  unaffected_shape = backend.shape_tensor(node.tensor)[:len(perm_front)]
-  new_shape = backend.shape_concat([unaffected_shape, [new_dim, new_dim]],
-                                   axis=-1)
-  node.tensor = backend.reshape(node.tensor, new_shape)
+  # Flatten the two groups of axes one after the other, each while it is in the
+  # last position: a symmetric tensor could otherwise assign axes of dimension 1
+  # to the wrong group.
+  num_front, num_edges = len(perm_front), len(edges)
+  front = list(range(num_front))
+  shape = backend.shape_tensor(node.tensor)
+  tensor = backend.reshape(
+      node.tensor,
+      backend.shape_concat([shape[:num_front + num_edges], [new_dim]], axis=-1))
+  tensor = backend.transpose(
+      tensor, front + [num_front + num_edges] +
+      list(range(num_front, num_front + num_edges)))
+  tensor = backend.reshape(
+      tensor,
+      backend.shape_concat([shape[:num_front], [new_dim, new_dim]], axis=-1))
+  node.tensor = backend.transpose(tensor, front + [num_front + 1, num_front])
   edge1 = Edge(node1=node, axis1=len(perm_front), name="TraceFront")
   edge2 = Edge(node1=node, axis1=len(perm_front) + 1, name="TraceBack")
   node.edges = node.edges[:len(perm_front)] + [edge1, edge2]
-- 
2.43.0


From f3153f80885e8708b446692f14f86e0080e9d133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 34/79] fix: diag of a fused or permuted ChargeArray

---
 tensornetwork/block_sparse/linalg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index da2bf6d..8fc4ce3 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -59,6 +59,7 @@ def diag(tensor: ChargeArray) -> Any:
       raise ValueError(
           "`diag` currently only implemented for `ChargeArray` with ndim=1, "
           "found `ndim={}`".format(tensor.ndim))
+    tensor = tensor.contiguous()  # storage order has to match the axis order
     flat_charges = tensor._charges + tensor._charges
     flat_flows = list(tensor._flows) + list(np.logical_not(tensor._flows))
     flat_order = list(tensor.flat_order) + list(
@@ -79,7 +80,7 @@ def diag(tensor: ChargeArray) -> Any:
         tensor._order[0],
         list(np.asarray(tensor._order[0]) + len(tensor._charges))
     ]
-    new_charges = [tensor._charges[0].copy(), tensor._charges[0].copy()]
+    new_charges = [c.copy() for c in tensor._charges + tensor._charges]
     return BlockSparseTensor(
         data,
         charges=new_charges,
@@ -87,6 +88,9 @@ def diag(tensor: ChargeArray) -> Any:
         order=order,
         check_consistency=False)
 
+  if tensor.ndim != 2:
+    raise ValueError("`diag` currently only implemented for matrices, "
+                     "found `ndim={}".format(tensor.ndim))
   flat_charges = tensor._charges
   flat_flows = tensor._flows
   flat_order = tensor.flat_order
-- 
2.43.0


From a1fd7b52ec12e4e4fde55173972e0fe7d5b4cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 35/79] fix: trace keeps fused legs together and accepts
 negative axes

---
 tensornetwork/block_sparse/linalg.py | 31 +++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/tensornetwork/block_sparse/linalg.py b/tensornetwork/block_sparse/linalg.py
index 8fc4ce3..2a7735e 100644
--- a/tensornetwork/block_sparse/linalg.py
+++ b/tensornetwork/block_sparse/linalg.py
@@ -613,6 +613,10 @@ def trace(tensor: BlockSparseTensor,
       axes = (tensor.ndim - 2, tensor.ndim - 1)
     if len(axes) != 2:
       raise ValueError(f"`len(axes)` has to be 2, found `axes = {axes}`")
+    if any(a < -tensor.ndim or a >= tensor.ndim for a in axes):
+      raise ValueError(f"trace axes {axes} are out of range for a tensor with "
+                       f"ndim={tensor.ndim}")
+    axes = [int(a) % tensor.ndim for a in axes]
     if not np.array_equal(tensor.flows[axes[0]],
                           np.logical_not(tensor.flows[axes[1]])):
       raise ValueError(
@@ -625,13 +629,9 @@ def trace(tensor: BlockSparseTensor,
     #flatten the shape of `tensor`
     out = tensor.reshape(
         flatten([[tensor._charges[n].dim for n in o] for o in tensor._order]))
-    _, _, labels0 = np.intersect1d(
-        tensor._order[axes[0]], flatten(out._order), return_indices=True)
-    _, _, labels1 = np.intersect1d(
-        tensor._order[axes[1]], flatten(out._order), return_indices=True)
-
-    a0 = list(labels0[np.argsort(tensor._order[axes[0]])])
-    a1 = list(labels1[np.argsort(tensor._order[axes[1]])])
+    starts = np.append(0, np.cumsum([len(o) for o in tensor._order]))
+    a0 = list(np.arange(starts[axes[0]], starts[axes[0] + 1]))
+    a1 = list(np.arange(starts[axes[1]], starts[axes[1] + 1]))
 
     while len(a0) > 0:
       i = a0.pop(0)
@@ -657,7 +657,22 @@ def trace(tensor: BlockSparseTensor,
       a1 = list(a1ar)
     if out.ndim == 0:
       return out.item()
-    return out  # pytype: disable=bad-return-type
+    # restore the grouping of the remaining legs
+    starts = np.append(
+        0,
+        np.cumsum([
+            len(o) for n, o in enumerate(tensor._order) if n not in axes
+        ]))
+    flat_order = out.flat_order
+    return BlockSparseTensor(
+        out.data,
+        charges=out._charges,
+        flows=out._flows,
+        order=[
+            list(flat_order[starts[n]:starts[n + 1]])
+            for n in range(len(starts) - 1)
+        ],
+        check_consistency=False)  # pytype: disable=bad-return-type
   raise ValueError("trace can only be taken for tensors with ndim > 1")
 
 
-- 
2.43.0


From dd82c682e80fa0b297635628f41b5258fab4c610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 36/79] fix: the symmetric backend returns traces as tensors
 and multiplies by scalar tensors

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8cedc6d..8163364 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -101,7 +101,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
   def convert_to_tensor(self, tensor: Tensor) -> Tensor:
     if numpy.isscalar(tensor):
       tensor = BlockSparseTensor(
-          data=tensor, charges=[], flows=[], order=[], check_consistency=False)
+          data=numpy.asarray(tensor),
+          charges=[],
+          flows=[],
+          order=[],
+          check_consistency=False)
 
     if not isinstance(tensor, ChargeArray):
       raise TypeError(
@@ -622,6 +626,9 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
     return tensor1 - tensor2
 
   def multiply(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
+    if (isinstance(tensor1, ChargeArray) and isinstance(tensor2, ChargeArray) and
+        (tensor1.ndim == 0 or tensor2.ndim == 0)):
+      return self.outer_product(tensor1, tensor2)
     return tensor1 * tensor2
 
   def divide(self, tensor1: Tensor, tensor2: Tensor) -> Tensor:
@@ -671,7 +678,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
       raise NotImplementedError(errstr)
     if axis1 == axis2:
       raise ValueError(f"axis1 = {axis1} cannot equal axis2 = {axis2}")
-    return self.bs.trace(tensor, (axis1, axis2))
+    return self.convert_to_tensor(self.bs.trace(tensor, (axis1, axis2)))
 
   def abs(self, tensor: Tensor) -> Tensor:
     return self.bs.abs(tensor)
-- 
2.43.0


From 75ffd69dfe09f09f1ad086c1304817186837a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 37/79] fix: reshape keeps symmetric legs of dimension 1 on
 their axis

---
 .../block_sparse/blocksparsetensor.py         | 60 ++++++++++++-------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 771aa1b..cacd41f 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -32,6 +32,32 @@ Tensor = Any
 
 
 
+def _find_partitions(new_shape: Sequence[int], flat_dims: np.ndarray,
+                     boundaries: Sequence[int]) -> Optional[List[int]]:
+  """
+  Group the elementary dimensions `flat_dims` into axes of sizes `new_shape`.
+  Args:
+    new_shape: The sizes of the axes.
+    flat_dims: The elementary dimensions.
+    boundaries: Positions in `flat_dims` where an axis should preferably end.
+  Returns:
+    list of int: The start and end positions of the axes, or `None` if
+      `flat_dims` could not be grouped.
+  """
+  partitions = [0]
+  for ns in new_shape:
+    start = partitions[-1]
+    ends = start + 1 + np.nonzero(np.cumprod(flat_dims[start:]) == ns)[0]
+    if len(ends) == 0:
+      return None
+    preferred = [e for e in ends if e in boundaries]
+    partitions.append(preferred[0] if len(preferred) > 0 else ends[0])
+  if np.any(flat_dims[partitions[-1]:] != 1):
+    return None
+  partitions[-1] = len(flat_dims)  # remaining legs have dimension 1
+  return partitions
+
+
 class ChargeArray:
   """
   Base class for BlockSparseTensor.
@@ -271,28 +297,18 @@ class ChargeArray:
       raise ValueError("reshaping empty arrays is ambiguous, and is currently "
                        "not supported.")
 
-    partitions = [0]
-    for n, ns in enumerate(new_shape):
-      tmp = np.nonzero(np.cumprod(flat_dims) == ns)[0]
-      if len(tmp) == 0:
-        raise ValueError(
-            "The shape {} is incompatible with the "
-            "elementary shape {} of the tensor.".format(
-                tuple(new_shape),
-                tuple(self._charges[n].dim for o in self._order for n in o)))
-
-      partitions.append(tmp[0] + 1)
-      flat_dims = flat_dims[partitions[-1]:]
-    for d in flat_dims:
-      if d != 1: #Note (martin): I suspect this will never be raised
-        raise ValueError(
-            "The shape {} is incompatible with the "
-            "elementary shape {} of the tensor.".format(
-                tuple(new_shape),
-                tuple(self._charges[n].dim for o in self._order for n in o)))
-      partitions[-1] += 1
-
-    partitions = np.cumsum(partitions)
+    # legs of dimension 1 can be attached to either neighbor: keep them on
+    # their current axis whenever this is possible.
+    boundaries = np.cumsum([len(o) for o in self._order])
+    partitions = _find_partitions(new_shape, flat_dims, boundaries)
+    if partitions is None:
+      partitions = _find_partitions(new_shape, flat_dims, [])
+    if partitions is None:
+      raise ValueError(
+          "The shape {} is incompatible with the "
+          "elementary shape {} of the tensor.".format(
+              tuple(new_shape),
+              tuple(self._charges[n].dim for o in self._order for n in o)))
 
     flat_order = self.flat_order
     new_order = []
-- 
2.43.0


From 17cbe7cdc8c805883d94f72003d08a6817d01bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 38/79] fix: transpose of a symmetric tensor checks the
 permutation

---
 tensornetwork/block_sparse/blocksparsetensor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index cacd41f..250412c 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -369,6 +369,9 @@ class ChargeArray:
       raise ValueError(
           "`len(order)={}` is different form `self.ndim={}`".format(
               len(order), self.ndim))
+    if len({int(o) % self.ndim for o in order}) != self.ndim:
+      raise ValueError("`order={}` is not a permutation of {} axes".format(
+          tuple(order), self.ndim))
 
     order = [self._order[o] for o in order]
     tensor = self.__new__(type(self))
-- 
2.43.0


From d16e74fb73556d5afa441f2df374773949094972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 39/79] fix: compare_shapes does not depend on the storage
 order

---
 tensornetwork/block_sparse/blocksparsetensor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 250412c..ae38190 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -477,9 +477,9 @@ def compare_shapes(tensor1: ChargeArray, tensor2: ChargeArray) -> bool:
     return False
   if not all(
       charge_equal(c1, c2)
-      for c1, c2 in zip(tensor1._charges, tensor2._charges)):
+      for c1, c2 in zip(tensor1.flat_charges, tensor2.flat_charges)):
     return False
-  if not all(f1 == f2 for f1, f2 in zip(tensor1._flows, tensor2._flows)):
+  if not all(f1 == f2 for f1, f2 in zip(tensor1.flat_flows, tensor2.flat_flows)):
     return False
   return True
 
-- 
2.43.0


From 688ccdedeba55d32f7b9adddb37dcbca990cb847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:35 +0000
Subject: [PATCH 40/79] fix: outer product of symmetric tensors with scalars
 and of mixed dtypes

---
 tensornetwork/block_sparse/blocksparsetensor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index ae38190..47f2f13 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -917,12 +917,21 @@ def outerproduct(tensor1: BlockSparseTensor,
     BlockSparseTensor: The result of taking the outer product.
   """
 
+  if tensor1.ndim == 0 or tensor2.ndim == 0:
+    other = tensor1 if tensor2.ndim == 0 else tensor2
+    return BlockSparseTensor(
+        np.outer(tensor1.data, tensor2.data),
+        charges=other._charges,
+        flows=other._flows,
+        order=other._order,
+        check_consistency=False)
   final_charges = tensor1._charges + tensor2._charges
   final_flows = list(tensor1._flows) + list(tensor2._flows)
   order2 = [list(np.asarray(s) + len(tensor1._charges)) for s in tensor2._order]
 
   data = np.zeros(
-      compute_num_nonzero(final_charges, final_flows), dtype=tensor1.dtype)
+      compute_num_nonzero(final_charges, final_flows),
+      dtype=np.result_type(tensor1.dtype, tensor2.dtype))
   if ((len(tensor1.data) > 0) and (len(tensor2.data) > 0)) and (len(data) > 0):
     # find the location of the zero block in the output
     final_block_maps, final_block_charges, _ = _find_diagonal_sparse_blocks(
-- 
2.43.0


From ba9502ec544c530ece7cdb1f3ac6a259dcc1c051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:54 +0000
Subject: [PATCH 41/79] fix: tensordot of symmetric tensors with negative or
 repeated axes

---
 tensornetwork/block_sparse/blocksparsetensor.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/tensornetwork/block_sparse/blocksparsetensor.py b/tensornetwork/block_sparse/blocksparsetensor.py
index 47f2f13..931ebbf 100644
--- a/tensornetwork/block_sparse/blocksparsetensor.py
+++ b/tensornetwork/block_sparse/blocksparsetensor.py
@@ -997,6 +997,12 @@ def tensordot(
     return outerproduct(tensor1, tensor2)
 
   #more checks
+  if min(axes1) < -len(tensor1.shape) or min(axes2) < -len(tensor2.shape):
+    raise ValueError("`axes1 = {}` or `axes2 = {}` are out of range for tensors"
+                     " of shape {} and {}".format(axes1, axes2, tensor1.shape,
+                                                  tensor2.shape))
+  axes1 = [a + tensor1.ndim if a < 0 else a for a in axes1]
+  axes2 = [a + tensor2.ndim if a < 0 else a for a in axes2]
   if max(axes1) >= len(tensor1.shape):
     raise ValueError(
         "rank of `tensor1` is smaller than `max(axes1) = {}.`".format(
@@ -1042,6 +1048,10 @@ def tensordot(
             np.array(axes2)[inds], [contr_charges_1[i] for i in inds],
             [contr_charges_2[i] for i in inds]))
 
+  if len(set(axes1)) != len(axes1) or len(set(axes2)) != len(axes2):
+    raise ValueError("`axes1 = {}` or `axes2 = {}` contain repeated axes".format(
+        axes1, axes2))
+
   #checks finished
 
   #special case inner product (returns an ndim=0 tensor)
-- 
2.43.0


From 8510a1c292657caa2b9d6a564aa5dc0149d30e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:02 +0000
Subject: [PATCH 42/79] fix: cached block tables are not shared between
 different symmetries

---
 .../block_sparse/blocksparse_utils.py         | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/block_sparse/blocksparse_utils.py b/tensornetwork/block_sparse/blocksparse_utils.py
index ff95968..9fbe274 100644
--- a/tensornetwork/block_sparse/blocksparse_utils.py
+++ b/tensornetwork/block_sparse/blocksparse_utils.py
@@ -355,7 +355,7 @@ def _find_diagonal_sparse_blocks(
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, partition, list(range(len(charges))))
-    if hash_val in cacher.cache:
+    if _is_cached(hash_val, charges):
       return cacher.cache[hash_val]
 
   num_inds = len(charges)
@@ -465,7 +465,7 @@ def _find_transposed_diagonal_sparse_blocks(
   cacher = get_cacher()
   if cacher.do_caching:
     hash_val = _to_string(charges, flows, tr_partition, order)
-    if hash_val in cacher.cache:
+    if _is_cached(hash_val, charges):
       return cacher.cache[hash_val]
 
   if np.array_equal(order, None) or (np.array_equal(
@@ -643,6 +643,25 @@ def _find_transposed_diagonal_sparse_blocks(
     return cacher.cache[hash_val]
   return block_maps, obj, block_dims
 
+def _is_cached(hash_val: str, charges: List[BaseCharge]) -> bool:
+  """
+  Check if the cache holds the blocks for `hash_val`. Charges of different
+  symmetries can share the same `hash_val`, see `_to_string`.
+  Args:
+    hash_val: The result of `_to_string`.
+    charges: List of `BaseCharge`, one for each leg of a tensor.
+  Returns:
+    bool: Whether the cached blocks belong to the symmetries of `charges`.
+  """
+  cache = get_cacher().cache
+  if hash_val not in cache:
+    return False
+  cached = cache[hash_val][1]
+  return (type(cached) is type(charges[0]) and
+          cached.charge_types == charges[0].charge_types and
+          cached.dtype == charges[0].dtype)
+
+
 def _to_string(charges: List[BaseCharge], flows: Union[np.ndarray, List],
                tr_partition: int, order: List[int]) -> str:
   """
-- 
2.43.0


From 7a94704806c6c5e824626aa77a573ff03ac22160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:17 +0000
Subject: [PATCH 43/79] fix: symmetric eigs and gmres keep fused legs

---
 tensornetwork/backends/symmetric/symmetric_backend.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 8163364..c6a3e71 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -255,6 +255,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=initial_state.dtype),
         initial_state._charges,
         initial_state._flows,
+        order=initial_state._order,
         check_consistency=False)
     lop = sp.sparse.linalg.LinearOperator(
         dtype=initial_state.dtype, shape=(dim, dim), matvec=matvec)
@@ -283,6 +284,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
             U[:, n],
             initial_state._charges,
             initial_state._flows,
+            order=initial_state._order,
             check_consistency=False) for n in range(numeig)
     ]
 
@@ -581,6 +583,7 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
         numpy.empty(0, dtype=x0.dtype),
         x0._charges,
         x0._flows,
+        order=x0._order,
         check_consistency=False)
     def matvec(vector):
       tmp.data = vector
-- 
2.43.0


From 25ad546a0ae2c1b08d7b93623b97033ad5284192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:42 +0000
Subject: [PATCH 44/79] fix: symmetric svd, qr and rq keep fused legs, empty
 blocks and the number of singular values

---
 .../backends/symmetric/decompositions.py      | 128 ++++++++----------
 1 file changed, 60 insertions(+), 68 deletions(-)

diff --git a/tensornetwork/backends/symmetric/decompositions.py b/tensornetwork/backends/symmetric/decompositions.py
index 3bd437a..0b6d5e5 100644
--- a/tensornetwork/backends/symmetric/decompositions.py
+++ b/tensornetwork/backends/symmetric/decompositions.py
@@ -14,16 +14,51 @@
 """Tensor Decomposition Implementations."""
 import numpy as np
 import warnings
-from typing import Optional, Any, Tuple
+from typing import Optional, Any, List, Tuple
 from tensornetwork.block_sparse.blocksparse_utils import (
     _find_transposed_diagonal_sparse_blocks)
-from tensornetwork.block_sparse.utils import get_real_dtype
-from tensornetwork.block_sparse.sizetypes import SIZE_T
+from tensornetwork.block_sparse.utils import get_real_dtype, flatten
 from tensornetwork.block_sparse.blocksparsetensor import (BlockSparseTensor,
                                                           ChargeArray)
 Tensor = Any
 
 
+def _merge_axes(
+    tensor: BlockSparseTensor,
+    pivot_axis: int) -> Tuple[BlockSparseTensor, List[int], List[int]]:
+  """
+  Group the axes of `tensor` left and right of `pivot_axis` into a matrix.
+
+  Returns:
+    The matrix and the numbers of elementary legs per axis of `tensor`
+    on its left and right side, see `_split_axis`.
+  """
+  left, right = tensor._order[:pivot_axis], tensor._order[pivot_axis:]
+  matrix = BlockSparseTensor(
+      tensor.data,
+      charges=tensor._charges,
+      flows=tensor._flows,
+      order=[flatten(left), flatten(right)],
+      check_consistency=False)
+  return matrix, [len(o) for o in left], [len(o) for o in right]
+
+
+def _split_axis(tensor: BlockSparseTensor, axis: int,
+                sizes: List[int]) -> BlockSparseTensor:
+  """
+  Undo the grouping of `_merge_axes` on one `axis` of `tensor`.
+  """
+  legs = list(tensor._order[axis])
+  ends = np.cumsum(sizes)
+  order = [legs[end - size:end] for end, size in zip(ends, sizes)]
+  return BlockSparseTensor(
+      tensor.data,
+      charges=tensor._charges,
+      flows=tensor._flows,
+      order=tensor._order[:axis] + order + tensor._order[axis + 1:],
+      check_consistency=False)
+
+
 def svd(
     bt,
     tensor: BlockSparseTensor,
@@ -36,10 +71,7 @@ def svd(
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
 
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-
-  matrix = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  matrix, left_sizes, right_sizes = _merge_axes(tensor, pivot_axis)
 
   flat_charges = matrix._charges
   flat_flows = matrix._flows
@@ -68,22 +100,14 @@ def svd(
     max_singular_values = None
 
   if (max_truncation_error is not None) or (max_singular_values is not None):
-    max_D = np.max([len(s) for s in singvals]) if len(singvals) > 0 else 0
-
-    #extend singvals of all blocks into a matrix by padding each block with 0
+    #all singular values, and the block each one belongs to
     if len(singvals) > 0:
-      extended_singvals = np.stack([
-          np.append(s, np.zeros(max_D - len(s), dtype=s.dtype))
-          for s in singvals
-      ],
-                                   axis=1)
+      flat_singvals = np.concatenate(singvals)
     else:
-      extended_singvals = np.empty((0, 0), dtype=get_real_dtype(tensor.dtype))
-
-    extended_flat_singvals = np.ravel(extended_singvals)
+      flat_singvals = np.empty(0, dtype=get_real_dtype(tensor.dtype))
+    block_labels = np.repeat(np.arange(len(singvals)), orig_block_size)
     #sort singular values
-    inds = np.argsort(extended_flat_singvals, kind='stable')
-    discarded_inds = np.zeros(0, dtype=SIZE_T)
+    inds = np.argsort(flat_singvals, kind='stable')
     if max_truncation_error is not None:
       if relative and (len(singvals) > 0):
         max_truncation_error = max_truncation_error * np.max(
@@ -91,46 +115,25 @@ def svd(
 
       kept_inds_mask = np.sqrt(
           np.cumsum(np.square(
-              extended_flat_singvals[inds]))) > max_truncation_error
-      trunc_inds_mask = np.logical_not(kept_inds_mask)
-      discarded_inds = inds[trunc_inds_mask]
+              flat_singvals[inds]))) > max_truncation_error
       inds = inds[kept_inds_mask]
     if max_singular_values is not None:
-      #if the original number of non-zero singular values
-      #is smaller than `max_singular_values` we need to reset
-      #`max_singular_values` (we were filling in 0.0 into singular
-      #value blocks to facilitate trunction steps, thus we could end up
-      #with more singular values than originally there).
-      if max_singular_values > orig_num_singvals:
-        max_singular_values = orig_num_singvals
       if max_singular_values < len(inds):
-        discarded_inds = np.append(discarded_inds,
-                                   inds[:(-1) * max_singular_values])
-        inds = inds[(-1) * max_singular_values::]
+        inds = inds[len(inds) - max_singular_values:]
 
     if len(inds) == 0:
       #special case of truncation to 0 dimension;
       warnings.warn("svd_decomposition truncated to 0 dimensions.")
 
-    if extended_singvals.shape[1] > 0:
-      #pylint: disable=no-member
-      keep = np.divmod(inds, extended_singvals.shape[1])
-      disc = np.divmod(discarded_inds, extended_singvals.shape[1])
-    else:
-      keep = (np.zeros(1, dtype=SIZE_T), np.zeros(1, dtype=SIZE_T))
-      disc = (np.zeros(0, dtype=SIZE_T), np.zeros(0, dtype=SIZE_T))
+    kept = np.zeros(len(flat_singvals), dtype=bool)
+    kept[inds] = True
     newsingvals = [
-        extended_singvals[keep[0][keep[1] == n], keep[1][keep[1] == n]][::-1]
-        for n in range(extended_singvals.shape[1])
-    ]
-    discsingvals = [
-        extended_singvals[disc[0][disc[1] == n], disc[1][disc[1] == n]][::-1]
-        for n in range(extended_singvals.shape[1])
+        flat_singvals[np.logical_and(kept, block_labels == n)]
+        for n in range(len(singvals))
     ]
-    new_block_size = [len(s) for s in newsingvals]
     discsingvals = [
-        d[:(orig_block_size[n] - new_block_size[n])]
-        for n, d in enumerate(discsingvals)
+        flat_singvals[np.logical_and(~kept, block_labels == n)]
+        for n in range(len(singvals))
     ]
     singvals = newsingvals
     discarded_singvals = discsingvals
@@ -162,8 +165,8 @@ def svd(
     all_singvals = np.empty(0, dtype=get_real_dtype(tensor.dtype))
     left_charge_labels = np.empty(0, dtype=np.int16)
     right_charge_labels = np.empty(0, dtype=np.int16)
-    all_ublocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
-    all_vblocks = np.empty(0, dtype=get_real_dtype(tensor.dtype))
+    all_ublocks = np.empty(0, dtype=tensor.dtype)
+    all_vblocks = np.empty(0, dtype=tensor.dtype)
 
   if len(discarded_singvals) > 0:
     tmp_labels = [
@@ -211,9 +214,8 @@ def svd(
       flows=flows_v,
       order=order_v,
       check_consistency=False)
-  left_shape = left_dims + (S.shape[0],)
-  right_shape = (S.shape[0],) + right_dims
-  return U.reshape(left_shape), S, V.reshape(right_shape), Sdisc
+  return (_split_axis(U, 0, left_sizes), S, _split_axis(V, 1, right_sizes),
+          Sdisc)
 
 
 def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -221,14 +223,9 @@ def qr(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  tensor, left_sizes, right_sizes = _merge_axes(tensor, pivot_axis)
   q, r = bt.qr(tensor)
-  center_dim = q.shape[1]
-  q = bt.reshape(q, list(left_dims) + [center_dim])
-  r = bt.reshape(r, [center_dim] + list(right_dims))
-  return q, r
+  return _split_axis(q, 0, left_sizes), _split_axis(r, 1, right_sizes)
 
 
 def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
@@ -236,13 +233,8 @@ def rq(bt, tensor: BlockSparseTensor, pivot_axis: int) -> Tuple[Tensor, Tensor]:
 
   See tensornetwork.backends.tensorflow.decompositions for details.
   """
-  left_dims = tensor.shape[:pivot_axis]
-  right_dims = tensor.shape[pivot_axis:]
-  tensor = bt.reshape(tensor, [np.prod(left_dims), np.prod(right_dims)])
+  tensor, left_sizes, right_sizes = _merge_axes(tensor, pivot_axis)
   q, r = bt.qr(bt.conj(bt.transpose(tensor, (1, 0))))
   r, q = bt.conj(bt.transpose(r, (1, 0))), bt.conj(bt.transpose(
       q, (1, 0)))  #M=r*q at this point
-  center_dim = r.shape[1]
-  r = bt.reshape(r, list(left_dims) + [center_dim])
-  q = bt.reshape(q, [center_dim] + list(right_dims))
-  return r, q
+  return _split_axis(r, 0, left_sizes), _split_axis(q, 1, right_sizes)
-- 
2.43.0


From febd6eb1539a4205feeab205d16cdb1804e43948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:29 +0000
Subject: [PATCH 45/79] fix: node initializers use the default backend

---
 tensornetwork/linalg/node_linalg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/linalg/node_linalg.py b/tensornetwork/linalg/node_linalg.py
index 67e414c..3a3527a 100644
--- a/tensornetwork/linalg/node_linalg.py
+++ b/tensornetwork/linalg/node_linalg.py
@@ -55,9 +55,8 @@ def initialize_node(fname: Text,
           axis of data.
   """
   if backend is None:
-    backend_obj = backend_contextmanager.get_default_backend()
-  else:
-    backend_obj = backends.backend_factory.get_backend(backend)
+    backend = backend_contextmanager.get_default_backend()
+  backend_obj = backends.backend_factory.get_backend(backend)
   func = getattr(backend_obj, fname)
   data = func(*fargs, **fkwargs)
   node = Node(data, name=name, axis_names=axis_names, backend=backend)
-- 
2.43.0


From 38e8ddf633635f5907d1b15b2c5ba272d6c97cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:39 +0000
Subject: [PATCH 46/79] fix: save_nodes leaves the names of the saved network
 as they were

---
 tensornetwork/utils.py | 71 +++++++++++++++++++++---------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index b91dd8c..bee0e42 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -49,42 +49,42 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
 
   #generate unique names for nodes and edges
   #for saving them
-  for n, node in enumerate(nodes):
-    node.set_name('node{}'.format(n))
-
-  for e, edge in enumerate(edges):
-    edge.set_name('edge{}'.format(e))
-
-  with h5py.File(path, 'w') as net_file:
-    nodes_group = net_file.create_group('nodes')
-    node_names_group = net_file.create_group('node_names')
-    node_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_node_names.values()), dtype=object))
-
-    edges_group = net_file.create_group('edges')
-    edge_names_group = net_file.create_group('edge_names')
-    edge_names_group.create_dataset(
-        'names',
-        dtype=string_type,
-        data=np.array(list(old_edge_names.values()), dtype=object))
-
+  try:
     for n, node in enumerate(nodes):
-      node_group = nodes_group.create_group(node.name)
-      node._save_node(node_group)
-      for edge in node.edges:
-        if edge.node1 == node and edge in edges:
-          edge_group = edges_group.create_group(edge.name)
-          edge._save_edge(edge_group)
-          edges.remove(edge)
-
-  #name edges and nodes back  to their original names
-  for n, node in enumerate(nodes):
-    nodes[n].set_name(old_node_names[n])
+      node.set_name('node{}'.format(n))
+
+    for e, edge in enumerate(edges):
+      edge.set_name('edge{}'.format(e))
+
+    with h5py.File(path, 'w') as net_file:
+      nodes_group = net_file.create_group('nodes')
+      node_names_group = net_file.create_group('node_names')
+      node_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_node_names.values()), dtype=object))
+
+      edges_group = net_file.create_group('edges')
+      edge_names_group = net_file.create_group('edge_names')
+      edge_names_group.create_dataset(
+          'names',
+          dtype=string_type,
+          data=np.array(list(old_edge_names.values()), dtype=object))
+
+      for node in nodes:
+        node_group = nodes_group.create_group(node.name)
+        node._save_node(node_group)
+
+      for edge in edges:
+        edge_group = edges_group.create_group(edge.name)
+        edge._save_edge(edge_group)
+  finally:
+    #name edges and nodes back to their original names
+    for n, node in enumerate(nodes):
+      node.set_name(old_node_names[n])
 
-  for n, edge in enumerate(edges):
-    edges[n].set_name(old_edge_names[n])
+    for n, edge in enumerate(edges):
+      edge.set_name(old_edge_names[n])
 
 
 def load_nodes(path: str) -> List[AbstractNode]:
@@ -98,7 +98,8 @@ def load_nodes(path: str) -> List[AbstractNode]:
   nodes_list = []
   edges_list = []
   with h5py.File(path, 'r') as net_file:
-    nodes = list(net_file["nodes"].keys())
+    # hdf5 lists groups alphabetically, the order of the nodes is numerical
+    nodes = sorted(net_file["nodes"].keys(), key=lambda name: int(name[4:]))
     node_names = {
         'node{}'.format(n): v for n, v in enumerate(
             net_file["node_names"]['names'].asstr(STRING_ENCODING)[()])#pylint: disable=no-member
-- 
2.43.0


From ecdbabcf9455a0725e3b7c61e1a1aeb573ade5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:51 +0000
Subject: [PATCH 47/79] fix: nodes without axes can be loaded

---
 tensornetwork/network_components.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index ff9ce9c..b71be7f 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -465,7 +465,10 @@ class AbstractNode(ABC):
     name = node_data['name'].asstr(STRING_ENCODING)[()]
     backend = node_data['backend'].asstr(STRING_ENCODING)[()]
     shape = node_data['shape'][()]
-    axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
+    if len(shape) > 0:
+      axis_names = node_data['axis_names'].asstr(STRING_ENCODING)[()]
+    else:
+      axis_names = []
     return name, shape, axis_names, backend
 
   @abstractmethod
-- 
2.43.0


From 933d7fca0d46e8e91a4e51a5bab5324c9e8f6f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:51 +0000
Subject: [PATCH 48/79] fix: nodes_from_json makes cut edges dangle from the
 included node

---
 tensornetwork/network_operations.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index a281111..5810226 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -970,6 +970,9 @@ def nodes_from_json(json_str: str) -> Tuple[List[AbstractNode],
   for e in network_dict['edges']:
     e_nodes = [node_ids.get(n_id) for n_id in e['node_ids']]
     axes = e['attributes']['axes']
+    if e_nodes[0] is None:
+      # the excluded node was the first one: the edge dangles from the other
+      e_nodes, axes = e_nodes[::-1], axes[::-1]
     edge = Edge(node1=e_nodes[0],
                 axis1=axes[0],
                 node2=e_nodes[1],
-- 
2.43.0


From ea1b61e4e27582f99c78e900e05a66627e026f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:51 +0000
Subject: [PATCH 49/79] fix: to_graphviz draws edges to nodes that are not
 drawn as dangling

---
 tensornetwork/visualization/graphviz.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/visualization/graphviz.py b/tensornetwork/visualization/graphviz.py
index e80aba8..283a12c 100644
--- a/tensornetwork/visualization/graphviz.py
+++ b/tensornetwork/visualization/graphviz.py
@@ -40,6 +40,8 @@ def to_graphviz(nodes: Iterable[AbstractNode],
   if graph is None:
     #pylint: disable=no-member
     graph = graphviz.Graph('G', engine=engine)
+  nodes = list(nodes)
+  node_set = set(nodes)
   for node in nodes:
     if not node.name.startswith("__") or include_all_names:
       label = node.name
@@ -56,9 +58,9 @@ def to_graphviz(nodes: Iterable[AbstractNode],
         edge_label = edge.name
       else:
         edge_label = ""
-      if edge.is_dangling():
+      if edge.is_dangling() or not node_set.issuperset(edge.get_nodes()):
         # We need to create an invisible node for the dangling edge
-        # to connect to.
+        # (or the edge to a node which is not drawn) to connect to.
         graph.node(
             "{}_{}".format(id(node), i),
             label="",
-- 
2.43.0


From 38316a7209b6d3c3c96ba47517a4d415a01cf771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:27 +0000
Subject: [PATCH 50/79] fix: load_nodes keeps the order of the saved nodes

---
 tensornetwork/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/utils.py b/tensornetwork/utils.py
index bee0e42..30ccd79 100644
--- a/tensornetwork/utils.py
+++ b/tensornetwork/utils.py
@@ -33,16 +33,16 @@ def save_nodes(nodes: List[AbstractNode], path: Union[str, BinaryIO]) -> None:
       `nodes`.
     path: path to file where network is saved.
   """
+  nodes = list(nodes)
   if reachable(nodes) > set(nodes):
     raise ValueError(
         "Some nodes in `nodes` are connected to nodes not contained in `nodes`."
         " Saving not possible.")
-  if len(set(nodes)) < len(list(nodes)):
+  if len(set(nodes)) < len(nodes):
     raise ValueError(
         'Some nodes in `nodes` appear more than once. This is not supported')
   #we need to iterate twice and order matters
   edges = list(get_all_edges(nodes))
-  nodes = list(nodes)
 
   old_edge_names = {n: edge.name for n, edge in enumerate(edges)}
   old_node_names = {n: node.name for n, node in enumerate(nodes)}
-- 
2.43.0


From e4d7d28378f2c887ab2ec4380246849d9d9b5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:07 +0000
Subject: [PATCH 51/79] fix: chains of identity operators can be contracted in
 any order

---
 tensornetwork/quantum/quantum.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensornetwork/quantum/quantum.py b/tensornetwork/quantum/quantum.py
index 1dc7981..08e1faf 100644
--- a/tensornetwork/quantum/quantum.py
+++ b/tensornetwork/quantum/quantum.py
@@ -140,6 +140,12 @@ def eliminate_identities(nodes: Collection[AbstractNode]) -> Tuple[dict, dict]:
         dangling_edges_dict[e] = e
       nodes_dict[n] = n
 
+  # In a chain of identities, a replacement may itself have been replaced.
+  for edge, new_edge in dangling_edges_dict.items():
+    while dangling_edges_dict.get(new_edge, new_edge) is not new_edge:
+      new_edge = dangling_edges_dict[new_edge]
+    dangling_edges_dict[edge] = new_edge
+
   return nodes_dict, dangling_edges_dict
 
 
-- 
2.43.0


From ba2afe9531a08259cb08321ba25b9586547d22f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:59 +0000
Subject: [PATCH 52/79] fix: position does not rescale the tensors of the
 caller

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index c8500cb..542a1d8 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -169,7 +169,9 @@ class BaseMPS:
     if site == self.center_position:
       Z = self.norm(self.tensors[self.center_position])
       if normalize:
-        self.tensors[self.center_position] /= Z
+        # not in place: the tensor may belong to the caller
+        self.tensors[self.center_position] = (
+            self.tensors[self.center_position] / Z)
       return Z
 
     #shift center_position to the right using QR or SV decomposition
-- 
2.43.0


From 008fadec3bec49909914120985054d43b0304d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:59 +0000
Subject: [PATCH 53/79] fix: two-site gates without truncation leave the center
 where it is reported

---
 tensornetwork/matrixproductstates/base_mps.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 542a1d8..cbf4a18 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -583,14 +583,14 @@ class BaseMPS:
     else:
       tw = self.backend.zeros(1, dtype=self.dtype)
       if center_position == site2:
-        R, Q = self.backend.rq(tensor, pivot_axis=2)
-        left_tensor = R
-        right_tensor = Q
-        set_center_position(site2)
-      else:
         Q, R = self.backend.qr(tensor, pivot_axis=2)
         left_tensor = Q
         right_tensor = R
+        set_center_position(site2)
+      else:
+        R, Q = self.backend.rq(tensor, pivot_axis=2)
+        left_tensor = R
+        right_tensor = Q
         set_center_position(site1)
 
     self.tensors[site1] = left_tensor
-- 
2.43.0


From 3514cab70aedc15b8f541bb7e7fc1712e4f1d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:59 +0000
Subject: [PATCH 54/79] fix: two-body correlators are returned for the sites
 that were asked for

---
 tensornetwork/matrixproductstates/base_mps.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index cbf4a18..993dfe6 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -478,7 +478,9 @@ class BaseMPS:
           L = Node(
               self.apply_transfer_operator(n % N, 'left', L.tensor),
               backend=self.backend)
-    return [self.backend.item(o) for o in c]
+    # `c` is sorted by site and has no repetitions: return what was asked for
+    order = {site: n for n, site in enumerate(np.unique(sites2))}
+    return [self.backend.item(c[order[site]]) for site in sites2]
 
   def apply_two_site_gate(self,
                           gate: Tensor,
-- 
2.43.0


From f839ba0c4ba2240e0b2e0efce3152f787be847a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:00 +0000
Subject: [PATCH 55/79] fix: FiniteMPS.canonicalize returns the norm of the
 state

---
 .../matrixproductstates/finite_mps.py         | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/tensornetwork/matrixproductstates/finite_mps.py b/tensornetwork/matrixproductstates/finite_mps.py
index bc5dd8e..f0d291b 100644
--- a/tensornetwork/matrixproductstates/finite_mps.py
+++ b/tensornetwork/matrixproductstates/finite_mps.py
@@ -132,18 +132,21 @@ class FiniteMPS(BaseMPS):
       `Tensor`: The norm of the MPS.
     """
     N = len(self.tensors)
-    if self.center_position is not None:
-      pos = self.center_position
-      if pos >= N // 2:
-        self.center_position = 0
-        self.position(N - 1, normalize=normalize)
-      else:
-        self.center_position = len(self.tensors) - 1
-        self.position(0, normalize=normalize)
-      return self.position(pos, normalize=normalize)
-
-    self.center_position = len(self.tensors) - 1
-    return self.position(0, normalize=normalize)
+    pos = self.center_position
+    if pos is not None and pos >= N // 2:
+      self.center_position = 0
+      sites = range(N)
+    else:
+      self.center_position = N - 1
+      sites = reversed(range(N))
+    norm = 1.0
+    for site in sites:
+      Z = self.position(site, normalize=normalize)
+      # without normalization, `Z` already contains all other factors
+      norm = norm * Z if normalize else Z
+    if pos is not None:
+      self.position(pos, normalize=normalize)
+    return norm
 
   def check_canonical(self) -> Tensor:
     """Check whether the MPS is in the expected canonical form.
-- 
2.43.0


From fc62e81856d7dce7b8e021e5f7f3ae026e88f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:07 +0000
Subject: [PATCH 56/79] fix: canonicalizing an infinite MPS twice keeps it
 normalized

---
 tensornetwork/matrixproductstates/infinite_mps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index ff7d4ed..3720b75 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -214,6 +214,9 @@ class InfiniteMPS(BaseMPS):
     if self.center_position is None:
       self.center_position = 0
 
+    # the transfer operators below do not see the connector matrix
+    self.tensors[-1] = self.get_tensor(len(self) - 1)
+    self.connector_matrix = None
     # bring center_position to 0
     self.position(0)
     # dtype of eta is the same as InfiniteMPS.dtype
-- 
2.43.0


From 546a6a6ef4de1e2069f8301be3e99d2e6e1dd06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:07 +0000
Subject: [PATCH 57/79] fix: infinite MPS accept initial states for the
 transfer matrix

---
 tensornetwork/matrixproductstates/infinite_mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/matrixproductstates/infinite_mps.py b/tensornetwork/matrixproductstates/infinite_mps.py
index 3720b75..e41a7cb 100644
--- a/tensornetwork/matrixproductstates/infinite_mps.py
+++ b/tensornetwork/matrixproductstates/infinite_mps.py
@@ -131,7 +131,7 @@ class InfiniteMPS(BaseMPS):
           direction, self.backend.reshape(vector, (D, D)))
       return self.backend.reshape(result, (D * D,))
 
-    if not initial_state:
+    if initial_state is None:
       initial_state = self.backend.randn((self.bond_dimensions[0]**2,),
                                          dtype=self.dtype)
     else:
-- 
2.43.0


From 112b1599741a10932f85676a84d435f7bdde6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:36 +0000
Subject: [PATCH 58/79] fix: MPS of jax tensors can be truncated by error

---
 tensornetwork/matrixproductstates/base_mps.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/matrixproductstates/base_mps.py b/tensornetwork/matrixproductstates/base_mps.py
index 993dfe6..5243e7c 100644
--- a/tensornetwork/matrixproductstates/base_mps.py
+++ b/tensornetwork/matrixproductstates/base_mps.py
@@ -94,7 +94,6 @@ class BaseMPS:
     ########################################################################
     ##########       define functions for jitted operations       ##########
     ########################################################################
-    @partial(jit, backend=self.backend, static_argnums=(1, 2, 3))
     def svd(tensor,
             pivot_axis=2,
             max_singular_values=None,
@@ -106,7 +105,18 @@ class BaseMPS:
           max_truncation_error=max_truncation_error,
           relative=True)
 
-    self.svd = svd
+    jitted_svd = jit(svd, backend=self.backend, static_argnums=(1, 2, 3))
+
+    def maybe_jitted_svd(tensor,
+                         pivot_axis=2,
+                         max_singular_values=None,
+                         max_truncation_error=None):
+      # A truncation error makes the shapes of the results depend on the
+      # values of `tensor`, which jit does not support.
+      fun = jitted_svd if max_truncation_error is None else svd
+      return fun(tensor, pivot_axis, max_singular_values, max_truncation_error)
+
+    self.svd = maybe_jitted_svd
 
     @partial(jit, backend=self.backend)
     def qr(tensor):
-- 
2.43.0


From 9f9b4f0df4093f9d06f7ebf53f0ef944a9c329b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:49 +0000
Subject: [PATCH 59/79] fix: InfiniteMPO.roll accepts any number of sites

---
 tensornetwork/matrixproductstates/mpo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tensornetwork/matrixproductstates/mpo.py b/tensornetwork/matrixproductstates/mpo.py
index 16b79c9..14db0fc 100644
--- a/tensornetwork/matrixproductstates/mpo.py
+++ b/tensornetwork/matrixproductstates/mpo.py
@@ -97,6 +97,7 @@ class InfiniteMPO(BaseMPO):
       raise ValueError('left and right MPO ancillary dimension have to match')
 
   def roll(self, num_sites) -> None:
+    num_sites %= len(self.tensors)
     tensors = [self.tensors[n] for n in range(num_sites, len(self.tensors))
               ] + [self.tensors[n] for n in range(num_sites)]
     self.tensors = tensors
-- 
2.43.0


From 1054561a73262c881e5345593fbc58d242c5b190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:49 +0000
Subject: [PATCH 60/79] fix: DMRG centre moves compute the environments they
 need

---
 tensornetwork/matrixproductstates/dmrg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index 647e333..a288409 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -129,6 +129,8 @@ class BaseDMRG:
 
     if site > self.mps.center_position:
       pos = self.mps.center_position
+      if pos not in self.left_envs:
+        self.compute_left_envs()
       self.mps.position(site)
       for m in range(pos, site):
         self.left_envs[m + 1] = self.add_left_layer(self.left_envs[m],
@@ -137,6 +139,8 @@ class BaseDMRG:
 
     elif site < self.mps.center_position:
       pos = self.mps.center_position
+      if pos not in self.right_envs:
+        self.compute_right_envs()
       self.mps.position(site)
       for m in reversed(range(site, pos)):
         self.right_envs[m] = self.add_right_layer(self.right_envs[m + 1],
-- 
2.43.0


From 631092f2f03ee19b373598b0159768b1866562e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:23 +0000
Subject: [PATCH 61/79] fix: jax eigensolvers and gmres run with current jax

---
 .../backends/jax/jitted_functions.py          | 134 +++++++++---------
 1 file changed, 66 insertions(+), 68 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 63adb84..fcf2869 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -24,11 +24,11 @@ def _iterative_classical_gram_schmidt(jax: types.ModuleType) -> Callable:
 
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
   def iterative_classical_gram_schmidt(
-      vector: jax.ShapedArray,
-      krylov_vectors: jax.ShapedArray,
+      vector: Tensor,
+      krylov_vectors: Tensor,
       precision: JaxPrecisionType,
       iterations: int = 2,
-      ) -> jax.ShapedArray:
+      ) -> Tensor:
     """
     Orthogonalize `vector`  to all rows of `krylov_vectors`.
 
@@ -92,9 +92,9 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7))
-  def jax_lanczos(matvec: Callable, arguments: List, init: jax.ShapedArray,
+  def jax_lanczos(matvec: Callable, arguments: List, init: Tensor,
                   ncv: int, neig: int, landelta: float, reortho: bool,
-                  precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, List]:
+                  precision: JaxPrecisionType) -> Tuple[Tensor, List]:
     """
     Lanczos iteration for symmeric eigenvalue problems. If reortho = False,
     the Krylov basis is constructed without explicit re-orthogonalization. 
@@ -219,8 +219,7 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
       krv, unitary, vectors = vals
       dim = unitary.shape[1]
       n, m = jax.numpy.divmod(i, dim)
-      vectors = jax.ops.index_add(vectors, jax.ops.index[n, :],
-                                  krv[m + 1] * unitary[m, n])
+      vectors = vectors.at[n, :].add(krv[m + 1] * unitary[m, n])
       return [krv, unitary, vectors]
 
     _vectors = jax.numpy.zeros((neig,) + shape, dtype=dtype)
@@ -247,8 +246,8 @@ def _generate_lanczos_factorization(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(6, 7, 8, 9))
   def _lanczos_fact(
-      matvec: Callable, args: List, v0: jax.ShapedArray,
-      Vm: jax.ShapedArray, alphas: jax.ShapedArray, betas: jax.ShapedArray,
+      matvec: Callable, args: List, v0: Tensor,
+      Vm: Tensor, alphas: Tensor, betas: Tensor,
       start: int, num_krylov_vecs: int, tol: float, precision: JaxPrecisionType
   ):
     """
@@ -402,10 +401,10 @@ def _generate_arnoldi_factorization(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(5, 6, 7, 8))
   def _arnoldi_fact(
-      matvec: Callable, args: List, v0: jax.ShapedArray,
-      Vm: jax.ShapedArray, H: jax.ShapedArray, start: int,
+      matvec: Callable, args: List, v0: Tensor,
+      Vm: Tensor, H: Tensor, start: int,
       num_krylov_vecs: int, tol: float, precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, jax.ShapedArray, jax.ShapedArray, float, int,
+  ) -> Tuple[Tensor, Tensor, Tensor, float, int,
              bool]:
     """
     Compute an m-step arnoldi factorization of `matvec`, with
@@ -541,7 +540,7 @@ def _LR_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      evals: Tensor) -> Tuple[Tensor, Tensor]:
     inds = jax.numpy.argsort(jax.numpy.real(evals), kind='stable')[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
@@ -551,7 +550,7 @@ def _SA_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      evals: Tensor) -> Tuple[Tensor, Tensor]:
     inds = jax.numpy.argsort(evals, kind='stable')
     shifts = evals[inds][-p:]
     return shifts, inds
@@ -561,7 +560,7 @@ def _LA_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      evals: Tensor) -> Tuple[Tensor, Tensor]:
     inds = jax.numpy.argsort(evals, kind='stable')[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
@@ -571,7 +570,7 @@ def _LM_sort(jax):
   @functools.partial(jax.jit, static_argnums=(0,))
   def sorter(
       p: int,
-      evals: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      evals: Tensor) -> Tuple[Tensor, Tensor]:
     inds = jax.numpy.argsort(jax.numpy.abs(evals), kind='stable')[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
@@ -583,9 +582,9 @@ def _LM_sort(jax):
 def _shifted_QR(jax):
   @functools.partial(jax.jit, static_argnums=(4,))
   def shifted_QR(
-      Vm: jax.ShapedArray, Hm: jax.ShapedArray, fm: jax.ShapedArray,
-      shifts: jax.ShapedArray,
-      numeig: int) -> Tuple[jax.ShapedArray, jax.ShapedArray, jax.ShapedArray]:
+      Vm: Tensor, Hm: Tensor, fm: Tensor,
+      shifts: Tensor,
+      numeig: int) -> Tuple[Tensor, Tensor, Tensor]:
     # compress arnoldi factorization
     q = jax.numpy.zeros(Hm.shape[0], dtype=Hm.dtype)
     q = q.at[-1].set(1.0)
@@ -607,14 +606,13 @@ def _shifted_QR(jax):
 
 def _get_vectors(jax):
   @functools.partial(jax.jit, static_argnums=(3,))
-  def get_vectors(Vm: jax.ShapedArray, unitary: jax.ShapedArray,
-                  inds: jax.ShapedArray, numeig: int) -> jax.ShapedArray:
+  def get_vectors(Vm: Tensor, unitary: Tensor,
+                  inds: Tensor, numeig: int) -> Tensor:
 
     def body_vector(i, states):
       dim = unitary.shape[1]
       n, m = jax.numpy.divmod(i, dim)
-      states = jax.ops.index_add(states, jax.ops.index[n, :],
-                                 Vm[m, :] * unitary[m, inds[n]])
+      states = states.at[n, :].add(Vm[m, :] * unitary[m, inds[n]])
       return states
 
     state_vectors = jax.numpy.zeros([numeig, Vm.shape[1]], dtype=Vm.dtype)
@@ -628,7 +626,7 @@ def _get_vectors(jax):
 
 def _check_eigvals_convergence_eigh(jax):
   @functools.partial(jax.jit, static_argnums=(3,))
-  def check_eigvals_convergence(beta_m: float, Hm: jax.ShapedArray,
+  def check_eigvals_convergence(beta_m: float, Hm: Tensor,
                                 Hm_norm: float,
                                 tol: float) -> bool:
     eigvals, eigvecs = jax.numpy.linalg.eigh(Hm)
@@ -643,7 +641,7 @@ def _check_eigvals_convergence_eigh(jax):
 
 def _check_eigvals_convergence_eig(jax):
   @functools.partial(jax.jit, static_argnums=(2, 3))
-  def check_eigvals_convergence(beta_m: float, Hm: jax.ShapedArray,
+  def check_eigvals_convergence(beta_m: float, Hm: Tensor,
                                 tol: float, numeig: int) -> bool:
     eigvals, eigvecs = jax.numpy.linalg.eig(Hm)
     # TODO (mganahl) confirm that this is a valid matrix norm)
@@ -698,10 +696,10 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7, 8))
   def implicitly_restarted_arnoldi_method(
-      matvec: Callable, args: List, initial_state: jax.ShapedArray,
+      matvec: Callable, args: List, initial_state: Tensor,
       num_krylov_vecs: int, numeig: int, which: Text, tol: float, maxiter: int,
       precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, List[jax.ShapedArray], int]:
+  ) -> Tuple[Tensor, List[Tensor], int]:
     """
     Implicitly restarted arnoldi factorization of `matvec`. The routine
     finds the lowest `numeig` eigenvector-eigenvalue pairs of `matvec`
@@ -916,10 +914,10 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
 
   @functools.partial(jax.jit, static_argnums=(3, 4, 5, 6, 7, 8))
   def implicitly_restarted_lanczos_method(
-      matvec: Callable, args: List, initial_state: jax.ShapedArray,
+      matvec: Callable, args: List, initial_state: Tensor,
       num_krylov_vecs: int, numeig: int, which: Text, tol: float, maxiter: int,
       precision: JaxPrecisionType
-  ) -> Tuple[jax.ShapedArray, List[jax.ShapedArray], int]:
+  ) -> Tuple[Tensor, List[Tensor], int]:
     """
     Implicitly restarted lanczos factorization of `matvec`. The routine
     finds the lowest `numeig` eigenvector-eigenvalue pairs of `matvec`
@@ -1110,9 +1108,9 @@ def gmres_wrapper(jax: types.ModuleType):
   jnp = jax.numpy
   JaxPrecisionType = type(jax.lax.Precision.DEFAULT)
   def gmres_m(
-      A_mv: Callable, A_args: Sequence, b: jax.ShapedArray, x0: jax.ShapedArray,
+      A_mv: Callable, A_args: Sequence, b: Tensor, x0: Tensor,
       tol: float, atol: float, num_krylov_vectors: int, maxiter: int,
-      precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, float, int, bool]:
+      precision: JaxPrecisionType) -> Tuple[Tensor, float, int, bool]:
     """
     Solve A x = b for x using the m-restarted GMRES method. This is
     intended to be called via jax_backend.gmres.
@@ -1152,10 +1150,10 @@ def gmres_wrapper(jax: types.ModuleType):
         break
     return x, beta, n_iter, done
 
-  def gmres(A_mv: Callable, A_args: Sequence, b: jax.ShapedArray,
-            x: jax.ShapedArray, num_krylov_vectors: int, x0: jax.ShapedArray,
+  def gmres(A_mv: Callable, A_args: Sequence, b: Tensor,
+            x: Tensor, num_krylov_vectors: int, x0: Tensor,
             tol: float, b_norm: float,
-            precision: JaxPrecisionType) -> Tuple[bool, float, jax.ShapedArray]:
+            precision: JaxPrecisionType) -> Tuple[bool, float, Tensor]:
     """
     A single restart of GMRES.
 
@@ -1180,8 +1178,8 @@ def gmres_wrapper(jax: types.ModuleType):
     return done, beta, x
 
   @jax.jit
-  def gmres_residual(A_mv: Callable, A_args: Sequence, b: jax.ShapedArray,
-                     x: jax.ShapedArray) -> Tuple[jax.ShapedArray, float]:
+  def gmres_residual(A_mv: Callable, A_args: Sequence, b: Tensor,
+                     x: Tensor) -> Tuple[Tensor, float]:
     """
     Computes the residual vector r and its norm, beta, which is minimized by
     GMRES.
@@ -1200,9 +1198,9 @@ def gmres_wrapper(jax: types.ModuleType):
     beta = jnp.linalg.norm(r)
     return r, beta
 
-  def gmres_update(k: int, V: jax.ShapedArray, R: jax.ShapedArray,
-                   beta_vec: jax.ShapedArray,
-                   x0: jax.ShapedArray) -> jax.ShapedArray:
+  def gmres_update(k: int, V: Tensor, R: Tensor,
+                   beta_vec: Tensor,
+                   x0: Tensor) -> Tensor:
     """
     Updates the solution in response to the information computed by the
     main GMRES loop.
@@ -1223,10 +1221,10 @@ def gmres_wrapper(jax: types.ModuleType):
 
   @functools.partial(jax.jit, static_argnums=(2, 8))
   def gmres_krylov(
-      A_mv: Callable, A_args: Sequence, n_kry: int, x0: jax.ShapedArray,
-      r: jax.ShapedArray, beta: float, tol: float, b_norm: float,
+      A_mv: Callable, A_args: Sequence, n_kry: int, x0: Tensor,
+      r: Tensor, beta: float, tol: float, b_norm: float,
       precision: JaxPrecisionType
-  ) -> Tuple[int, jax.ShapedArray, jax.ShapedArray, jax.ShapedArray]:
+  ) -> Tuple[int, Tensor, Tensor, Tensor]:
     """
     Builds the Arnoldi decomposition of (A, v), where v is the normalized
     residual of the current solution estimate. The decomposition is
@@ -1261,9 +1259,9 @@ def gmres_wrapper(jax: types.ModuleType):
     # sine: givens[1, :]
     givens = jnp.zeros((2, n_kry), dtype=x0.dtype)
     beta_vec = jnp.zeros((n_kry + 1), dtype=x0.dtype)
-    beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[0], beta)
+    beta_vec = beta_vec.at[0].set(beta)
     V = jnp.zeros((n, n_kry + 1), dtype=x0.dtype)
-    V = jax.ops.index_update(V, jax.ops.index[:, 0], v)
+    V = V.at[:, 0].set(v)
     R = jnp.zeros((n_kry + 1, n_kry), dtype=x0.dtype)
 
     # The variable data for the carry call. Each iteration modifies these
@@ -1293,12 +1291,12 @@ def gmres_wrapper(jax: types.ModuleType):
 
       V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, tol, precision)
       R_col, givens = apply_givens_rotation(H[:, k], givens, k)
-      R = jax.ops.index_update(R, jax.ops.index[:, k], R_col[:])
+      R = R.at[:, k].set(R_col[:])
 
       # Update the residual vector.
       cs, sn = givens[:, k] * beta_vec[k]
-      beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k], cs)
-      beta_vec = jax.ops.index_update(beta_vec, jax.ops.index[k + 1], sn)
+      beta_vec = beta_vec.at[k].set(cs)
+      beta_vec = beta_vec.at[k + 1].set(sn)
       err = jnp.abs(sn) / b_norm
       gmres_variables = (k + 1, V, R, beta_vec, err, givens)
       return (gmres_variables, gmres_constants)
@@ -1342,17 +1340,17 @@ def gmres_wrapper(jax: types.ModuleType):
     k, V, R, beta_vec, err, givens = gmres_variables
     return (k, V, R, beta_vec)
 
-  VarType = Tuple[int, jax.ShapedArray, jax.ShapedArray, jax.ShapedArray,
-                  float, jax.ShapedArray]
-  ConstType = Tuple[float, Callable, Sequence, jax.ShapedArray, int]
+  VarType = Tuple[int, Tensor, Tensor, Tensor,
+                  float, Tensor]
+  ConstType = Tuple[float, Callable, Sequence, Tensor, int]
   GmresCarryType = Tuple[VarType, ConstType]
 
 
   @functools.partial(jax.jit, static_argnums=(6,))
   def kth_arnoldi_step(
-      k: int, A_mv: Callable, A_args: Sequence, V: jax.ShapedArray,
-      H: jax.ShapedArray, tol: float,
-      precision: JaxPrecisionType) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+      k: int, A_mv: Callable, A_args: Sequence, V: Tensor,
+      H: Tensor, tol: float,
+      precision: JaxPrecisionType) -> Tuple[Tensor, Tensor]:
     """
     Performs the kth iteration of the Arnoldi reduction procedure.
     Args:
@@ -1368,8 +1366,8 @@ def gmres_wrapper(jax: types.ModuleType):
     """
 
     def _gs_step(
-        r: jax.ShapedArray,
-        v_i: jax.ShapedArray) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+        r: Tensor,
+        v_i: Tensor) -> Tuple[Tensor, Tensor]:
       """
       Performs one iteration of the stabilized Gram-Schmidt procedure, with
       r to be orthonormalized against {v} = {v_0, v_1, ...}.
@@ -1395,17 +1393,17 @@ def gmres_wrapper(jax: types.ModuleType):
                          lambda x: 0.*x[0],
                          (v_new, v_norm)
                          )
-    H = jax.ops.index_update(H, jax.ops.index[:, k], H_k)
-    H = jax.ops.index_update(H, jax.ops.index[k+1, k], v_norm)
-    V = jax.ops.index_update(V, jax.ops.index[:, k+1], r_new)
+    H = H.at[:, k].set(H_k)
+    H = H.at[k+1, k].set(v_norm)
+    V = V.at[:, k+1].set(r_new)
     return V, H
 
 ####################################################################
 # GIVENS ROTATIONS
 ####################################################################
   @jax.jit
-  def apply_rotations(H_col: jax.ShapedArray, givens: jax.ShapedArray,
-                      k: int) -> jax.ShapedArray:
+  def apply_rotations(H_col: Tensor, givens: Tensor,
+                      k: int) -> Tensor:
     """
     Successively applies each of the rotations stored in givens to H_col.
 
@@ -1429,8 +1427,8 @@ def gmres_wrapper(jax: types.ModuleType):
       sn = givens[1, i]
       H_i = cs * H_col[i] - sn * H_col[i + 1]
       H_ip1 = sn * H_col[i] + cs * H_col[i + 1]
-      H_col = jax.ops.index_update(H_col, jax.ops.index[i], H_i)
-      H_col = jax.ops.index_update(H_col, jax.ops.index[i + 1], H_ip1)
+      H_col = H_col.at[i].set(H_i)
+      H_col = H_col.at[i + 1].set(H_ip1)
       return (H_col, i + 1, k, givens)
 
     rotation_carry = jax.lax.while_loop(loop_condition,
@@ -1440,8 +1438,8 @@ def gmres_wrapper(jax: types.ModuleType):
     return H_col
 
   @jax.jit
-  def apply_givens_rotation(H_col: jax.ShapedArray, givens: jax.ShapedArray,
-                            k: int) -> Tuple[jax.ShapedArray, jax.ShapedArray]:
+  def apply_givens_rotation(H_col: Tensor, givens: Tensor,
+                            k: int) -> Tuple[Tensor, Tensor]:
     """
     Applies the Givens rotations stored in the vectors cs and sn to the vector
     H_col. Then constructs a new Givens rotation that eliminates H_col's
@@ -1465,12 +1463,12 @@ def gmres_wrapper(jax: types.ModuleType):
     H_col = apply_rotations(H_col, givens, k)
 
     cs_k, sn_k = givens_rotation(H_col[k], H_col[k + 1])
-    givens = jax.ops.index_update(givens, jax.ops.index[0, k], cs_k)
-    givens = jax.ops.index_update(givens, jax.ops.index[1, k], sn_k)
+    givens = givens.at[0, k].set(cs_k)
+    givens = givens.at[1, k].set(sn_k)
 
     r_k = cs_k * H_col[k] - sn_k * H_col[k + 1]
-    R_col = jax.ops.index_update(H_col, jax.ops.index[k], r_k)
-    R_col = jax.ops.index_update(R_col, jax.ops.index[k + 1], 0.)
+    R_col = H_col.at[k].set(r_k)
+    R_col = R_col.at[k + 1].set(0.)
     return R_col, givens
 
   @jax.jit
-- 
2.43.0


From 12ef88fe7453d7dbd735d8b920d772ae34d13a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:34 +0000
Subject: [PATCH 62/79] fix: DMRG energies can be computed on the tensorflow
 backend

---
 tensornetwork/matrixproductstates/dmrg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/matrixproductstates/dmrg.py b/tensornetwork/matrixproductstates/dmrg.py
index a288409..c60f3db 100644
--- a/tensornetwork/matrixproductstates/dmrg.py
+++ b/tensornetwork/matrixproductstates/dmrg.py
@@ -565,12 +565,13 @@ class BaseDMRG:
   def compute_energy(self):
     self.mps.position(0)  #move center position to the left end
     self.compute_right_envs()
-    return ncon([
+    energy = ncon([
         self.add_right_layer(self.right_envs[0], self.mps.tensors[0],
                              self.mpo.tensors[0]),
         self.left_envs[0],
     ], [[1, 2, 3], [1, 2, 3]],
-                backend=self.backend.name).item()
+                  backend=self.backend.name)
+    return self.backend.item(energy)
 
 
 class FiniteDMRG(BaseDMRG):
-- 
2.43.0


From 2742bf0602a3cac01e36b8d3bbba461b31b99d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:19 +0000
Subject: [PATCH 63/79] fix: numpy eigsh_lanczos leaves the initial state as it
 was

---
 tensornetwork/backends/numpy/numpy_backend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index 02f2cab..ae238af 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -490,9 +490,7 @@ class NumPyBackend(abstract_backend.AbstractBackend):
       raise TypeError("Expected a `np.ndarray`. Got {}".format(
           type(initial_state)))
 
-    vector_n = initial_state
-    Z = self.norm(vector_n)
-    vector_n /= Z
+    vector_n = initial_state / self.norm(initial_state)
     norms_vector_n = []
     diag_elements = []
     krylov_vecs = []
-- 
2.43.0


From 8607f153b7ec48f2d488a18be6a4a021bdd39ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:19 +0000
Subject: [PATCH 64/79] fix: eigsh_lanczos does not write into what the
 operator returns

---
 tensornetwork/backends/numpy/numpy_backend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index ae238af..bb30fce 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -522,11 +522,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
             break
         first = False
         eigvalsold = eigvals[0:numeig]
+      A_vector_n = A_vector_n - krylov_vecs[-1] * diag_elements[-1]
       if it > 0:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
         A_vector_n -= (krylov_vecs[-2] * norms_vector_n[-1])
-      else:
-        A_vector_n -= (krylov_vecs[-1] * diag_elements[-1])
       vector_n = A_vector_n
 
     A_tridiag = np.diag(diag_elements) + np.diag(
-- 
2.43.0


From bcf2cbae1d2bd07e9995dc44dfc5766047b6a75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:19 +0000
Subject: [PATCH 65/79] fix: gmres solves systems whose operator returns its
 argument

---
 tensornetwork/backends/numpy/numpy_backend.py         | 4 ++--
 tensornetwork/backends/symmetric/symmetric_backend.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index bb30fce..a2241cf 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -403,8 +403,8 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     def matvec(v):
       v_tensor = v.reshape(b.shape)
       Av = A_mv(v_tensor, *A_args, **A_kwargs)
-      Avec = Av.ravel()
-      return Avec
+      # `Av` can be `v` itself, which belongs to the solver.
+      return Av.flatten()
 
     A_shape = (b.size, b.size)
     A_op = sp.sparse.linalg.LinearOperator(matvec=matvec,
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index c6a3e71..412ef78 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -589,7 +589,8 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
       tmp.data = vector
       res = A_mv(tmp, *A_args, **A_kwargs)
       res.contiguous(inplace=True)
-      return res.data
+      # `res` can be `tmp` itself, whose data belongs to the solver.
+      return res.data.copy()
 
     dim = len(x0.data)
     A_op = sp.sparse.linalg.LinearOperator(
-- 
2.43.0


From 4fce0e625c2fee91d613d0b49959a2a775f6334e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:19 +0000
Subject: [PATCH 66/79] fix: gmres can be called with the default Krylov space

---
 tensornetwork/backends/abstract_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tensornetwork/backends/abstract_backend.py b/tensornetwork/backends/abstract_backend.py
index b9f3993..8d1ba87 100644
--- a/tensornetwork/backends/abstract_backend.py
+++ b/tensornetwork/backends/abstract_backend.py
@@ -591,7 +591,7 @@ class AbstractBackend:
 
       x0 = self.reshape(x0, (N,))
 
-    if num_krylov_vectors > N:
+    if num_krylov_vectors is None or num_krylov_vectors > N:
       num_krylov_vectors = N
 
     if tol < 0:
-- 
2.43.0


From d24ffc6fdee1f7e69c175b412b90e292871ea5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:33 +0000
Subject: [PATCH 67/79] fix: jax gmres does not reuse operators of other shapes
 or solvers

---
 tensornetwork/backends/jax/jax_backend.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tensornetwork/backends/jax/jax_backend.py b/tensornetwork/backends/jax/jax_backend.py
index aba8819..58cca27 100644
--- a/tensornetwork/backends/jax/jax_backend.py
+++ b/tensornetwork/backends/jax/jax_backend.py
@@ -692,18 +692,22 @@ class JaxBackend(abstract_backend.AbstractBackend):
       raise NotImplementedError("A_kwargs is not supported by the Jax backend.")
 
 
-    if A_mv not in _CACHED_MATVECS:
+    # The eigensolvers cache `A_mv` itself; `matrix_matvec` depends on the
+    # shape of `b` as well.
+    bshape = tuple(b.shape)
+    key = ("gmres", A_mv, bshape)
+    if key not in _CACHED_MATVECS:
       @libjax.tree_util.Partial
       def matrix_matvec(x, *args):
-        x = x.reshape(b.shape)
+        x = x.reshape(bshape)
         result = A_mv(x, *args)
         return result.ravel()
-      _CACHED_MATVECS[A_mv] = matrix_matvec
+      _CACHED_MATVECS[key] = matrix_matvec
 
     if "gmres" not in _CACHED_FUNCTIONS:
       _CACHED_FUNCTIONS["gmres"] = jitted_functions.gmres_wrapper(libjax)
     gmres_m = _CACHED_FUNCTIONS["gmres"].gmres_m
-    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[A_mv], A_args, b.ravel(),
+    x, _, n_iter, converged = gmres_m(_CACHED_MATVECS[key], A_args, b.ravel(),
                                       x0, tol, atol, num_krylov_vectors,
                                       maxiter, self.jax_precision)
     if converged:
-- 
2.43.0


From 004c8c5385bbf346aa0eaa5291e3055075379f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:31 +0000
Subject: [PATCH 68/79] fix: eigsh_lanczos stops when the Krylov space is
 exhausted in single precision

---
 .../backends/jax/jitted_functions.py          | 44 +++++++++++++------
 tensornetwork/backends/numpy/numpy_backend.py |  4 +-
 .../backends/symmetric/symmetric_backend.py   |  6 ++-
 3 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index fcf2869..5c22f87 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -174,11 +174,23 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
 
       return [krylov_vectors, alphas, betas, i + 1]
 
+    def exhausted(alphas, betas, i):
+      # `True` if the last Krylov vector was a residual below `landelta`, or
+      # at the level of the rounding errors of the previous steps.
+      steps = jax.numpy.arange(ncv)
+      scale = jax.numpy.max(
+          jax.numpy.where(
+              steps < i - 2,
+              jax.numpy.abs(alphas) + (steps > 0) * jax.numpy.abs(betas[1:]),
+              0.0))
+      rounding = 10 * jax.numpy.finfo(dtype).eps * scale
+      return jax.numpy.logical_not(
+          jax.numpy.abs(betas[i - 1]) > jax.numpy.maximum(landelta, rounding))
+
     def cond_fun(vals):
-      betas, i = vals[-2], vals[-1]
-      norm = betas[i - 1]
-      return jax.lax.cond(i <= ncv, lambda x: x[0] > x[1], lambda x: False,
-                          [norm, landelta])
+      _, alphas, betas, i = vals
+      return jax.numpy.logical_and(
+          i <= ncv, jax.numpy.logical_not(exhausted(alphas, betas, i)))
 
     # note: ncv + 2 because the first vector is all zeros, and the
     # last is the unnormalized residual.
@@ -198,21 +210,25 @@ def _generate_jitted_eigsh_lanczos(jax: types.ModuleType) -> Callable:
     initvals = [krylov_vecs, alphas, betas, 1]
     krylov_vecs, alphas, betas, numits = jax.lax.while_loop(
         cond_fun, body_lanczos, initvals)
-    # FIXME (mganahl): if the while_loop stopps early at iteration i, alphas
-    # and betas are 0.0 at positions n >= i - 1. eigh will then wrongly give
-    # degenerate eigenvalues 0.0. JAX does currently not support
-    # dynamic slicing with variable slice sizes, so these beta values
-    # can't be truncated. Thus, if numeig >= i - 1, jitted_lanczos returns
-    # a set of spurious eigen vectors and eigen values.
-    # If algebraically small EVs are desired, one can initialize `alphas` with
-    # large positive values, thus pushing the spurious eigenvalues further
-    # away from the desired ones (similar for algebraically large EVs)
+    # If the while_loop stops early, only the first `used` Krylov vectors are
+    # valid. JAX does currently not support dynamic slicing with variable slice
+    # sizes. The remaining diagonal elements are hence set to a value above
+    # all eigenvalues, such that the spurious ones come last. If
+    # numeig > `used`, jitted_lanczos still returns spurious eigenvectors.
+    used = numits - 1 - exhausted(alphas, betas, numits)
+    used = jax.numpy.maximum(used, 1)
+    steps = jax.numpy.arange(ncv)
+    betas = betas.at[1:].multiply(steps < used)
+    alphas = jax.numpy.where(steps < used, alphas, 0.0)
+    bound = jax.numpy.max(jax.numpy.abs(alphas)) + 2 * jax.numpy.max(
+        jax.numpy.abs(betas[1:] * (steps > 0)))
+    alphas = jax.numpy.where(steps < used, alphas, 2 * bound + 1)
 
     #FIXME: replace with eigh_banded once JAX supports it
     A_tridiag = jax.numpy.diag(alphas) + jax.numpy.diag(
         betas[2:], 1) + jax.numpy.diag(jax.numpy.conj(betas[2:]), -1)
     eigvals, U = jax.numpy.linalg.eigh(A_tridiag)
-    eigvals = eigvals.astype(dtype)
+    eigvals = jax.numpy.where(steps < used, eigvals, 0.0).astype(dtype)
 
     # expand eigenvectors in krylov basis
     def body_vector(i, vals):
diff --git a/tensornetwork/backends/numpy/numpy_backend.py b/tensornetwork/backends/numpy/numpy_backend.py
index a2241cf..bd77f2f 100644
--- a/tensornetwork/backends/numpy/numpy_backend.py
+++ b/tensornetwork/backends/numpy/numpy_backend.py
@@ -499,7 +499,9 @@ class NumPyBackend(abstract_backend.AbstractBackend):
     for it in range(num_krylov_vecs):
       #normalize the current vector:
       norm_vector_n = self.norm(vector_n)
-      if abs(norm_vector_n) < delta:
+      # residuals at the level of the rounding errors are no Krylov vectors
+      scale = np.max(np.abs(diag_elements + norms_vector_n[1:]), initial=0)
+      if abs(norm_vector_n) < max(delta, 10 * self.eps(vector_n.dtype) * scale):
         break
       norms_vector_n.append(norm_vector_n)
       vector_n = vector_n / norms_vector_n[-1]
diff --git a/tensornetwork/backends/symmetric/symmetric_backend.py b/tensornetwork/backends/symmetric/symmetric_backend.py
index 412ef78..281c9b3 100644
--- a/tensornetwork/backends/symmetric/symmetric_backend.py
+++ b/tensornetwork/backends/symmetric/symmetric_backend.py
@@ -388,7 +388,11 @@ class SymmetricBackend(abstract_backend.AbstractBackend):
       for it in range(num_krylov_vecs):
         # normalize the current vector:
         norm_vector_n = self.norm(vector_n)
-        if abs(norm_vector_n) < delta:
+        # residuals at the level of the rounding errors are no Krylov vectors
+        scale = numpy.max(
+            numpy.abs(diag_elements + norms_vector_n[1:]), initial=0)
+        precision = numpy.finfo(vector_n.dtype).eps
+        if abs(norm_vector_n) < max(delta, 10 * precision * scale):
           # we found an invariant subspace, time to stop
           break
         norms_vector_n.append(norm_vector_n)
-- 
2.43.0


From 14ecac513fdb48c277af3e6937fca95aac972c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:33 +0000
Subject: [PATCH 69/79] fix: jax gmres restarts from the last iterate, meets
 its tolerance and counts restarts

---
 .../backends/jax/jitted_functions.py          | 35 ++++++++++---------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 5c22f87..9c1d237 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -1164,7 +1164,7 @@ def gmres_wrapper(jax: types.ModuleType):
                             b_norm, precision)
       if done:
         break
-    return x, beta, n_iter, done
+    return x, beta, n_iter + 1, done
 
   def gmres(A_mv: Callable, A_args: Sequence, b: Tensor,
             x: Tensor, num_krylov_vectors: int, x0: Tensor,
@@ -1188,9 +1188,10 @@ def gmres_wrapper(jax: types.ModuleType):
     """
     r, beta = gmres_residual(A_mv, A_args, b, x)
     k, V, R, beta_vec = gmres_krylov(A_mv, A_args, num_krylov_vectors,
-                                     x0, r, beta, tol, b_norm, precision)
-    x = gmres_update(k, V, R, beta_vec, x0)
-    done = k < num_krylov_vectors - 1
+                                     x, r, beta, tol, b_norm, precision)
+    x = gmres_update(k, V, R, beta_vec, x)
+    beta = jnp.abs(beta_vec[k])
+    done = beta <= tol
     return done, beta, x
 
   @jax.jit
@@ -1305,15 +1306,17 @@ def gmres_wrapper(jax: types.ModuleType):
       k, V, R, beta_vec, err, givens = gmres_variables
       tol, A_mv, A_args, b_norm, _ = gmres_constants
 
-      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, tol, precision)
+      rounding = 10 * jnp.finfo(x0.dtype).eps
+      V, H = kth_arnoldi_step(k, A_mv, A_args, V, R, rounding, precision)
       R_col, givens = apply_givens_rotation(H[:, k], givens, k)
       R = R.at[:, k].set(R_col[:])
 
       # Update the residual vector.
-      cs, sn = givens[:, k] * beta_vec[k]
+      cs = jnp.conj(givens[0, k]) * beta_vec[k]
+      sn = givens[1, k] * beta_vec[k]
       beta_vec = beta_vec.at[k].set(cs)
       beta_vec = beta_vec.at[k + 1].set(sn)
-      err = jnp.abs(sn) / b_norm
+      err = jnp.abs(sn)
       gmres_variables = (k + 1, V, R, beta_vec, err, givens)
       return (gmres_variables, gmres_constants)
 
@@ -1332,7 +1335,7 @@ def gmres_wrapper(jax: types.ModuleType):
       Returns:
         (bool): Whether to continue iterating.
       """
-      gmres_constants, gmres_variables = gmres_carry
+      gmres_variables, gmres_constants = gmres_carry
       tol = gmres_constants[0]
       k = gmres_variables[0]
       err = gmres_variables[4]
@@ -1343,7 +1346,7 @@ def gmres_wrapper(jax: types.ModuleType):
 
       def not_converged(args):
         err, tol = args
-        return err >= tol
+        return err > tol
       return jax.lax.cond(is_iterating(k, n_kry),   # Predicate.
                           not_converged,            # Called if True.
                           lambda x: False,          # Called if False.
@@ -1402,9 +1405,8 @@ def gmres_wrapper(jax: types.ModuleType):
     v = A_mv(V[:, k], *A_args)
     v_new, H_k = jax.lax.scan(_gs_step, init=v, xs=V.T)
     v_norm = jnp.linalg.norm(v_new)
-    r_new = v_new / v_norm
     #  Normalize v unless it is the zero vector.
-    r_new = jax.lax.cond(v_norm > tol,
+    r_new = jax.lax.cond(v_norm > tol * jnp.linalg.norm(v),
                          lambda x: x[0] / x[1],
                          lambda x: 0.*x[0],
                          (v_new, v_norm)
@@ -1441,7 +1443,7 @@ def gmres_wrapper(jax: types.ModuleType):
       H_col, i, k, givens = carry
       cs = givens[0, i]
       sn = givens[1, i]
-      H_i = cs * H_col[i] - sn * H_col[i + 1]
+      H_i = jnp.conj(cs) * H_col[i] - jnp.conj(sn) * H_col[i + 1]
       H_ip1 = sn * H_col[i] + cs * H_col[i + 1]
       H_col = H_col.at[i].set(H_i)
       H_col = H_col.at[i + 1].set(H_ip1)
@@ -1482,7 +1484,7 @@ def gmres_wrapper(jax: types.ModuleType):
     givens = givens.at[0, k].set(cs_k)
     givens = givens.at[1, k].set(sn_k)
 
-    r_k = cs_k * H_col[k] - sn_k * H_col[k + 1]
+    r_k = jnp.conj(cs_k) * H_col[k] - jnp.conj(sn_k) * H_col[k + 1]
     R_col = H_col.at[k].set(r_k)
     R_col = R_col.at[k + 1].set(0.)
     return R_col, givens
@@ -1491,14 +1493,15 @@ def gmres_wrapper(jax: types.ModuleType):
   def givens_rotation(v1: float, v2: float) -> Tuple[float, float]:
     """
     Given scalars v1 and v2, computes cs = cos(theta) and sn = sin(theta)
-    so that   [cs  -sn]  @ [v1] = [r]
-              [sn   cs]    [v2]   [0]
+    so that   [cs* -sn*]  @ [v1] = [r]
+              [sn   cs ]    [v2]   [0]
+    where the asterisk denotes complex conjugation.
     Args:
       v1, v2: The scalars.
     Returns:
       cs, sn: The rotation factors.
     """
-    t = jnp.sqrt(v1**2 + v2**2)
+    t = jnp.sqrt(jnp.abs(v1)**2 + jnp.abs(v2)**2)
     cs = v1 / t
     sn = -v2 / t
     return cs, sn
-- 
2.43.0


From e8d0982febc402bd34ad665a95a52951068f82a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:04 +0000
Subject: [PATCH 70/79] fix: jax eigs and eigsh return proper eigenvalues
 rather than the zeros of unused Krylov vectors

---
 .../backends/jax/jitted_functions.py          | 64 +++++++++++++------
 1 file changed, 46 insertions(+), 18 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 9c1d237..8b5a361 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -620,6 +620,29 @@ def _shifted_QR(jax):
     return Vm, Hm, fk
   return shifted_QR
 
+def _unused_krylov_vectors(jax):
+  """
+  Helper functions that keep the eigenvalues of Krylov vectors which were never
+  filled in apart from the proper ones, whatever eigenvalues are targeted.
+  """
+  @jax.jit
+  def shift_unused(Hm: Tensor, numits: int) -> Tuple[Tensor, Tensor]:
+    # moves the spurious eigenvalues away from the spectrum of the block
+    # Hm[:numits, :numits] (all other elements of `Hm` are 0.0)
+    unused = jax.numpy.arange(Hm.shape[0]) >= numits
+    shift = 2 * jax.numpy.linalg.norm(Hm) + 1
+    return Hm + jax.numpy.diag((unused * shift).astype(Hm.dtype)), unused
+
+  @jax.jit
+  def unused_last(eigvals: Tensor, U: Tensor, unused: Tensor,
+                  inds: Tensor) -> Tuple[Tensor, Tensor]:
+    weights = jax.numpy.sum(jax.numpy.abs(U)**2 * unused[:, None], axis=0)
+    spurious = weights > 0.5
+    order = jax.numpy.argsort(spurious[inds], kind='stable')
+    return jax.numpy.where(spurious, 0.0, eigvals), inds[order]
+
+  return shift_unused, unused_last
+
 def _get_vectors(jax):
   @functools.partial(jax.jit, static_argnums=(3,))
   def get_vectors(Vm: Tensor, unitary: Tensor,
@@ -780,6 +803,7 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
     shifted_QR = _shifted_QR(jax)
     check_eigvals_convergence = _check_eigvals_convergence_eig(jax)
     get_vectors = _get_vectors(jax)
+    shift_unused, unused_last = _unused_krylov_vectors(jax)
 
     # sort_fun returns `num_expand` least relevant eigenvalues
     # (those to be projected out)
@@ -791,22 +815,21 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
       raise ValueError(f"which = {which} not implemented")
 
     it = 1  # we already did one arnoldi factorization
-    if maxiter > 1:
-      # cast arrays to correct complex dtype
-      if Vm.dtype == np.float64:
-        dtype = np.complex128
-      elif Vm.dtype == np.float32:
-        dtype = np.complex64
-      elif Vm.dtype == np.complex128:
-        dtype = Vm.dtype
-      elif Vm.dtype == np.complex64:
-        dtype = Vm.dtype
-      else:
-        raise TypeError(f'dtype {Vm.dtype} not supported')
-
-      Vm = Vm.astype(dtype)
-      Hm = Hm.astype(dtype)
-      fm = fm.astype(dtype)
+    # cast arrays to correct complex dtype
+    if Vm.dtype == np.float64:
+      dtype = np.complex128
+    elif Vm.dtype == np.float32:
+      dtype = np.complex64
+    elif Vm.dtype == np.complex128:
+      dtype = Vm.dtype
+    elif Vm.dtype == np.complex64:
+      dtype = Vm.dtype
+    else:
+      raise TypeError(f'dtype {Vm.dtype} not supported')
+
+    Vm = Vm.astype(dtype)
+    Hm = Hm.astype(dtype)
+    fm = fm.astype(dtype)
 
     def outer_loop(carry):
       Hm, Vm, fm, it, numits, ar_converged, _, _, = carry
@@ -878,8 +901,10 @@ def _implicitly_restarted_arnoldi(jax: types.ModuleType) -> Callable:
 
     Hm = (numits > jax.numpy.arange(num_krylov_vecs))[:, None] * Hm * (
         numits > jax.numpy.arange(num_krylov_vecs))[None, :]
+    Hm, unused = shift_unused(Hm, numits)
     eigvals, U = jax.numpy.linalg.eig(Hm)
-    inds = sort_fun(eigvals)[1][:numeig]
+    eigvals, inds = unused_last(eigvals, U, unused, sort_fun(eigvals)[1])
+    inds = inds[:numeig]
     vectors = get_vectors(Vm, U, inds, numeig)
     return eigvals[inds], [
         jax.numpy.reshape(vectors[n, :], shape)
@@ -1004,6 +1029,7 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
     shifted_QR = _shifted_QR(jax)
     check_eigvals_convergence = _check_eigvals_convergence_eigh(jax)
     get_vectors = _get_vectors(jax)
+    shift_unused, unused_last = _unused_krylov_vectors(jax)
 
     # sort_fun returns `num_expand` least relevant eigenvalues
     # (those to be projected out)
@@ -1086,8 +1112,10 @@ def _implicitly_restarted_lanczos(jax: types.ModuleType) -> Callable:
     Hm = (numits > jax.numpy.arange(num_krylov_vecs))[:, None] * Hm * (
         numits > jax.numpy.arange(num_krylov_vecs))[None, :]
 
+    Hm, unused = shift_unused(Hm, numits)
     eigvals, U = jax.numpy.linalg.eigh(Hm)
-    inds = sort_fun(eigvals)[1][:numeig]
+    eigvals, inds = unused_last(eigvals, U, unused, sort_fun(eigvals)[1])
+    inds = inds[:numeig]
     vectors = get_vectors(Vm, U, inds, numeig)
     return eigvals[inds], [
         jax.numpy.reshape(vectors[n, :], shape) for n in range(numeig)
-- 
2.43.0


From 4779418c38c0ae5618fe82009b9ea724460e0a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:40 +0000
Subject: [PATCH 71/79] fix: jax eigensolvers do not pass a sort kind that
 current jax rejects

---
 tensornetwork/backends/jax/jitted_functions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/backends/jax/jitted_functions.py b/tensornetwork/backends/jax/jitted_functions.py
index 8b5a361..21b2c7b 100644
--- a/tensornetwork/backends/jax/jitted_functions.py
+++ b/tensornetwork/backends/jax/jitted_functions.py
@@ -557,7 +557,7 @@ def _LR_sort(jax):
   def sorter(
       p: int,
       evals: Tensor) -> Tuple[Tensor, Tensor]:
-    inds = jax.numpy.argsort(jax.numpy.real(evals), kind='stable')[::-1]
+    inds = jax.numpy.argsort(jax.numpy.real(evals))[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -567,7 +567,7 @@ def _SA_sort(jax):
   def sorter(
       p: int,
       evals: Tensor) -> Tuple[Tensor, Tensor]:
-    inds = jax.numpy.argsort(evals, kind='stable')
+    inds = jax.numpy.argsort(evals)
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -577,7 +577,7 @@ def _LA_sort(jax):
   def sorter(
       p: int,
       evals: Tensor) -> Tuple[Tensor, Tensor]:
-    inds = jax.numpy.argsort(evals, kind='stable')[::-1]
+    inds = jax.numpy.argsort(evals)[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -587,7 +587,7 @@ def _LM_sort(jax):
   def sorter(
       p: int,
       evals: Tensor) -> Tuple[Tensor, Tensor]:
-    inds = jax.numpy.argsort(jax.numpy.abs(evals), kind='stable')[::-1]
+    inds = jax.numpy.argsort(jax.numpy.abs(evals))[::-1]
     shifts = evals[inds][-p:]
     return shifts, inds
   return sorter
@@ -638,7 +638,7 @@ def _unused_krylov_vectors(jax):
                   inds: Tensor) -> Tuple[Tensor, Tensor]:
     weights = jax.numpy.sum(jax.numpy.abs(U)**2 * unused[:, None], axis=0)
     spurious = weights > 0.5
-    order = jax.numpy.argsort(spurious[inds], kind='stable')
+    order = jax.numpy.argsort(spurious[inds])
     return jax.numpy.where(spurious, 0.0, eigvals), inds[order]
 
   return shift_unused, unused_last
-- 
2.43.0


From 2739b84fa18d41358886952c6408ab9c5d5a015f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:58 +0000
Subject: [PATCH 72/79] fix: Keras layers accept inputs with unknown leading
 dimensions

---
 tensornetwork/tn_keras/condenser.py | 6 +++++-
 tensornetwork/tn_keras/dense.py     | 6 +++++-
 tensornetwork/tn_keras/entangler.py | 6 +++++-
 tensornetwork/tn_keras/expander.py  | 6 +++++-
 tensornetwork/tn_keras/mpo.py       | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/tensornetwork/tn_keras/condenser.py b/tensornetwork/tn_keras/condenser.py
index 16349ca..2e221dc 100644
--- a/tensornetwork/tn_keras/condenser.py
+++ b/tensornetwork/tn_keras/condenser.py
@@ -141,13 +141,17 @@ class DenseCondenser(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    leading_dims = [
+        tf.shape(inputs)[i] if input_shape[i] is None else input_shape[i]
+        for i in range(len(input_shape) - 1)
+    ]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.output_dim, self.exp_base, self.
                       num_nodes, self.use_bias, self.bias_var), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result, leading_dims + [self.output_dim,])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
diff --git a/tensornetwork/tn_keras/dense.py b/tensornetwork/tn_keras/dense.py
index 27b5ff2..b1b90b3 100644
--- a/tensornetwork/tn_keras/dense.py
+++ b/tensornetwork/tn_keras/dense.py
@@ -130,13 +130,17 @@ class DenseDecomp(Layer):
 
       return result
     input_shape = list(inputs.shape)
+    leading_dims = [
+        tf.shape(inputs)[i] if input_shape[i] is None else input_shape[i]
+        for i in range(len(input_shape) - 1)
+    ]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.a_var, self.b_var, self.use_bias, self.bias_var
                      ), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result, leading_dims + [self.output_dim,])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
diff --git a/tensornetwork/tn_keras/entangler.py b/tensornetwork/tn_keras/entangler.py
index 0422ed8..2767d19 100644
--- a/tensornetwork/tn_keras/entangler.py
+++ b/tensornetwork/tn_keras/entangler.py
@@ -177,13 +177,17 @@ class DenseEntangler(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    leading_dims = [
+        tf.shape(inputs)[i] if input_shape[i] is None else input_shape[i]
+        for i in range(len(input_shape) - 1)
+    ]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.num_legs, self.
                       leg_dim, self.use_bias, self.bias_var), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result, leading_dims + [self.output_dim,])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
diff --git a/tensornetwork/tn_keras/expander.py b/tensornetwork/tn_keras/expander.py
index a8ed2d5..1921ee1 100644
--- a/tensornetwork/tn_keras/expander.py
+++ b/tensornetwork/tn_keras/expander.py
@@ -141,13 +141,17 @@ class DenseExpander(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    leading_dims = [
+        tf.shape(inputs)[i] if input_shape[i] is None else input_shape[i]
+        for i in range(len(input_shape) - 1)
+    ]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.use_bias, self.
                       bias_var), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result, leading_dims + [self.output_dim,])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index a7247bb..8770dc7 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -176,13 +176,17 @@ class DenseMPO(Layer):
       return result
 
     input_shape = list(inputs.shape)
+    leading_dims = [
+        tf.shape(inputs)[i] if input_shape[i] is None else input_shape[i]
+        for i in range(len(input_shape) - 1)
+    ]
     inputs = tf.reshape(inputs, (-1, input_shape[-1]))
     result = tf.vectorized_map(
         lambda vec: f(vec, self.nodes, self.num_nodes, self.in_leg_dim, self.
                       output_dim, self.use_bias, self.bias_var), inputs)
     if self.activation is not None:
       result = self.activation(result)
-    result = tf.reshape(result, [-1] + input_shape[1:-1] + [self.output_dim,])
+    result = tf.reshape(result, leading_dims + [self.output_dim,])
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
-- 
2.43.0


From b75fa0614f0a3cb77efee30b218350c838b93cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:58 +0000
Subject: [PATCH 73/79] fix: Conv2DMPO adds its bias to the filter axis of
 channels_first outputs

---
 tensornetwork/tn_keras/conv2d_mpo.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 2382833..01ed7d5 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -219,8 +219,7 @@ class Conv2DMPO(Layer):
                           dilations=self.dilation_rate)
 
     if self.use_bias:
-      bias = tf.reshape(self.bias_var, (1, self.filters,))
-      result += bias
+      result = tf.nn.bias_add(result, self.bias_var, data_format=tf_df)
 
     if self.activation is not None:
       result = self.activation(result)
-- 
2.43.0


From e1926c8e91bb2d1ae653f269ace1beee8fc1121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:58 +0000
Subject: [PATCH 74/79] fix: the output shape of condenser and expander layers
 is known before they are built

---
 tensornetwork/tn_keras/condenser.py | 3 ++-
 tensornetwork/tn_keras/expander.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/tensornetwork/tn_keras/condenser.py b/tensornetwork/tn_keras/condenser.py
index 2e221dc..724f3e6 100644
--- a/tensornetwork/tn_keras/condenser.py
+++ b/tensornetwork/tn_keras/condenser.py
@@ -155,7 +155,8 @@ class DenseCondenser(Layer):
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
-    return tuple(input_shape[0:-1]) + (self.output_dim,)
+    output_dim = input_shape[-1] // (self.exp_base**self.num_nodes)
+    return tuple(input_shape[0:-1]) + (output_dim,)
 
   def get_config(self) -> dict:
     """Returns the config of the layer.
diff --git a/tensornetwork/tn_keras/expander.py b/tensornetwork/tn_keras/expander.py
index 1921ee1..2f31940 100644
--- a/tensornetwork/tn_keras/expander.py
+++ b/tensornetwork/tn_keras/expander.py
@@ -155,7 +155,8 @@ class DenseExpander(Layer):
     return result
 
   def compute_output_shape(self, input_shape: List[int]) -> Tuple[int, int]:
-    return tuple(input_shape[0:-1]) + (self.output_dim,)
+    output_dim = input_shape[-1] * (self.exp_base**self.num_nodes)
+    return tuple(input_shape[0:-1]) + (output_dim,)
 
   def get_config(self) -> dict:
     """Returns the config of the layer.
-- 
2.43.0


From 67475bee1e467857b90b26c3510c5b53c0a58c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:58 +0000
Subject: [PATCH 75/79] fix: MPO layers take the nearest integer root for their
 leg dimensions

---
 tensornetwork/tn_keras/conv2d_mpo.py | 5 ++---
 tensornetwork/tn_keras/mpo.py        | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/tn_keras/conv2d_mpo.py b/tensornetwork/tn_keras/conv2d_mpo.py
index 01ed7d5..b2e9990 100644
--- a/tensornetwork/tn_keras/conv2d_mpo.py
+++ b/tensornetwork/tn_keras/conv2d_mpo.py
@@ -7,7 +7,6 @@ from tensorflow.python.keras.utils import conv_utils #pylint: disable=no-name-in
 from typing import List, Tuple, Text, Optional, Union
 import numpy as np
 import tensornetwork as tn
-import math
 
 # pytype: disable=module-attr
 @tf.keras.utils.register_keras_serializable(package='tensornetwork')# pylint: disable=no-member
@@ -161,8 +160,8 @@ class Conv2DMPO(Layer):
 
     super().build(input_shape)
 
-    in_leg_dim = math.ceil(channels**(1. / self.num_nodes))
-    out_leg_dim = math.ceil(self.filters**(1. / self.num_nodes))
+    in_leg_dim = round(channels**(1. / self.num_nodes))
+    out_leg_dim = round(self.filters**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
diff --git a/tensornetwork/tn_keras/mpo.py b/tensornetwork/tn_keras/mpo.py
index 8770dc7..372f8be 100644
--- a/tensornetwork/tn_keras/mpo.py
+++ b/tensornetwork/tn_keras/mpo.py
@@ -7,7 +7,6 @@ from typing import List, Optional, Text, Tuple
 import tensornetwork as tn
 from tensornetwork.network_components import Node
 import numpy as np
-import math
 
 
 # pytype: disable=module-attr
@@ -108,8 +107,8 @@ class DenseMPO(Layer):
 
     super().build(input_shape)
 
-    self.in_leg_dim = math.ceil(input_dim**(1. / self.num_nodes))
-    self.out_leg_dim = math.ceil(self.output_dim**(1. / self.num_nodes))
+    self.in_leg_dim = round(input_dim**(1. / self.num_nodes))
+    self.out_leg_dim = round(self.output_dim**(1. / self.num_nodes))
 
     self.nodes.append(
         self.add_weight(name='end_node_first',
-- 
2.43.0


From 83497c4100fef08dc23aca041a350627b0358be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:03 +0000
Subject: [PATCH 76/79] fix: read one-shot iterables of nodes or edges only
 once

replicate_nodes, get_subgraph_dangling, check_correct and reduced_density
are annotated as taking an Iterable, but iterated over their argument more
than once. Given a generator, replicate_nodes returned an empty list and
get_subgraph_dangling reported every edge as dangling; the contractors
rejected valid output edge orders.
---
 .../contractors/opt_einsum_paths/path_contractors.py  | 11 ++++++-----
 tensornetwork/network_operations.py                   |  6 +++++-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
index e5c1a5d..07508a0 100644
--- a/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
+++ b/tensornetwork/contractors/opt_einsum_paths/path_contractors.py
@@ -59,13 +59,13 @@ def base(nodes: Iterable[AbstractNode],
 
   if not ignore_edge_order:
     if output_edge_order is None:
-      output_edge_order = list(get_subgraph_dangling(nodes))
+      output_edge_order = list(get_subgraph_dangling(nodes_set))
       if len(output_edge_order) > 1:
         raise ValueError("The final node after contraction has more than "
                          "one remaining edge. In this case `output_edge_order` "
                          "has to be provided.")
 
-    if (set(output_edge_order) != get_subgraph_dangling(nodes) or
+    if (set(output_edge_order) != get_subgraph_dangling(nodes_set) or
         len(set(output_edge_order)) != len(output_edge_order)):
       raise ValueError("output edges are not equal to the remaining "
                        "non-contracted edges of the final node.")
@@ -216,7 +216,8 @@ def auto(nodes: Iterable[AbstractNode],
     Final node after full contraction.
   """
 
-  n = len(list(nodes))  #pytype thing
+  nodes = list(nodes)
+  n = len(nodes)
   if n <= 0:
     raise ValueError("Cannot contract empty tensor network.")
   if n < 5:
@@ -303,8 +304,8 @@ def path_solver(
   elif algorithm == "greedy":
     alg = functools.partial(opt_einsum.paths.greedy, memory_limit=memory_limit)
   elif algorithm == "auto":
-    n = len(list(nodes))  #pytype thing
-    _nodes = nodes
+    nodes = list(nodes)
+    n = len(nodes)
     if n <= 1:
       return []
     if n < 5:
diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 5810226..155091a 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -102,6 +102,7 @@ def replicate_nodes(nodes: Iterable[AbstractNode],
   Returns:
     A list containing the copies of the nodes.
   """
+  nodes = list(nodes)
   new_nodes, _ = copy(nodes, conjugate=conjugate)
   return [new_nodes[node] for node in nodes]
 
@@ -657,6 +658,7 @@ def check_correct(nodes: Iterable[AbstractNode],
     ValueError: If the network defined by `nodes` is not
       correctly structured.
   """
+  nodes = list(nodes)
   for node in nodes:
     for i, edge in enumerate(node.edges):
       if edge.node1 is not node and edge.node2 is not node:
@@ -731,8 +733,9 @@ def get_subgraph_dangling(nodes: Iterable[AbstractNode]) -> Set[Edge]:
     The set of "relatively dangling" edges.
   """
   output = set()
+  nodes = set(nodes)
   for edge in get_all_edges(nodes):
-    if edge.is_dangling() or not set(edge.get_nodes()) <= set(nodes):
+    if edge.is_dangling() or not set(edge.get_nodes()) <= nodes:
       output.add(edge)
   return output
 
@@ -779,6 +782,7 @@ def reduced_density(traced_out_edges: Iterable[Edge]) -> Tuple[dict, dict]:
         conjugate copies.
   """
 
+  traced_out_edges = list(traced_out_edges)
   if list(filter(lambda x: not x.is_dangling(), traced_out_edges)):
     raise ValueError("traced_out_edges must only include dangling edges!")
 
-- 
2.43.0


From 5024a4cab322ae1c5fedded2d7ea3b9a67dea9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:43 +0000
Subject: [PATCH 77/79] fix: split_edge rejects bad names and negative shapes
 before changing anything

A wrong number of new_edge_names, or a shape with negative entries whose
product matches, raised only after the node's axes had been permuted and
its tensor reshaped, leaving the network inconsistent.
---
 tensornetwork/network_components.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index b71be7f..023d444 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -1606,6 +1606,14 @@ def split_edge(edge: Edge,
   if len(shape) == 1:
     return [edge]
 
+  # Reject what cannot be done before anything is changed.
+  if any(dim < 0 for dim in shape):
+    raise ValueError("Edge {} cannot be split according to shape {}: "
+                     "dimensions must not be negative.".format(edge, shape))
+  if new_edge_names is not None and len(new_edge_names) != len(shape):
+    raise ValueError("Expected {} new edge names, got {}.".format(
+        len(shape), new_edge_names))
+
   # Handle trace edge case separately.
   if edge.is_trace():
     return _split_trace_edge(edge, shape, new_edge_names)
-- 
2.43.0


From 9613c8c5fab9743b256f581b4e6e178bc66c997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:00 +0000
Subject: [PATCH 78/79] fix: switch_backend checks every node before converting
 any

---
 tensornetwork/network_operations.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tensornetwork/network_operations.py b/tensornetwork/network_operations.py
index 155091a..48febbe 100644
--- a/tensornetwork/network_operations.py
+++ b/tensornetwork/network_operations.py
@@ -812,6 +812,7 @@ def switch_backend(nodes: Iterable[AbstractNode], new_backend: Text) -> None:
   Returns:
     None
   """
+  nodes = list(nodes)
   if new_backend == 'symmetric':
     if np.all([n.backend.name == 'symmetric' for n in nodes]):
       return
@@ -823,7 +824,9 @@ def switch_backend(nodes: Iterable[AbstractNode], new_backend: Text) -> None:
       raise NotImplementedError("Can only switch backends when the current "
                                 "backend is 'numpy'. Current backend "
                                 "is '{}'".format(node.backend))
-    node.tensor = backend.convert_to_tensor(node.tensor)
+  tensors = [backend.convert_to_tensor(node.tensor) for node in nodes]
+  for node, tensor in zip(nodes, tensors):
+    node.tensor = tensor
     node.backend = backend
 
 
-- 
2.43.0


From 343c5c2268b9b8942333580b603d1f9e51f5d5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:51 +0000
Subject: [PATCH 79/79] fix: check the type of axis names before a contraction
 consumes its nodes

---
 tensornetwork/network_components.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tensornetwork/network_components.py b/tensornetwork/network_components.py
index 023d444..da54465 100644
--- a/tensornetwork/network_components.py
+++ b/tensornetwork/network_components.py
@@ -2170,6 +2170,8 @@ def _check_output(remaining_edges: List[Edge],
                      len(set(axis_names)) != len(axis_names)):
     raise ValueError("Expected {} distinct axis names, got {}.".format(
         len(remaining_edges), axis_names))
+  if axis_names and not all(isinstance(name, str) for name in axis_names):
+    raise TypeError("axis_names should be str type")
 
 
 def outer_product_final_nodes(nodes: Iterable[AbstractNode],
-- 
2.43.0

