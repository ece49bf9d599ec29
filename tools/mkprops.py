#!/usr/bin/env python3
"""Source of properties.jsonl (kept as Python so that it stays readable)."""
import json, os
NC="tensornetwork/network_components.py"; NO="tensornetwork/network_operations.py"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
  a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
  if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
  if observe: a["observe_at"]=observe
  a["hook_needed"]=None
  P.append({"id":id,"title":title,"statement":statement,
    "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("N01","Contraction steps never change the value of a network",
 "Contracting an edge or a pair of nodes (in any of the offered ways: one edge, all shared edges, parallel edges, trace edges, copy-node contraction, outer product, flattening and splitting edges, `@`) replaces the nodes involved by one node whose tensor is the sum over exactly the contracted indices of the product of the original tensors. The tensor described by the whole network over its dangling edges is therefore the same before and after every step, whatever the order of steps.",
 ["histories","inputs"],"every finite sequence of contraction operations on every network (any number of shared, trace and dangling edges, any axis order, any dimensions, integer data)",
 "Tests contract a handful of fixed small networks once and compare with one numpy expression; sequences mixing flatten, trace, split, reorder and contract on multigraphs are not sampled, and network_test/network_components tests are not even collected here (torch missing).",
 [NC,NO],
 [("contract / contract_between / contract_parallel / _contract_trace / outer_product / flatten_edges / split_edge",NC),("contract_copy_node, CopyNode.compute_contracted_tensor",NC),("contract_trace_edges, outer_product_final_nodes",NO)],
 [("nodes/edges","incidence multigraph plus a dense tensor per node",NC)],["Node.tensor, Node.edges, Edge.node1/node2/axis1/axis2 after each public call"])
p("N02","Edges and nodes stay mutually consistent",
 "After any sequence of operations every axis of every live node carries exactly one edge, every edge points back to the one (dangling) or two axes that carry it with equal dimensions on both sides, and no edge or node of the live network refers to a node that has been consumed. An edge consumed by contracting nodes, flattening or splitting raises when asked for its nodes, axes or name instead of answering from stale data, and a consumed node is left detached, with only dangling edges of its own.",
 ["histories"],"every finite sequence of connect, disconnect, contract, split, flatten, slice, copy, remove and reorder operations",
 "Unit tests inspect one or two edges after one call; dangling back-references only appear in particular shapes (trace edges, parallel edges, repeated splits) after several calls.",
 [NC,NO],
 [("connect/disconnect/_remove_edges/fresh_edges/fresh_node",NC),("check_correct, check_connected",NO),("split_node*, remove_node, redirect_edge",NO)],
 [("Node.edges","edge per axis",NC),("Edge.node1,node2,axis1,axis2","end points",NC)])
p("N03","Rejected operations leave the network untouched",
 "A request that is not meaningful for the current network (connecting unequal dimensions or non-dangling edges, contracting a dangling or consumed edge, flattening edges that do not join the same nodes, reordering with a wrong edge set, disconnecting a dangling edge, slicing out of range, contracting nodes that share nothing, an output order that is not exactly the remaining edges, moving nodes that are not all on numpy to another backend) raises an error. After the error the nodes, edges and tensors are exactly as before the request.",
 ["histories","inputs"],"every reachable network state and every ill-formed request on it",
 "Tests check that some errors are raised, never that the network is unchanged afterwards, and only from the freshly built state.",
 [NC,NO],
 [("argument checks at the head of each operation",NC),("reorder_edges/flatten_edges/contract_between checks",NC)])
p("N04","Axes, edge order and names follow the edges",
 "Reordering edges or axes permutes tensor, edges and axis names together, so every edge (and every name) still refers to the same index of the data; an explicit output edge order is realised exactly. Looking an axis, edge or dimension up by name, number or edge gives mutually consistent answers at all times.",
 ["histories","inputs"],"every node rank and permutation (including trace edges), every requested output edge order, after any history",
 "Existing tests use one or two fixed permutations of nodes whose axes mostly have equal or distinguishable sizes and never after splits/flattens.",
 [NC,NO],
 [("reorder_edges, reorder_axes, tensor_from_edge_order, get_axis_number, get_edge, add_axis_names",NC),("output_edge_order handling in contract_between/outer_product/contractors",NC)])
p("N05","Copies, conjugates and removed nodes are faithful and independent",
 "Copying or replicating a set of nodes yields a disjoint network with the same (or conjugated) tensors, names and connectivity, with complete maps from old to new nodes and edges; connections to nodes outside the set become dangling. Later changes to either network never affect the other, and removing a node only turns the edges it had into dangling edges, reported by name and by axis number.",
 ["inputs","histories"],"every network including trace edges, parallel edges, copy nodes, partial node sets, followed by any operations on original or copy",
 "copy tests use one or two fixed networks; trace edges and partial sets, and mutation after copying, are not covered.",
 [NC,NO],
 [("Node.copy, CopyNode.copy",NC),("copy, replicate_nodes, conj, transpose, remove_node",NO)])
p("N06","Structure queries describe the actual graph",
 "Reachability, neighbour, shared/parallel edge, dangling/non-dangling/trace edge, subgraph-boundary and connectivity queries return exactly the nodes and edges that the connection structure implies, without modifying the network. Connectivity and correctness checks accept every well-formed network and reject disconnected ones.",
 ["inputs"],"every graph (trees, cycles, multigraphs, self loops, several components) and every starting node, edge or subset",
 "Tests query a few tiny graphs.",
 [NC,NO],
 [("reachable, get_all_nodes, get_all_edges, get_all_nondangling, get_all_dangling, get_subgraph_dangling, get_neighbors, check_connected, check_correct",NO),("get_shared_edges, get_parallel_edges, get_all_nondangling, get_all_dangling",NC)])
p("N07","Slicing restricts exactly one index range",
 "Slicing an edge restricts the index it carries, on both sides, to the requested contiguous range, leaves every other index, edge and name alone, and keeps the sliced edge connecting the same nodes. The value of the sliced network equals that of the original with the summed (or dangling) index restricted to the range, so the slices of a partition of the range add up to the unsliced value.",
 ["inputs","histories"],"every edge kind (standard, trace, dangling), every in-range start and length",
 "Only few fixed slices of fixed shapes are tested.",
 [NC],[("slice_edge",NC),("backend.slice","tensornetwork/backends/*")])
p("N08","Copy nodes behave as the rank-n Kronecker delta",
 "A copy node stands for the tensor that is one exactly when all its indices coincide; contracting it lazily with its partners, materialising it, copying it, or contracting it through a bucket elimination order gives the same result as using the explicit delta tensor. This holds for any rank, dimension, number of edges to each partner and order of edges.",
 ["inputs"],"every copy-node rank, partner structure (several edges to one partner, dangling legs) and elimination order",
 "Tests use a few fixed copy-node networks; repeated edges to the same partner and mixed legs are barely sampled.",
 [NC,"tensornetwork/contractors/bucket_contractor.py"],
 [("CopyNode, get_partners, compute_contracted_tensor, contract_copy_node, copy_tensor",NC),("bucket","tensornetwork/contractors/bucket_contractor.py")])
p("D01","Splitting a node keeps the network and factors it as promised",
 "Splitting a node by SVD, QR or RQ without truncation replaces it by two or three connected nodes that contract back to the original tensor, with the named left and right edges attached, in the given order, to the left and right factors. The isometric factor(s) are isometric, singular values are non-negative and sorted in decreasing order, and the bond has the smaller of the two sides' dimensions.",
 ["inputs","histories"],"every node, every partition and order of its edges into left and right (including edges still connected to other nodes), every decomposition kind and backend",
 "Tests split one or two fixed tensors with the default edge order, and check shapes more than values.",
 [NO,"tensornetwork/backends/numpy/decompositions.py","tensornetwork/backends/tensorflow/decompositions.py","tensornetwork/linalg/linalg.py"],
 [("split_node, split_node_qr, split_node_rq, split_node_full_svd",NO),("svd/qr/rq with pivot","tensornetwork/backends/*/decompositions.py")])
p("D02","Truncation keeps exactly the singular values the limits allow",
 "A truncated decomposition keeps the largest singular values, as many as allowed by the given maximum number and such that the norm of the discarded ones does not exceed the absolute (or, if requested, relative to the largest singular value) error bound while never discarding fewer than these limits require; the discarded values are returned in full. The truncated product is the best approximation of that rank.",
 ["inputs"],"every spectrum (with ties and zeros), every combination of count limit, error limit and relative flag, every backend and shape",
 "Tests use one spectrum per option and rarely combine the options or hit the exact boundaries.",
 ["tensornetwork/backends/numpy/decompositions.py","tensornetwork/backends/tensorflow/decompositions.py","tensornetwork/backends/symmetric/decompositions.py",NO,"tensornetwork/linalg/linalg.py"],
 [("svd truncation arithmetic","tensornetwork/backends/*/decompositions.py"),("split_node truncation arguments",NO)])
p("C01","ncon computes the labelled sum it is given",
 "ncon returns the sum over all positive (or contracted string) labels of the product of the tensors, with the open labels as axes in the requested or default order; the contraction order affects only cost. Labels shared by more than two tensors act as batch labels, and ill-formed labelings are rejected with an error.",
 ["inputs"],"every list of tensors and labelling (int or string, traces, outer products, batch labels), every con_order and out_order, arrays, Tensors and Nodes, every dense backend",
 "Tests use a fixed list of small expressions (and are not collected here); ordering, traces, batch and repeated labels in combination are unbounded.",
 ["tensornetwork/ncon_interface.py"],
 [("ncon, _jittable_ncon, _check_network, _canonicalize_network_structure","tensornetwork/ncon_interface.py")])
p("C02","All contractors agree with the definition of the network",
 "Every contractor (optimal, branch, greedy, auto, custom, bucket, a supplied contraction path, contract_between chains) returns a single node equal to the sum over all non-dangling indices of the product of all tensors, with the axes in the requested output order. It refuses, with an error, an output order that is not the set of dangling edges, and unspecified output orders when more than one order is possible.",
 ["inputs","schedules"],"every connected or disconnected network with traces, parallel and dangling edges, every contractor and path, every requested output order",
 "Contractor tests use two or three fixed networks.",
 ["tensornetwork/contractors/opt_einsum_paths/path_contractors.py","tensornetwork/contractors/bucket_contractor.py","tensornetwork/contractors/opt_einsum_paths/utils.py"],
 [("base, optimal, branch, greedy, auto, custom, path_solver, contract_path","tensornetwork/contractors/opt_einsum_paths/path_contractors.py"),("bucket","tensornetwork/contractors/bucket_contractor.py")])
p("C03","Contraction-order solvers return valid orders and true costs",
 "The order-finding solvers return a valid pairwise contraction order whose reported cost is the true cost of executing it; the full search returns an order of minimal cost among those that take outer products only when nothing else is left, and never a worse one than the greedy search.",
 ["inputs"],"every connected network up to the searched size, with any dimensions (log10 adjacency matrices), traces removed",
 "Optimality over all orders is checked by tests for no network; one or two random networks are only timed or compared with a stored value.",
 ["tensornetwork/contractors/custom_path_solvers/pathsolvers.py","tensornetwork/contractors/custom_path_solvers/nconinterface.py","tensornetwork/contractors/opt_einsum_paths/path_contractors.py"],
 [("full_solve_complete, greedy_cost_solve, greedy_size_solve","tensornetwork/contractors/custom_path_solvers/pathsolvers.py"),("ncon_solver, ncon_cost_check, ncon_to_adj, ord_to_ncon","tensornetwork/contractors/custom_path_solvers/nconinterface.py")])
p("B01","Every dense backend computes the same tensor primitives",
 "For every primitive of the backend interface with an exact meaning on integer or Gaussian-integer data (contraction, transposition, reshaping, slicing, outer product, trace, diagonal, concatenation of shapes, broadcasting products, elementwise arithmetic, conjugation, pivoting, identity and constant tensors, item, serialization) each available backend returns the same result as the mathematical definition, for all axis arguments including negative ones. A backend that does not support an argument says so with an error instead of returning something else.",
 ["inputs","configurations"],"every primitive, every rank/shape/axis argument, numpy, jax and tensorflow",
 "Backend tests check each primitive on one or two fixed inputs per backend.",
 ["tensornetwork/backends/numpy/numpy_backend.py","tensornetwork/backends/jax/jax_backend.py","tensornetwork/backends/tensorflow/tensorflow_backend.py","tensornetwork/backends/tensorflow/tensordot2.py","tensornetwork/backends/abstract_backend.py"],
 [("backend methods","tensornetwork/backends/*/*_backend.py")])
p("B02","tn.Tensor operations have array semantics",
 "The Tensor wrapper's methods, operators and the free functions on Tensors (transpose, reshape, hconj, tensordot, outer, einsum, kron, trace, diagonal, diagflat, pivot, slicing, arithmetic, initialisers, NconBuilder contraction) return a Tensor of the same backend holding exactly what the corresponding array expression gives, and never modify their operands. Mixing backends in one operation is rejected.",
 ["inputs","histories"],"every shape, axis argument, permutation and operand combination and every chain of such operations",
 "tensor_test and linalg/tests are not collected here, and use a few fixed shapes.",
 ["tensornetwork/tensor.py","tensornetwork/linalg/operations.py","tensornetwork/linalg/initialization.py","tensornetwork/ncon_interface.py"],
 [("Tensor","tensornetwork/tensor.py"),("operations","tensornetwork/linalg/operations.py"),("NconBuilder, finalize","tensornetwork/tensor.py, tensornetwork/ncon_interface.py")])
p("S01","Block-sparse tensors are exactly their dense counterparts",
 "Every operation on a symmetric block-sparse tensor (transpose, reshape, contraction, outer product, trace, conjugation, addition, scaling, diagonal, identity, contiguous layout, conversion from and to dense) gives the block-sparse tensor whose dense form is the dense operation applied to the dense forms of the operands. The result again stores only, and all, the blocks that the charges and flows of its legs allow.",
 ["inputs","histories"],"every symmetry (U(1), Z2, ZN and products), every assignment of charges and flows, every rank, fused legs, and every chain of operations",
 "Tests sample random charges for a few operations in isolation; chains (transpose, reshape, then contract) and mixed symmetries, flows and empty sectors are unbounded.",
 ["tensornetwork/block_sparse/blocksparsetensor.py","tensornetwork/block_sparse/blocksparse_utils.py","tensornetwork/block_sparse/linalg.py","tensornetwork/block_sparse/index.py","tensornetwork/block_sparse/initialization.py","tensornetwork/backends/symmetric/symmetric_backend.py"],
 [("BlockSparseTensor, ChargeArray, tensordot, outerproduct","tensornetwork/block_sparse/blocksparsetensor.py"),("reduce_charges, _find_transposed_diagonal_sparse_blocks","tensornetwork/block_sparse/blocksparse_utils.py"),("trace, diag, eye, transpose, conj","tensornetwork/block_sparse/linalg.py")])
p("S02","Charges form the group they are named after",
 "Fusing, dualising and comparing charges obey the group law of the declared symmetry component by component (integers, integers modulo 2 or N, and products), with the identity charge neutral; fusing two legs lists the fused charge of every pair in row-major order with signs given by the flows. Unique, intersection, sorting and selection operations return exactly the set-theoretic answer with correct index maps.",
 ["inputs"],"every charge type, product of types, degeneracy and order of charges, flows in {-1,+1}",
 "Charge tests use a few random vectors for U1/Z2; products and ZN and index maps in combination are thinly sampled.",
 ["tensornetwork/block_sparse/charge.py","tensornetwork/block_sparse/utils.py","tensornetwork/block_sparse/index.py"],
 [("BaseCharge, U1Charge, Z2Charge, ZNCharge, fuse_charges, charge_equal","tensornetwork/block_sparse/charge.py"),("unique, intersect, fuse_degeneracies","tensornetwork/block_sparse/utils.py"),("Index, fuse_indices, split","tensornetwork/block_sparse/index.py")])
p("S03","Block-sparse decompositions respect the symmetry",
 "SVD, QR, RQ and Hermitian eigendecomposition of a block-sparse matrix or tensor give symmetric factors whose product is the original, with isometric factors isometric and spectra equal to the dense ones; truncation discards the globally smallest singular values over all charge sectors. Inverse, pseudo-inverse and the elementwise square root act as on the dense matrix (zeros outside the blocks stay zero).",
 ["inputs","configurations"],"every charge structure and flow, count and error limits, pivot position",
 "Tests fix few charge layouts; global truncation over sectors with ties, empty sectors and rectangular blocks are thinly sampled.",
 ["tensornetwork/block_sparse/linalg.py","tensornetwork/backends/symmetric/decompositions.py","tensornetwork/backends/symmetric/symmetric_backend.py"],
 [("svd, qr, eigh, eig, inv, sqrt, expm","tensornetwork/block_sparse/linalg.py"),("svd, qr, rq truncation","tensornetwork/backends/symmetric/decompositions.py")])
p("S04","Block caching is invisible except in speed",
 "With caching enabled, at any point of any sequence of block-sparse operations, every result is identical to the one computed with caching disabled. Enabling, disabling, clearing and nesting of caching scopes change nothing but the cache itself, and a scope always restores the state it found, also when left by an exception.",
 ["histories","configurations"],"every interleaving of enable/disable/clear/scope with operations on tensors of different symmetries, shapes, flows and dtypes",
 "A stale or colliding cache entry needs a specific earlier call; tests run each operation with a fresh cache or compare a single pair of calls.",
 ["tensornetwork/block_sparse/caching.py","tensornetwork/block_sparse/blocksparse_utils.py"],
 [("get_cacher, enable_caching, disable_caching, clear_cache, BlockCacher, is_cached","tensornetwork/block_sparse/caching.py"),("_to_string keys","tensornetwork/block_sparse/blocksparse_utils.py")],
 [("cacher.cache, cacher.do_caching","memo table and switch","tensornetwork/block_sparse/caching.py")])
p("X01","Default-backend and node-collection scopes nest properly",
 "The default backend in force is always the one of the innermost open scope, or else the last one set globally, and leaving a scope (normally or by an exception) restores exactly what was in force outside it. Objects created without naming a backend use the default in force at that moment, an unknown backend is rejected without changing the default, and nodes created inside a node-collection scope, and only those, are added to the innermost collection.",
 ["histories"],"every interleaving of nested scopes, global settings, node creations and exceptions",
 "Tests cover a nesting depth of at most two in fixed order.",
 ["tensornetwork/backend_contextmanager.py","tensornetwork/backends/backend_factory.py","tensornetwork/network_operations.py","tensornetwork/ops.py"],
 [("DefaultBackend, set_default_backend, get_default_backend","tensornetwork/backend_contextmanager.py"),("NodeCollection",NO),("get_backend cache","tensornetwork/backends/backend_factory.py")],
 [("stack","open scopes","tensornetwork/backend_contextmanager.py")])
p("X02","Saving and loading a network is a round trip",
 "Loading a saved set of nodes yields the nodes, in the order they were saved, with the same tensors, names, axis names, edge names and connections (standard, trace, parallel and dangling edges) as were saved, independent of the originals. Saving does not change the network being saved.",
 ["inputs"],"every network of named or unnamed nodes and edges with any connectivity, any number of nodes, integer, real or complex data",
 "Tests round-trip one or two tiny networks.",
 ["tensornetwork/utils.py",NC],
 [("save_nodes, load_nodes","tensornetwork/utils.py"),("_save_node, _save_edge, _load_node_data, _load_edge_data",NC)])
p("X03","JSON round trip keeps nodes, edges and bindings",
 "Converting nodes and named edge bindings to JSON and back yields an equivalent network (tensors, names, axis names, connectivity, axis order) and bindings that refer to the corresponding edges in order. Edges leading to nodes that were not included come back as dangling edges, and the original is unchanged.",
 ["inputs"],"every network, every subset of its nodes, every edge-binding dictionary (single edges or sequences)",
 "Tests use three fixed networks.",
 ["tensornetwork/utils.py",NC],
 [("nodes_to_json, nodes_from_json","tensornetwork/utils.py"),("to_serial_dict/from_serial_dict",NC)])
p("X04","Graph drawings show the network",
 "The Graphviz rendering of a set of nodes contains every node exactly once and every edge exactly once: a line between its two nodes for a connected edge, a self-line for a trace edge, and a stub for a dangling edge or one leading outside the set, labelled with the names asked for. Rendering does not modify the network.",
 ["inputs"],"every network and node subset, with and without names",
 "One fixed graph is tested (and only its text compared).",
 ["tensornetwork/visualization/graphviz.py"],[("to_graphviz","tensornetwork/visualization/graphviz.py")])
p("Q01","Quantum operators obey operator algebra",
 "Composition, application to vectors, adjoint, trace, partial trace, tensor product, norm, projector, scalar multiplication and evaluation of network-backed quantum operators, vectors, adjoint vectors and scalars give the same results as the corresponding dense matrix algebra with subsystems in order, for arbitrarily nested expressions. Operands are not modified and may be reused; space mismatches are rejected.",
 ["programs","inputs"],"every expression tree over QuOperator/QuVector/QuAdjointVector/QuScalar built from tensors or networks, including identity and reference nodes, every subsystem list, every contractor",
 "Tests evaluate single operations on fixed random tensors; nested expressions reusing operands are unbounded.",
 ["tensornetwork/quantum/quantum.py"],
 [("QuOperator.__matmul__/adjoint/partial_trace/tensor_product/contract/eval","tensornetwork/quantum/quantum.py"),("eliminate_identities, check_spaces, identity","tensornetwork/quantum/quantum.py")])
p("M01","The stated orthogonality centre of an MPS is real",
 "Whenever a matrix product state reports a centre position, all tensors to its left are left-isometric and all to its right are right-isometric, through any sequence of centre moves, canonicalisations, unitary gates and truncations. Moving the centre or canonicalising without truncation leaves the represented state unchanged up to its norm (exactly, when normalisation is switched off; canonicalising a finite state returns the norm it removed); truncation keeps the best approximation at the bond; when canonical form cannot be guaranteed the centre is reported as undefined. Canonicalising an infinite state makes every tensor of its unit cell (with the connector matrix) left-isometric, again without changing the state. Tensors passed in by the caller are not modified.",
 ["histories"],"every sequence of position/canonicalize/apply-gate calls on every MPS shape, normalised or not",
 "Tests move the centre once or twice on uniform random MPS and check isometry at the end only.",
 ["tensornetwork/matrixproductstates/base_mps.py","tensornetwork/matrixproductstates/finite_mps.py"],
 [("position, canonicalize, check_canonical, apply_two_site_gate","tensornetwork/matrixproductstates/base_mps.py, finite_mps.py")],
 [("center_position","claimed orthogonality centre","tensornetwork/matrixproductstates/base_mps.py")])
p("M02","MPS measurements equal dense expectation values",
 "Left and right environments, local expectation values and two-point correlators of a matrix product state equal those computed from the dense state it represents, for every centre position and every requested list of sites, each result belonging to the site that was asked for. Transfer operators and their leading eigenpairs are those of the stored unit cell. Measuring never changes the state.",
 ["inputs","histories"],"every MPS (any bond/physical dimensions, complex data), centre position, operators and site lists",
 "Tests use product or identity-like operators on uniform MPS where many index errors cancel.",
 ["tensornetwork/matrixproductstates/base_mps.py","tensornetwork/matrixproductstates/finite_mps.py"],
 [("left_envs, right_envs, measure_local_operator, measure_two_body_correlator, transfer operators","tensornetwork/matrixproductstates/*.py")])
p("M03","Gates act on an MPS as on the dense state",
 "Applying a one-site or neighbouring two-site gate changes the represented dense state by exactly that gate on those sites when nothing is truncated; with truncation the returned values are the discarded singular values and the result is the best approximation at that bond. Requests outside these rules (non-neighbouring or out-of-range sites, truncation away from the centre) are rejected without change.",
 ["inputs","histories"],"every MPS, site, gate (not only unitary or symmetric ones), truncation option and centre",
 "Tests use one gate (or identity) per option on translation-invariant states.",
 ["tensornetwork/matrixproductstates/base_mps.py"],
 [("apply_one_site_gate, apply_two_site_gate","tensornetwork/matrixproductstates/base_mps.py")])
p("M04","Model MPOs encode exactly the documented Hamiltonian",
 "The dense matrix represented by each provided model operator (XXZ chain, transverse-field Ising chain, 2D free fermions) is the documented Hamiltonian for all site-dependent couplings, fields, sizes and dtypes. Rolling an infinite MPO only shifts its unit cell.",
 ["inputs"],"every length, every vector of couplings and fields, every lattice shape",
 "mpo_test is not collected here and compares two sites or uniform couplings.",
 ["tensornetwork/matrixproductstates/mpo.py"],
 [("FiniteXXZ, FiniteTFI, FiniteFreeFermion2D, InfiniteMPO.roll","tensornetwork/matrixproductstates/mpo.py")])
p("M05","DMRG environments and energies always match the current state",
 "Through any sequence of centre moves, environment computations and sweeps, every stored left or right environment block that a step uses equals the block computed afresh from the current tensors. Reported energies are expectation values of the Hamiltonian in a state of the allowed bond dimension: never below the exact ground-state energy, non-increasing over sweeps, exact when the bond dimension is unrestricted, and equal to the energy computed afterwards.",
 ["histories"],"every interleaving of position/compute_*_envs/one-site/two-site runs on every small chain",
 "Tests run one fixed schedule and compare the final energy with a loose tolerance.",
 ["tensornetwork/matrixproductstates/dmrg.py"],
 [("position, compute_left_envs, compute_right_envs, _optimize_1s_local, _optimize_2s_local, compute_energy","tensornetwork/matrixproductstates/dmrg.py")],
 [("left_envs/right_envs","cached environment blocks","tensornetwork/matrixproductstates/dmrg.py")])
p("K01","Iterative solvers do not depend on earlier calls or alter inputs",
 "The result of an eigenvalue or linear-system solver call depends only on its arguments: reusing one operator function with other shapes, dtypes, parameters, solvers or backends in any order gives the same result as a first call. Start vectors, right-hand sides and operator parameters passed in are never modified.",
 ["histories","inputs"],"every sequence of solver calls sharing operator functions and arrays",
 "Function-keyed memo tables and in-place arithmetic only show up in particular call sequences; each test makes one call with fresh functions.",
 ["tensornetwork/backends/jax/jax_backend.py","tensornetwork/backends/numpy/numpy_backend.py","tensornetwork/backends/symmetric/symmetric_backend.py","tensornetwork/linalg/krylov.py","tensornetwork/backends/abstract_backend.py"],
 [("_CACHED_MATVECS, _CACHED_FUNCTIONS","tensornetwork/backends/jax/jax_backend.py"),("KRYLOV_MATVEC_CACHE","tensornetwork/linalg/krylov.py"),("eigsh_lanczos, gmres","tensornetwork/backends/*/*_backend.py")],
 [("memo tables","compiled operators keyed by function","tensornetwork/backends/jax/jax_backend.py")])
p("K02","Iterative solvers return accurate eigenpairs and solutions",
 "Converged Lanczos, Arnoldi and GMRES calls return eigenpairs or solutions whose residual is within the requested tolerance of the dense answer, for every admissible operator, size and precision.",
 ["inputs"],"every operator, start vector, Krylov dimension, tolerance, precision",
 "Tests sample a few random matrices; convergence behaviour is a statement about floating-point accuracy over all operators.",
 ["tensornetwork/backends/numpy/numpy_backend.py","tensornetwork/backends/jax/jitted_functions.py"],
 [("eigsh_lanczos, gmres, implicitly restarted Arnoldi/Lanczos","tensornetwork/backends/jax/jitted_functions.py")])
p("L01","Keras layers compute the tensor network they are built from",
 "Each tensor-network Keras layer maps every input, for every batch and leading shape, to the result of contracting the input with the network formed by its own weight tensors, plus bias and activation. Its reported output shape and serialised configuration describe that map.",
 ["inputs","configurations"],"every admissible layer size, bond dimension, leg count, input shape and weight value",
 "Layer tests fit models or check shapes; they do not compare with the contraction of the weights.",
 ["tensornetwork/tn_keras/dense.py","tensornetwork/tn_keras/condenser.py","tensornetwork/tn_keras/expander.py","tensornetwork/tn_keras/entangler.py","tensornetwork/tn_keras/mpo.py"],
 [("call, build, compute_output_shape, get_config","tensornetwork/tn_keras/*.py")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
  for x in P:
    assert len(x["title"])<=80,x["id"]
    f.write(json.dumps(x)+"\n")
print(len(P))
