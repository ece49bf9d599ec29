------------------------------- MODULE Layers --------------------------------
(***************************************************************************)
(* The maps that tensor-network layers stand for.                            *)
(* A configuration c fixes the shapes of the weight tensors and a network     *)
(* that joins them to the input; the output is the contraction of that        *)
(* network with the input, plus bias, followed by the activation.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Tensor
Pow(b, n) == ProdSeq([k \in 1..n |-> b])
Root(n, k) == CHOOSE r \in 1..10 : Pow(r, k) = n
Bias(c, o) == IF c.bias = 1 THEN << <<o>> >> ELSE <<>>
Fill(n, s) == [k \in 1..n |-> s]
OutDim(c) == CASE c.kind = "condenser" -> (c.d \div Pow(c.p.exp_base, c.p.num_nodes))
               [] c.kind = "expander" -> (c.d * Pow(c.p.exp_base, c.p.num_nodes))
               [] c.kind = "conv" -> c.p.filters
               [] OTHER -> c.p.output_dim
\* ---- shapes of the weights
EntanglerShapes(c) ==
  LET L == c.p.num_legs
      a == Root(c.d, L)
      o == Root(c.p.output_dim, L)
      m == IF a < o THEN a ELSE o
      n == c.p.num_levels * (L - 1)
  IN [k \in 1..n |->
       LET level == (k - 1) \div (L - 1)
       IN <<IF k = 1 THEN a ELSE m, IF level = 0 THEN a ELSE m, IF level = c.p.num_levels - 1 THEN o ELSE m, IF k = n THEN o ELSE m>>]
MpoShapes(c) ==
  LET n == c.p.num_nodes
      i == Root(c.d, n)
      o == Root(OutDim(c), n)
      b == c.p.bond_dim
  IN [k \in 1..n |-> IF c.kind = "mpo" THEN (IF k \in {1, n} THEN <<i, b, o>> ELSE <<i, b, b, o>>)
                     ELSE IF k = 1 THEN <<i, c.ks[1], b, o>> ELSE IF k = n THEN <<i, b, c.ks[2], o>> ELSE <<i, b, b, o>>]
WeightShapes(c) ==
  (CASE c.kind = "dense" -> << <<c.d, c.p.decomp_size>>, <<c.p.decomp_size, c.p.output_dim>> >>
     [] c.kind = "condenser" -> Fill(c.p.num_nodes, <<OutDim(c), c.p.exp_base, OutDim(c)>>)
     [] c.kind = "expander" -> Fill(c.p.num_nodes, <<c.d, c.p.exp_base, c.d>>)
     [] c.kind = "entangler" -> EntanglerShapes(c)
     [] OTHER -> MpoShapes(c)) \o Bias(c, OutDim(c))
\* ---- output shape, -1 for unknown dimensions
Ceil(a, b) == (a + b - 1) \div b
ConvLen(c, h, ax) ==
  IF h = -1 THEN -1
  ELSE IF c.same = 1 THEN Ceil(h, c.st[ax])
  ELSE Ceil(h - ((c.ks[ax] - 1) * c.di[ax]), c.st[ax])
OutShape(c, s) ==
  IF c.kind # "conv" THEN SubSeq(s, 1, Len(s) - 1) \o <<OutDim(c)>>
  ELSE IF c.first = 1 THEN <<s[1], c.p.filters, ConvLen(c, s[3], 1), ConvLen(c, s[4], 2)>>
  ELSE <<s[1], ConvLen(c, s[2], 1), ConvLen(c, s[3], 2), c.p.filters>>
\* ---- the network, one tensor at a time.  st: tensor and labels of its axes
Join(st, w, wl, out) == [t |-> TLCEval(Einsum(<<st.t, w>>, <<st.l, wl>>, out)), l |-> out]
Labels(from, n) == [k \in 1..n |-> from + k]
RECURSIVE Condense(_, _, _), Expand(_, _, _), Entangle(_, _, _, _, _), Zip(_, _, _)
\* label 1: batch; the state's last leg and the one before it enter the next node
Condense(st, ws, k) ==
  IF k > Len(ws) THEN st.t
  ELSE LET n == Len(st.l)
       IN Condense(Join(st, ws[k], <<st.l[n], st.l[n - 1], 100 + k>>, SubSeq(st.l, 1, n - 2) \o <<100 + k>>), ws, k + 1)
\* the last leg is expanded
Expand(st, ws, k) ==
  IF k > Len(ws) THEN st.t
  ELSE LET n == Len(st.l)
       IN Expand(Join(st, ws[k], <<st.l[n], 100 + 2 * k, 101 + 2 * k>>, SubSeq(st.l, 1, n - 1) \o <<100 + 2 * k, 101 + 2 * k>>), ws, k + 1)
\* a staircase of two-leg nodes; the output legs are in the order in which they were made
Entangle(st, wires, ws, k, L) ==
  IF k > Len(ws) THEN st.t
  ELSE LET p == ((k - 1) % L) + 1
           q == (k % L) + 1
           new == <<100 + 2 * k, 101 + 2 * k>>
       IN Entangle(Join(st, ws[k], <<wires[p], wires[q]>> \o new, Without(st.l, {wires[p], wires[q]}) \o new),
                   [wires EXCEPT ![p] = new[1], ![q] = new[2]], ws, k + 1, L)
\* a matrix product operator: leg k of the state, bond to the left, bond to the right, output leg
Zip(st, ws, k) ==
  IF k > Len(ws) THEN st.t
  ELSE LET n == Len(ws)
           wl == (IF k = 1 THEN <<2, 100>> ELSE IF k = n THEN <<k + 1, 99 + k - 1>> ELSE <<k + 1, 99 + k - 1, 99 + k>>) \o <<200 + k>>
           outs == [j \in 1..k |-> 200 + j]
       IN Zip(Join(st, ws[k], wl, <<1>> \o [j \in 1..(n - k) |-> k + 1 + j] \o (IF k = n THEN <<>> ELSE <<99 + k>>) \o outs), ws, k + 1)
Nodes(c, ws) == SubSeq(ws, 1, Len(ws) - c.bias)
Linear(c, ws0, x, N) ==
  LET ws == Nodes(c, ws0)
      n == Len(ws)
  IN CASE c.kind = "dense" -> Join(Join([t |-> Reshape(x, <<N, c.d>>), l |-> <<1, 2>>], ws[1], <<2, 3>>, <<1, 3>>), ws[2], <<3, 4>>, <<1, 4>>).t
       [] c.kind = "condenser" -> Condense([t |-> Reshape(x, <<N>> \o Fill(n, c.p.exp_base) \o <<OutDim(c)>>), l |-> <<1>> \o Labels(1, n + 1)], ws, 1)
       [] c.kind = "expander" -> Expand([t |-> Reshape(x, <<N, c.d>>), l |-> <<1, 2>>], ws, 1)
       [] c.kind = "entangler" ->
            LET L == c.p.num_legs
            IN Entangle([t |-> Reshape(x, <<N>> \o Fill(L, Root(c.d, L))), l |-> <<1>> \o Labels(1, L)], Labels(1, L), ws, 1, L)
       [] c.kind = "mpo" -> Zip([t |-> Reshape(x, <<N>> \o Fill(n, Root(c.d, n))), l |-> <<1>> \o Labels(1, n)], ws, 1)
\* ---- convolution.  The kernel is the operator seen as a tensor [height, width, in, out]
RECURSIVE Chain(_, _, _)
Chain(st, ws, k) ==
  IF k > Len(ws) THEN st
  ELSE Chain(Join(st, ws[k], <<10 + k, 99 + k - 1, 99 + k, 200 + k>>, Without(st.l, {99 + k - 1}) \o <<10 + k, 99 + k, 200 + k>>), ws, k + 1)
Kernel(c, ws0) ==
  LET ws == Nodes(c, ws0)
      n == Len(ws)
      st == Chain([t |-> ws[1], l |-> <<11, 5, 100, 201>>], ws, 2)
      t == Einsum(<<st.t>>, <<st.l>>, <<5, 99 + n>> \o Labels(10, n) \o Labels(200, n))
  IN Reshape(t, <<c.ks[1], c.ks[2], c.d, c.p.filters>>)
PadBefore(c, h, ax) ==
  IF c.same = 0 THEN 0
  ELSE LET tot == ((Ceil(h, c.st[ax]) - 1) * c.st[ax]) + ((c.ks[ax] - 1) * c.di[ax]) + 1 - h
       IN IF tot > 0 THEN (tot \div 2) ELSE 0
Convolve(c, K, x) ==
  LET o == OutShape(c, x.s)
      ph == PadBefore(c, x.s[2], 1)
      pw == PadBefore(c, x.s[3], 2)
      H == x.s[2]
      W == x.s[3]
  IN T(o, TLCEval([k \in 1..ProdSeq(o) |->
       LET ix == Unflat(k - 1, o)
       IN SumSeq([m \in 1..(c.ks[1] * c.ks[2]) |->
            LET u == (m - 1) \div c.ks[2]
                v == (m - 1) % c.ks[2]
                i == (ix[2] * c.st[1]) + (u * c.di[1]) - ph
                j == (ix[3] * c.st[2]) + (v * c.di[2]) - pw
            IN IF i < 0 \/ i >= H \/ j < 0 \/ j >= W THEN 0
               ELSE SumSeq([e \in 1..c.d |-> x.d[Flat(<<ix[1], i, j, e - 1>>, x.s) + 1] * K.d[Flat(<<u, v, e - 1, ix[4]>>, K.s) + 1]])])]))
\* ---- the layer
MapI(t, Op(_, _)) == T(t.s, TLCEval([k \in 1..Len(t.d) |-> Op(k, t.d[k])]))
Pointwise(c, ws, t, chan) ==
  MapI(t, LAMBDA k, v : LET b == IF c.bias = 1 THEN ws[Len(ws)].d[Unflat(k - 1, t.s)[chan] + 1] ELSE 0
                            y == v + b
                        IN IF c.relu = 1 /\ y < 0 THEN 0 ELSE y)
Output(c, ws, x) ==
  LET o == OutShape(c, x.s)
  IN IF ProdSeq(x.s) = 0 THEN T(o, <<>>)
     ELSE IF c.kind = "conv" THEN
       LET nhwc == IF c.first = 1 THEN Transpose(x, <<0, 2, 3, 1>>) ELSE x
           cl == [c EXCEPT !.first = 0]
           y == Pointwise(c, ws, Convolve(cl, TLCEval(Kernel(c, ws)), TLCEval(nhwc)), 4)
       IN IF c.first = 1 THEN Transpose(y, <<0, 3, 1, 2>>) ELSE y
     ELSE LET N == ProdSeq(SubSeq(x.s, 1, Len(x.s) - 1))
          IN Reshape(Pointwise(c, ws, Reshape(Linear(c, ws, x, N), <<N, OutDim(c)>>), 2), o)
=============================================================================
