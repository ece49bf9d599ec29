------------------------------- MODULE Decomp -------------------------------
(***************************************************************************)
(* Splitting a node of a network by a matrix decomposition.                *)
(* A network is a sequence of nodes [id, t, e, an, nm]; t is exact for     *)
(* untouched nodes and an approximation for the factors.                   *)
(***************************************************************************)
EXTENDS Approx
If(b, s) == IF b THEN s ELSE {}
Ids(net) == {net[k].id : k \in DOMAIN net}
Nd(net, i) == net[CHOOSE k \in DOMAIN net : net[k].id = i]
MinI(a, b) == IF a < b THEN a ELSE b
AxisOf(nd, e) == IndexOf(nd.e, e)
\* the tensor as a matrix, left edges against right edges
AsMatrix(nd, left, right) ==
  LET p == [k \in 1..(Len(left) + Len(right)) |-> AxisOf(nd, (left \o right)[k]) - 1]
      t == Transpose(nd.t, p)
  IN Reshape(t, <<ProdSeq(SubSeq(t.s, 1, Len(left))), ProdSeq(SubSeq(t.s, Len(left) + 1, Len(t.s)))>>)
DimsOf(nd, es) == [k \in DOMAIN es |-> nd.t.s[AxisOf(nd, es[k])]]
\* number of singular values kept: as few as the bound allows, at most maxsv
\* (sig sorted decreasing, exact; err = p/q, absolute or relative to sig[1])
Discarded2(sig, k) == SumSeq([j \in 1..(Len(sig) - k) |-> sig[k + j] * sig[k + j]])
Within(sig, k, p, q, rel) ==
  q * q * Discarded2(sig, k) <= p * p * (IF rel = 1 THEN sig[1] * sig[1] ELSE 1)
Keep(sig, maxx, maxsv, errx, p, q, rel) ==
  LET n == Len(sig)
      ne == IF errx = 1 THEN CHOOSE k \in 0..n : Within(sig, k, p, q, rel) /\ \A j \in 0..(k - 1) : ~Within(sig, j, p, q, rel)
            ELSE n
  IN IF maxx = 1 THEN MinI(maxsv, ne) ELSE ne
VecExact(q) == T(<<Len(q)>>, q)
\* diag(s) of the given rectangular shape
RectDiag(m, n, s) == T(<<m, n>>, TLCEval([k \in 1..(m * n) |->
     IF (k - 1) \div n = (k - 1) % n /\ (k - 1) % n < Len(s) THEN s[((k - 1) % n) + 1] ELSE 0]))
=============================================================================
