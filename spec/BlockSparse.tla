----------------------------- MODULE BlockSparse -----------------------------
(***************************************************************************)
(* Symmetric block-sparse tensors.  A tensor is                             *)
(*   [leg |-> for every axis a non-empty sequence of elementary legs        *)
(*            [q |-> charge vectors, f |-> flow 0/1],                       *)
(*    t   |-> its dense form, arr |-> 1 for a ChargeArray (no symmetry      *)
(*            constraint: diagonals, singular values), 0 otherwise]         *)
(* m is the sequence of moduli shared by all charges.                       *)
(* An entry is allowed when the signed charges of its indices add to zero.  *)
(***************************************************************************)
EXTENDS Charge, Tensor
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

FlatLegs(L) == FoldLeft(LAMBDA a, b : a \o b, <<>>, L)
ElDim(e) == Len(e.q)
AxDim(ax) == FoldLeft(LAMBDA a, e : a * ElDim(e), 1, ax)
LegShape(L) == [a \in 1..Len(L) |-> AxDim(L[a])]
\* signed charge of every index value of one axis
AxQ(m, ax) == QFuseAll(m, [k \in 1..Len(ax) |-> ax[k].q], [k \in 1..Len(ax) |-> ax[k].f])
\* signed total charge of every entry, row-major
TotalQ(m, L) ==
  LET e == FlatLegs(L)
  IN IF Len(e) = 0 THEN <<CZero(m)>> ELSE AxQ(m, e)
Mask(m, L) == LET z == CZero(m) q == TotalQ(m, L) IN TLCEval([k \in 1..Len(q) |-> q[k] = z])
NAllowed(m, L) == LET k == Mask(m, L) IN Cardinality({i \in 1..Len(k) : k[i]})
FlipEl(e) == [q |-> e.q, f |-> 1 - e.f]
FlipAx(ax) == [k \in 1..Len(ax) |-> FlipEl(ax[k])]
FlipLegs(L) == [a \in 1..Len(L) |-> FlipAx(L[a])]
Zero(c) == IF c = 1 THEN <<0, 0>> ELSE 0
One(c) == IF c = 1 THEN <<1, 0>> ELSE 1
Masked(m, L, t) == LET k == Mask(m, L) IN [t EXCEPT !.d = [i \in 1..Len(t.d) |-> IF k[i] THEN t.d[i] ELSE Zero(t.c)]]
\* entries of t outside the allowed positions vanish
Symmetric(m, L, t) == LET k == Mask(m, L) IN \A i \in 1..Len(t.d) : k[i] \/ t.d[i] = Zero(t.c)
Packed(m, L, t) == LET k == Mask(m, L)
                       idx == SelectSeq([i \in 1..Len(k) |-> i], LAMBDA i : k[i])
                   IN [j \in 1..Len(idx) |-> t.d[idx[j]]]
\* can the elementary dimensions be grouped, in order, into the given shape?
RECURSIVE CanGroup(_, _)
CanGroup(dims, shape) ==
  IF Len(shape) = 0 THEN Len(dims) = 0
  ELSE \E k \in 1..Len(dims) :
         /\ ProdSeq(SubSeq(dims, 1, k)) = Head(shape)
         /\ CanGroup(SubSeq(dims, k + 1, Len(dims)), Tail(shape))
\* axes x of A and y of B can be summed over: charges opposite at every index
Opposite(m, ax, ay) == AxDim(ax) = AxDim(ay) /\ AxQ(m, ax) = QDual(m, AxQ(m, ay), 1)
\* same elementary charges with opposite flows: certainly contractible
Mirror(ax, ay) == Len(ax) = Len(ay) /\ \A k \in 1..Len(ax) : ax[k].q = ay[k].q /\ ax[k].f # ay[k].f
\* rank of position i among the positions of q carrying the same charge
RankIn(q, i) == Cardinality({j \in 1..(i - 1) : q[j] = q[i]})
\* block-wise identity: the k-th row of a sector meets the k-th column of it
BlockEye(m, ax, ay) ==
  LET r == AxQ(m, ax)
      s == QDual(m, AxQ(m, ay), 1)
      nr == Len(r)
      ns == Len(s)
  IN [s |-> <<nr, ns>>, c |-> 0,
      d |-> [k \in 1..(nr * ns) |->
              LET i == ((k - 1) \div ns) + 1
                  j == ((k - 1) % ns) + 1
              IN IF r[i] = s[j] /\ RankIn(r, i) = RankIn(s, j) THEN 1 ELSE 0]]
\* block diagonal of a matrix: the sequence (in row order) of <<charge, entry>>
BlockDiag(m, L, t) ==
  LET r == AxQ(m, L[1])
      s == QDual(m, AxQ(m, L[2]), 1)
      ns == Len(s)
      rows == SelectSeq([i \in 1..Len(r) |-> i], LAMBDA i : \E j \in 1..ns : r[i] = s[j] /\ RankIn(r, i) = RankIn(s, j))
  IN [k \in 1..Len(rows) |->
        LET i == rows[k]
            j == CHOOSE j \in 1..ns : r[i] = s[j] /\ RankIn(r, i) = RankIn(s, j)
        IN <<r[i], t.d[(i - 1) * ns + j]>>]
\* same pairs, same order within every charge sector
SameBySector(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A k \in 1..Len(a) : SelectSeq(a, LAMBDA x : x[1] = a[k][1]) = SelectSeq(b, LAMBDA x : x[1] = a[k][1])
DiagMat(t) == LET n == t.s[1] IN
  [s |-> <<n, n>>, c |-> t.c,
   d |-> [k \in 1..(n * n) |-> IF (k - 1) \div n = (k - 1) % n THEN t.d[((k - 1) \div n) + 1] ELSE Zero(t.c)]]
=============================================================================
