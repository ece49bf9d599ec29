------------------------------- MODULE Charge -------------------------------
(***************************************************************************)
(* Charges of a block-sparse leg.  A charge object is a sequence of charge  *)
(* vectors q[i] (one entry per elementary symmetry) together with the       *)
(* moduli m of the symmetries: m[k] = 0 for the integers (U1), n for Z_n.   *)
(* A flow f = 1 stands for the dual charge.                                 *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

CMod(n, x) == IF n = 0 THEN x ELSE x % n
CValid(m, v) == Len(v) = Len(m) /\ \A k \in DOMAIN m : m[k] = 0 \/ (v[k] >= 0 /\ v[k] < m[k])
CPlus(m, v, w) == [k \in 1..Len(m) |-> CMod(m[k], v[k] + w[k])]
CInv(m, v) == [k \in 1..Len(m) |-> CMod(m[k], -v[k])]
CZero(m) == [k \in 1..Len(m) |-> 0]
CFlow(m, v, f) == IF f = 1 THEN CInv(m, v) ELSE v

QDual(m, q, f) == [i \in 1..Len(q) |-> CFlow(m, q[i], f)]
\* row-major: the first leg varies slowest
QFuse(m, q, r) ==
  [i \in 1..(Len(q) * Len(r)) |->
     CPlus(m, q[((i - 1) \div Len(r)) + 1], r[((i - 1) % Len(r)) + 1])]
RECURSIVE QFuseAll(_, _, _)
QFuseAll(m, qs, fs) ==
  IF Len(qs) = 1 THEN TLCEval(QDual(m, qs[1], fs[1]))
  ELSE LET n == Len(qs)
           h == QFuseAll(m, SubSeq(qs, 1, n - 1), SubSeq(fs, 1, n - 1))
       IN TLCEval(QFuse(m, h, QDual(m, qs[n], fs[n])))
QSet(q) == {q[i] : i \in 1..Len(q)}
QDistinct(q) == Cardinality(QSet(q)) = Len(q)
QCount(q, v) == Cardinality({i \in 1..Len(q) : q[i] = v})
\* indices are 0-based, negative ones count from the end
QAt(q, i) == IF i < 0 THEN q[Len(q) + i + 1] ELSE q[i + 1]
QTake(q, idx) == [k \in 1..Len(idx) |-> QAt(q, idx[k])]
QPositions(q, S) == SelectSeq([i \in 1..Len(q) |-> i - 1], LAMBDA i : q[i + 1] \in S)
QProduct(q, r) == [i \in 1..Len(q) |-> q[i] \o r[i]]

\* u is the list of distinct members of q
IsUnique(q, u) == QDistinct(u) /\ QSet(u) = QSet(q)
IsInverse(q, u, inv) == Len(inv) = Len(q) /\ \A i \in 1..Len(q) : inv[i] >= 0 /\ inv[i] < Len(u) /\ u[inv[i] + 1] = q[i]
IsIndex(q, u, ix) == Len(ix) = Len(u) /\ \A k \in 1..Len(u) : ix[k] >= 0 /\ ix[k] < Len(q) /\ q[ix[k] + 1] = u[k]
IsCounts(q, u, c) == Len(c) = Len(u) /\ \A k \in 1..Len(u) : c[k] = QCount(q, u[k])

(* multiset of fused charges without enumerating the fused leg:             *)
(* a set of <<charge, multiplicity>>                                        *)
QBag(q) == {<<v, QCount(q, v)>> : v \in QSet(q)}
BagPlus(m, B, C) ==
  LET keys == TLCEval({CPlus(m, b[1], c[1]) : b \in B, c \in C})
  IN {<<v, FoldLeft(LAMBDA acc, bc : acc + bc[1][2] * bc[2][2], 0,
                    SetToSeq({bc \in B \X C : CPlus(m, bc[1][1], bc[2][1]) = v}))>> : v \in keys}
RECURSIVE QBagAll(_, _, _)
QBagAll(m, qs, fs) ==
  IF Len(qs) = 1 THEN TLCEval(QBag(QDual(m, qs[1], fs[1])))
  ELSE LET n == Len(qs)
       IN TLCEval(BagPlus(m, QBagAll(m, SubSeq(qs, 1, n - 1), SubSeq(fs, 1, n - 1)), TLCEval(QBag(QDual(m, qs[n], fs[n])))))
\* flat position of the k-th (0-based) row-major multi-index, using given strides per leg
RECURSIVE StridePos(_, _, _)
StridePos(k, dims, st) ==
  IF Len(dims) = 0 THEN 0
  ELSE LET n == Len(dims)
       IN (k % dims[n]) * st[n] + StridePos(k \div dims[n], SubSeq(dims, 1, n - 1), SubSeq(st, 1, n - 1))
RECURSIVE StridePos2(_, _)
\* entry k (1-based) of the outer sum of the arrays, row-major
StridePos2(k, arrs) ==
  IF Len(arrs) = 0 THEN 0
  ELSE LET n == Len(arrs)
           d == Len(arrs[n])
       IN arrs[n][((k - 1) % d) + 1] + StridePos2(((k - 1) \div d) + 1, SubSeq(arrs, 1, n - 1))
ProdI(q) == FoldLeft(LAMBDA a, b : a * b, 1, q)
ProdLen(arrs) == ProdI([k \in 1..Len(arrs) |-> Len(arrs[k])])
=============================================================================
