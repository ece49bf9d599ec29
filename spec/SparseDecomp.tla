---------------------------- MODULE SparseDecomp ----------------------------
(***************************************************************************)
(* Matrix decompositions of symmetric tensors.  A symmetric tensor seen as  *)
(* a matrix is block diagonal: the rows of one signed charge only meet the  *)
(* columns of the opposite charge.  A spectrum is therefore a sequence of   *)
(* <<charge of the rows, value>> pairs; truncation looks at all sectors     *)
(* together, the factors keep one leg whose charges name the sectors.       *)
(***************************************************************************)
EXTENDS BlockSparse, Decomp
\* charges of the rows and (dual) of the columns
RowQ(m, L) == AxQ(m, FlatLegs(L))
ColQ(m, L) == QDual(m, AxQ(m, FlatLegs(L)), 1)
\* rank of the block of every sector: how many values it contributes
SectorMin(rows, cols, v) == MinI(QCount(rows, v), QCount(cols, v))
SectorBag(rows, cols) == {<<v, SectorMin(rows, cols, v)>> : v \in QSet(rows) \cap QSet(cols)}
RowBag(rows, cols) == {<<v, QCount(rows, v)>> : v \in QSet(rows) \cap QSet(cols)}
BagOf(q) == {<<v, QCount(q, v)>> : v \in QSet(q)}
CountIn(s, x) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CountIn(a, a[i]) = CountIn(b, a[i])
\* integer nearest to an approximate non-integer value
RoundV(v, k) == DivR(ReE(v.c, v.d[k]), v.f)
IntegerLike(v) == \A k \in DOMAIN v.d :
   AbsI(ReE(v.c, v.d[k]) - v.f * RoundV(v, k)) <= v.e /\ AbsI(ImE(v.c, v.d[k])) <= v.e
PairsOf(q, v) == [k \in DOMAIN v.d |-> <<q[k], RoundV(v, k)>>]
Values(ps) == [k \in DOMAIN ps |-> ps[k][2]]
OfSector(ps, c) == SelectSeq(ps, LAMBDA x : x[1] = c)
\* kept are the largest ones: the first k of the (decreasing) list, up to ties
KeptRight(all, kept, k) ==
  /\ Len(kept) = k
  /\ SameBag(Values(kept), Values(SubSeq(all, 1, k)))
  /\ \A c \in {kept[i][1] : i \in DOMAIN kept} :
       LET ks == OfSector(kept, c)
           as == OfSector(all, c)
       IN Len(ks) <= Len(as) /\ SameBag(ks, SubSeq(as, 1, Len(ks)))
\* columns with given (integer) scale
ColScale(q, s) == [q EXCEPT !.d = TLCEval([k \in 1..Len(q.d) |->
   LET j == ((k - 1) % q.s[2]) + 1 IN IF q.c = 1 THEN <<q.d[k][1] * s[j], q.d[k][2] * s[j]>> ELSE q.d[k] * s[j]])]
ExDagger(t) == LET u == Transpose(t, <<1, 0>>) IN IF u.c = 1 THEN [u EXCEPT !.d = TLCEval([k \in DOMAIN u.d |-> CConj(u.d[k])])] ELSE u
FirstCols(q, k) == [s |-> <<q.s[1], k>>, c |-> q.c,
   d |-> [i \in 1..(q.s[1] * k) |-> q.d[((i - 1) \div k) * q.s[2] + ((i - 1) % k) + 1]]]
FirstRows(q, k) == [s |-> <<k, q.s[2]>>, c |-> q.c, d |-> SubSeq(q.d, 1, k * q.s[2])]
\* what the best approximation with the first k values is
Best(q1, sv, q2, k) == Matmul(ColScale(FirstCols(q1, k), sv), FirstRows(q2, k))
\* the claimed spectrum is the true one: scaled orthonormal vectors on both sides
Orthogonal(g) == \A i \in DOMAIN g.d : ((i - 1) \div g.s[2]) # ((i - 1) % g.s[2]) => g.d[i] = Zero(g.c)
DiagRe(g, k) == LET x == g.d[(k - 1) * g.s[2] + k] IN IF g.c = 1 THEN x[1] ELSE x
Premise(mat, q1, sv, q2, pairs) ==
  LET K == Len(pairs)
      g1 == Matmul(ExDagger(q1), q1)
      g2 == Matmul(q2, ExDagger(q2))
  IN IF K = 0 THEN \A k \in DOMAIN mat.d : mat.d[k] = Zero(mat.c)
     ELSE /\ Eq(Best(q1, sv, q2, K), mat)
          /\ Orthogonal(g1) /\ Orthogonal(g2)
          /\ \A k \in 1..K : DiagRe(g1, k) * DiagRe(g2, k) * sv[k] * sv[k] = pairs[k][2] * pairs[k][2]
          /\ \A k \in 1..(K - 1) : pairs[k][2] >= pairs[k + 1][2]
\* the diagonal matrix of an approximate vector
ADiagMat(v) == LET n == Len(v.d) IN
  A(<<n, n>>, TLCEval([j \in 1..(n * n) |-> IF (j - 1) \div n = (j - 1) % n THEN v.d[((j - 1) % n) + 1] ELSE Zero(v.c)]), v.c, v.f, v.e)
Hermitian(m) == NearA(m, ADagger(m))
=============================================================================
