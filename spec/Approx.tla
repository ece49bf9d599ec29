------------------------------- MODULE Approx -------------------------------
(***************************************************************************)
(* Fixed-point approximations of real (or complex) tensors.                *)
(* A record [s, d, c, f, e] stands for some tensor whose every entry       *)
(* (real and imaginary part) lies within e units of d, one unit being 1/f. *)
(* Operations carry the error bound along, so "Near" never raises a false  *)
(* alarm as long as the recorded e is honest.                              *)
(***************************************************************************)
EXTENDS Tensor, Integers, Sequences, FiniteSets, SequencesExt, TLC
AbsI(x) == IF x < 0 THEN -x ELSE x
MaxI(a, b) == IF a > b THEN a ELSE b
MagE(c, x) == IF c = 1 THEN MaxI(AbsI(x[1]), AbsI(x[2])) ELSE AbsI(x)
MaxAbs(a) == FoldLeft(LAMBDA m, x : MaxI(m, MagE(a.c, x)), 0, a.d)
A(s, d, c, f, e) == [s |-> s, d |-> d, c |-> c, f |-> f, e |-> e]
ExactA(t, f) == A(t.s, IF t.c = 1 THEN TLCEval([k \in DOMAIN t.d |-> <<t.d[k][1] * f, t.d[k][2] * f>>])
                       ELSE TLCEval([k \in DOMAIN t.d |-> t.d[k] * f]), t.c, f, 0)
Plainly(a) == [s |-> a.s, d |-> a.d, c |-> a.c]
\* the largest sum of magnitudes over the axes whose labels are not in out
SumMag(x, cx) == IF cx = 1 THEN AbsI(x[1]) + AbsI(x[2]) ELSE AbsI(x)
MaxRow(a, la, out) ==
  LET keep == SelectSeq(la, LAMBDA x : x \in SetOf(out))
      t == Einsum(<<[s |-> a.s, d |-> TLCEval([k \in DOMAIN a.d |-> SumMag(a.d[k], a.c)]), c |-> 0]>>, <<la>>, keep)
  IN FoldLeft(LAMBDA m, x : MaxI(m, x), 0, t.d)
LabDimOf(s, lab, x) == s[IndexOf(lab, x)]
\* contraction of two approximations
AEin2(a, la, b, lb, out) ==
  LET t == Einsum(<<Plainly(a), Plainly(b)>>, <<la, lb>>, out)
      inn == (SetOf(la) \cup SetOf(lb)) \ SetOf(out)
      ni == ProdSeq([k \in 1..Cardinality(inn) |->
               LET x == SetToSeq(inn)[k] IN IF x \in SetOf(la) THEN LabDimOf(a.s, la, x) ELSE LabDimOf(b.s, lb, x)])
      mu == IF a.c = 1 /\ b.c = 1 THEN 2 ELSE 1
      \* inner labels of the other factor only multiply the number of terms
      only(lx) == ProdSeq([k \in 1..Cardinality(inn \ SetOf(lx)) |->
               LET x == SetToSeq(inn \ SetOf(lx))[k] IN IF x \in SetOf(la) THEN LabDimOf(a.s, la, x) ELSE LabDimOf(b.s, lb, x)])
      err == IF a.e = 0 /\ b.e = 0 THEN 0
             ELSE (IF b.e = 0 THEN 0 ELSE b.e * only(la) * MaxRow(a, la, out))
                  + (IF a.e = 0 THEN 0 ELSE a.e * only(lb) * MaxRow(b, lb, out))
                  + (IF a.e = 0 \/ b.e = 0 THEN 0 ELSE ni * mu * a.e * b.e)
  IN A(t.s, t.d, t.c, a.f * b.f, err)
DivR(x, k) == IF x >= 0 THEN (x + k \div 2) \div k ELSE -((-x + k \div 2) \div k)
\* the same value with g units (g divides f)
ARescale(a, g) ==
  LET k == a.f \div g
  IN IF k = 1 THEN a
     ELSE A(a.s, IF a.c = 1 THEN TLCEval([j \in DOMAIN a.d |-> <<DivR(a.d[j][1], k), DivR(a.d[j][2], k)>>])
                 ELSE TLCEval([j \in DOMAIN a.d |-> DivR(a.d[j], k)]), a.c, g, (a.e \div k) + 2)
AConj(a) == IF a.c = 1 THEN [a EXCEPT !.d = TLCEval([k \in DOMAIN a.d |-> CConj(a.d[k])])] ELSE a
AReshape(a, s) == [a EXCEPT !.s = s]
ATranspose(a, p) == LET t == Transpose(Plainly(a), p) IN A(t.s, t.d, t.c, a.f, a.e)
ToCA(a) == IF a.c = 1 THEN a ELSE [a EXCEPT !.c = 1, !.d = TLCEval([k \in DOMAIN a.d |-> <<a.d[k], 0>>])]
AScaleI(a, n) == [a EXCEPT !.d = IF a.c = 1 THEN TLCEval([k \in DOMAIN a.d |-> <<a.d[k][1] * n, a.d[k][2] * n>>])
                                 ELSE TLCEval([k \in DOMAIN a.d |-> a.d[k] * n]), !.e = a.e * AbsI(n)]
\* both approximations may be the same tensor
NearA(a, b) ==
  /\ a.s = b.s /\ a.f = b.f /\ Len(a.d) = Len(b.d)
  /\ LET x == ToCA(a)
         y == ToCA(b)
         tol == a.e + b.e
     IN \A k \in DOMAIN x.d : AbsI(x.d[k][1] - y.d[k][1]) <= tol /\ AbsI(x.d[k][2] - y.d[k][2]) <= tol
NearExact(a, t) == NearA(a, ExactA(t, a.f))
AMatmul(a, b) == AEin2(a, <<0, 1>>, b, <<1, 2>>, <<0, 2>>)
ADagger(a) == AConj(ATranspose(a, <<1, 0>>))
\* columns (rows) are orthonormal
LeftIso(m) == NearExact(ARescale(AMatmul(ADagger(m), m), m.f), EyeNM(m.s[2], m.s[2]))
RightIso(m) == NearExact(ARescale(AMatmul(m, ADagger(m)), m.f), EyeNM(m.s[1], m.s[1]))
AMat(a, nl) == AReshape(a, <<ProdSeq(SubSeq(a.s, 1, nl)), ProdSeq(SubSeq(a.s, nl + 1, Len(a.s)))>>)
\* matrix times diagonal vector
ADiagR(m, v) == AEin2(m, <<0, 1>>, v, <<1>>, <<0, 1>>)
\* a matrix that is diagonal up to its error
DiagonalOnly(m) == \A k \in DOMAIN m.d :
   ((k - 1) \div m.s[2]) # ((k - 1) % m.s[2]) => MagE(m.c, m.d[k]) <= m.e
ReE(c, x) == IF c = 1 THEN x[1] ELSE x
ImE(c, x) == IF c = 1 THEN x[2] ELSE 0
\* a vector of non-negative reals in decreasing order
SortedNonNeg(v) ==
  /\ \A k \in DOMAIN v.d : ReE(v.c, v.d[k]) >= -v.e /\ AbsI(ImE(v.c, v.d[k])) <= v.e
  /\ \A k \in 1..(Len(v.d) - 1) : ReE(v.c, v.d[k]) + 2 * v.e >= ReE(v.c, v.d[k + 1])
DiagOf(m) == LET n == IF m.s[1] < m.s[2] THEN m.s[1] ELSE m.s[2]
             IN A(<<n>>, [k \in 1..n |-> m.d[(k - 1) * m.s[2] + k]], m.c, m.f, m.e)
=============================================================================
