-------------------------------- MODULE Mps ---------------------------------
(***************************************************************************)
(* Matrix product states, seen through the dense state they represent.      *)
(* psi is an (approximate) tensor with one axis per site; the tensors of the *)
(* MPS are approximations ts[k] of shape (left bond, physical, right bond).   *)
(***************************************************************************)
EXTENDS Approx
If(b, s) == IF b THEN s ELSE {}
\* ---- the centre a call with arguments a leaves (c: the one before)
CentreAfter(op, a, c) ==
  IF op = "init" THEN IF a.canon = 1 THEN (IF a.c >= 0 THEN a.c ELSE 0) ELSE -1
  ELSE IF op = "random" THEN IF a.canon = 1 THEN 0 ELSE -1
  ELSE IF op = "setcenter" THEN a.c
  ELSE IF op = "position" THEN a.site
  ELSE IF op = "canonicalize" THEN IF c >= 0 THEN c ELSE 0
  ELSE IF op = "gate2" THEN IF c \in {a.s1, a.s2} THEN (IF a.cp >= 0 THEN a.cp ELSE a.s1) ELSE -1
  ELSE c
\* ---- does the history guarantee that the tensors are canonical around it
\* (r: did it before; new: the centre reported now); proved sound in MpsModel
RealAfter(op, a, c, r, new) ==
  IF op \in {"init", "canonicalize", "random"} THEN new >= 0
  ELSE IF op = "setcenter" THEN a.canon = 1
  ELSE IF op = "gate1" THEN r /\ (a.unitary = 1 \/ a.s1 = c)
  ELSE r
\* one, several, all sites
Sites(n) == [k \in 1..n |-> k]
\* scalar approximations
ScalarA(a) == AReshape(a, <<>>)
\* <a|O...|b> style overlaps: conj(a) and b with labels
Overlap(a, b) == LET n == Len(a.s) IN AEin2(AConj(a), Sites(n), b, Sites(n), <<>>)
NormSqA(a) == Overlap(a, a)
\* g acts on the sites of q (0-based): g has outputs then inputs
Gate(psi, g, q) ==
  LET n == Len(psi.s)
      m == Len(q)
      out == [k \in 1..m |-> n + k]
      inn == [k \in 1..m |-> q[k] + 1]
      res == [k \in 1..n |-> IF \E j \in 1..m : q[j] + 1 = k THEN n + (CHOOSE j \in 1..m : q[j] + 1 = k) ELSE k]
  IN AEin2(g, out \o inn, psi, Sites(n), res)
\* rescale when it is too fine
Norm8(a, f) == IF a.f > f THEN ARescale(a, f) ELSE a
TimesScalar(a, z) == AEin2(a, Sites(Len(a.s)), ScalarA(z), <<>>, Sites(Len(a.s)))
NearIn(a, b, f) == NearA(Norm8(a, f), Norm8(b, f))
\* isometries
LeftIsoT(t) == LeftIso(AReshape(t, <<t.s[1] * t.s[2], t.s[3]>>))
RightIsoT(t) == RightIso(AReshape(t, <<t.s[1], t.s[2] * t.s[3]>>))
CanonLeft(ts, c) == \A k \in 1..c : LeftIsoT(ts[k])
CanonRight(ts, c) == \A k \in (c + 2)..Len(ts) : RightIsoT(ts[k])
\* shapes fit together and to the state
ShapesOK(ts, s) ==
  /\ Len(ts) = Len(s)
  /\ \A k \in DOMAIN ts : Len(ts[k].s) = 3 /\ ts[k].s[2] = s[k]
  /\ \A k \in 1..(Len(ts) - 1) : ts[k].s[3] = ts[k + 1].s[1]
\* the dense state of exact tensors
DenseOf(ts) ==
  LET n == Len(ts)
      lab == [k \in 1..n |-> <<100 + k, k, 101 + k>>]
      t == Einsum(ts, lab, <<101>> \o Sites(n) \o <<101 + n>>)
  IN Reshape(t, SubSeq(t.s, 2, n + 1))
\* a certificate [u, s, v] for the singular values of psi across bond b (1..n-1)
AsMat(psi, b) == AMat(psi, b)
CertOK(cert, m) ==
  /\ LeftIso(cert.u) /\ RightIso(cert.v) /\ SortedNonNeg(cert.s)
  /\ NearIn(AEin2(Norm8(ADiagR(cert.u, cert.s), cert.u.f), <<0, 1>>, cert.v, <<1, 2>>, <<0, 2>>), m, cert.u.f)
\* sums of squares of singular values s[j+1..], in units 1/f2 (coarse)
Coarse(s) == ARescale(s, 1024)
TailSq(s, k) == LET c == Coarse(s) IN SumSeq([j \in 1..(Len(c.d) - k) |-> c.d[k + j] * c.d[k + j]])
TailErr(s, k) == LET c == Coarse(s) IN SumSeq([j \in 1..(Len(c.d) - k) |-> 2 * AbsI(c.d[k + j]) * c.e + c.e * c.e])
\* k values are kept: as few as the bound allows, at most maxsv
\* (err = p / q with q <= 8; tolerance on the boundary; nl values exist)
KeptOK(s, nl, k, maxx, maxsv, errx, p, q, rel) ==
  LET c == Coarse(s)
      lim == IF rel = 1 THEN c.d[1] * c.d[1] ELSE 1024 * 1024
      lerr == IF rel = 1 THEN 2 * c.d[1] * c.e + c.e * c.e ELSE 0
      fits(j) == q * q * (TailSq(s, j) - TailErr(s, j)) <= p * p * (lim + lerr)
      over(j) == q * q * (TailSq(s, j) + TailErr(s, j)) >= p * p * (lim - lerr)
      most == IF maxx = 1 /\ maxsv < nl THEN maxsv ELSE nl
  IN /\ k >= 1 /\ k <= most
     /\ IF errx = 0 THEN k = most
        ELSE /\ (k = most \/ fits(k))
             /\ (k = 1 \/ over(k - 1))
\* phi is the best approximation of psi that keeps k singular values
BestOK(phi, psi, s, k) ==
  LET a == Overlap(phi, psi)
      b == NormSqA(phi)
      c == Coarse(s)
      want == SumSeq([j \in 1..k |-> c.d[j] * c.d[j]])
      werr == SumSeq([j \in 1..k |-> 2 * AbsI(c.d[j]) * c.e + c.e * c.e])
      f2 == 1024 * 1024
  IN /\ NearIn(a, b, 8192)
     /\ NearA(Norm8(b, 8192), ARescale(A(<<>>, <<want>>, 0, f2, werr), 8192))
=============================================================================
