-------------------------------- MODULE Dmrg --------------------------------
(***************************************************************************)
(* Ground state search on a matrix product state.                           *)
(* Environments: L[m] contains the sites 0..m-1, R[m] the sites m+1..N-1,    *)
(* with axes (operator bond, state bond, conjugate state bond).              *)
(* W[k] has axes (left, right, out, in) and unit 1/16.                        *)
(***************************************************************************)
EXTENDS Mps
F == 8192
Op(w) == A(w.s, w.d, w.c, 16, 0)
To(a) == Norm8(a, F)
LayerL(L, t, w) ==
  LET x == To(AEin2(L, <<1, 2, 3>>, t, <<2, 4, 5>>, <<1, 4, 5, 3>>))
      y == To(AEin2(x, <<1, 4, 5, 3>>, Op(w), <<1, 6, 7, 4>>, <<6, 7, 5, 3>>))
  IN To(AEin2(y, <<6, 7, 5, 3>>, AConj(t), <<3, 7, 8>>, <<6, 5, 8>>))
LayerR(R, t, w) ==
  LET x == To(AEin2(R, <<1, 2, 3>>, t, <<5, 4, 2>>, <<1, 4, 5, 3>>))
      y == To(AEin2(x, <<1, 4, 5, 3>>, Op(w), <<6, 1, 7, 4>>, <<6, 7, 5, 3>>))
  IN To(AEin2(y, <<6, 7, 5, 3>>, AConj(t), <<8, 7, 3>>, <<6, 5, 8>>))
Ones3 == A(<<1, 1, 1>>, <<F>>, 0, F, 0)
Keys(q) == {q[j].k : j \in DOMAIN q}
At(q, m) == q[CHOOSE j \in DOMAIN q : q[j].k = m].t
\* the block that the stored blocks left of m imply
RECURSIVE FromLeft(_, _, _, _)
FromLeft(q, ts, ws, m) ==
  IF m = 0 THEN Ones3
  ELSE LayerL(IF m - 1 \in Keys(q) THEN At(q, m - 1) ELSE FromLeft(q, ts, ws, m - 1), ts[m], ws[m])
RECURSIVE FromRight(_, _, _, _)
FromRight(q, ts, ws, m) ==
  IF m = Len(ts) - 1 THEN Ones3
  ELSE LayerR(IF m + 1 \in Keys(q) THEN At(q, m + 1) ELSE FromRight(q, ts, ws, m + 1), ts[m + 2], ws[m + 2])
\* stored blocks on the side away from the centre are not meant to be current
LeftOK(q, ts, ws, c) == \A m \in {k \in Keys(q) : k <= c} : NearA(At(q, m), FromLeft(q, ts, ws, m))
RightOK(q, ts, ws, c) == \A m \in {k \in Keys(q) : k >= c} : NearA(At(q, m), FromRight(q, ts, ws, m))
\* <psi|H|psi> of the flattened state
FlatA(psi) == AReshape(psi, <<ProdSeq(psi.s)>>)
HPsi(h, psi) == To(AEin2(h, <<1, 2>>, FlatA(psi), <<2>>, <<1>>))
Energy(h, psi) == To(AEin2(AConj(FlatA(psi)), <<1>>, HPsi(h, psi), <<1>>, <<>>))
\* H V = V diag(w), V unitary, w increasing
SpectrumOK(h, v, w) ==
  /\ LeftIso(v)
  /\ \A k \in 1..(Len(w.d) - 1) : w.d[k] <= w.d[k + 1] + 2
  /\ NearA(To(AEin2(h, <<1, 2>>, v, <<2, 3>>, <<1, 3>>)), To(ADiagR(v, w)))
\* the same ray, with a positive factor
SameRay(a, b) ==
  LET o == To(Overlap(a, b))
  IN /\ ReE(o.c, o.d[1]) > 0
     /\ NearA(To(AEin2(o, <<>>, o, <<>>, <<>>)), To(AEin2(To(NormSqA(a)), <<>>, To(NormSqA(b)), <<>>, <<>>)))
=============================================================================
