---------------------------- MODULE DecompTrace -----------------------------
EXTENDS Decomp, TraceLib
VARIABLES tr, l
Ap(x) == A(x.s, x.d, x.c, x.f, x.e)
TT(x) == [s |-> x.s, d |-> x.d, c |-> x.c]

\* what a full spectral split must satisfy; U S V with the left factor carrying
\* all (w = 0: S separate), half (w = 1: sqrt into both)
Factors(P, meth, L, M, R, a, m0, k, best) ==
  \* L: (m x k), R: (k x n) approximations, M: (k x k) middle matrix (full) ; m0 exact matrix wanted
  LET m == m0.s[1]
      n == m0.s[2]
      shp == L.s = <<m, k>> /\ R.s = <<k, n>> /\ (IF meth = "full" THEN M.s = <<k, k>> ELSE TRUE)
  IN IF ~shp THEN {P \o ":bond_dimension"}
     ELSE UNION {
       IF ~best THEN {}
       ELSE LET LM == IF meth = "full" THEN ARescale(AMatmul(L, M), L.f) ELSE L
            IN If(~NearExact(ARescale(AMatmul(LM, R), L.f), m0), {P \o ":product"}),
       IF meth = "qr" THEN If(~LeftIso(L), {P \o ":isometry"})
       ELSE IF meth = "rq" THEN If(~RightIso(R), {P \o ":isometry"})
       ELSE IF meth = "full"
            THEN If(~LeftIso(L) \/ ~RightIso(R), {P \o ":isometry"})
                 \cup If(~DiagonalOnly(M) \/ ~SortedNonNeg(DiagOf(M)), {P \o ":singular_values"})
       ELSE LET gl == ARescale(AMatmul(ADagger(L), L), L.f)
                gr == ARescale(AMatmul(R, ADagger(R)), L.f)
            IN If(~DiagonalOnly(gl) \/ ~DiagonalOnly(gr), {P \o ":isometry"})
               \cup If(~SortedNonNeg(DiagOf(gl)) \/ ~NearA(DiagOf(gl), DiagOf(gr)), {P \o ":singular_values"}) }

Spectrum(P, meth, L, M, R, sig) ==
  IF meth = "full" THEN If(~NearExact(DiagOf(M), VecExact(sig)), {P \o ":singular_values"})
  ELSE IF meth = "svd" THEN If(~NearExact(DiagOf(ARescale(AMatmul(ADagger(L), L), L.f)), VecExact(sig)), {P \o ":singular_values"})
  ELSE {}

Split(ev) ==
  LET a == ev.a
      pre == ev.pre
      post == ev.post
      nd == Nd(pre, a.n)
      P == IF a.spec = 1 THEN "D02" ELSE "D01"
      m0 == AsMatrix(nd, a.left, a.right)
      full == a.meth = "full"
      bond == IF full THEN <<ev.r.bl, ev.r.br>> ELSE <<ev.r.bl, ev.r.bl>>
      others == Ids(pre) \ {a.n}
      newids == {ev.r.l, ev.r.r} \cup (IF full THEN {ev.r.m} ELSE {})
      struct ==
        UNION {
          If(Ids(post) # others \cup newids \/ Cardinality(newids) # (IF full THEN 3 ELSE 2) \/ newids \cap Ids(pre) # {}, {"D01:nodes"}),
          If(\E i \in others : i \in Ids(post) /\ Nd(pre, i) # Nd(post, i), {"D01:others_changed"}),
          If(ev.r.old # 1, {"D01:original_not_detached"}),
          If(ev.r.inc # 1, {"D01:incidence"}) }
  IN IF ev.ok = 0 THEN {P \o ":spurious_error"}
     ELSE IF struct # {} THEN struct
     ELSE
     LET LN == Nd(post, ev.r.l)
         RN == Nd(post, ev.r.r)
         edgesok == LN.e = a.left \o <<bond[1]>> /\ RN.e = <<bond[2]>> \o a.right
                    /\ (IF full THEN Nd(post, ev.r.m).e = bond ELSE TRUE)
                    /\ SetOf(bond) \cap UNION {SetOf(pre[k].e) : k \in DOMAIN pre} = {}
         ld == DimsOf(nd, a.left)
         rd == DimsOf(nd, a.right)
         shapeok == SubSeq(LN.t.s, 1, Len(ld)) = ld /\ SubSeq(RN.t.s, 2, Len(RN.t.s)) = rd
                    /\ Len(LN.t.s) = Len(ld) + 1 /\ Len(RN.t.s) = Len(rd) + 1
         names == UNION {
            If(a.lnx = 1 /\ LN.nm # a.ln, {P \o ":node_name"}),
            If(a.rnx = 1 /\ RN.nm # a.rn, {P \o ":node_name"}),
            If(full /\ a.mnx = 1, If(Nd(post, ev.r.m).nm # a.mn, {P \o ":node_name"})),
            If(a.enx = 1, If(ev.r.bnl # a.en1 \/ (full /\ ev.r.bnr # a.en2), {P \o ":edge_name"})),
            If(ev.r.keptnames # 1, {P \o ":edge_name"}),
            If(a.enx = 1, If(
               LN.an # [k \in DOMAIN a.left |-> nd.an[AxisOf(nd, a.left[k])]] \o <<a.en1>>
               \/ RN.an # <<IF full THEN a.en2 ELSE a.en1>> \o [k \in DOMAIN a.right |-> nd.an[AxisOf(nd, a.right[k])]]
               \/ (IF full THEN Nd(post, ev.r.m).an # <<a.en1, a.en2>> ELSE FALSE), {P \o ":axis_names"})) }
     IN IF ~edgesok THEN {"D01:edges"} \cup names
        ELSE IF ~shapeok THEN {"D01:shape"} \cup names
        ELSE
        LET L == AReshape(Ap(LN.t), <<m0.s[1], LN.t.s[Len(LN.t.s)]>>)
            R == AReshape(Ap(RN.t), <<RN.t.s[1], m0.s[2]>>)
            M == IF full THEN Ap(Nd(post, ev.r.m).t) ELSE L
            all == MinI(m0.s[1], m0.s[2])
        IN names \cup
           (IF a.spec = 0
            THEN Factors("D01", a.meth, L, M, R, a, m0, all, TRUE)
                 \cup If(a.meth \in {"svd", "full"}, If(ev.r.trun.s # <<0>>, {"D01:truncated_values"}))
            ELSE LET sig == a.sig
                     k == Keep(sig, a.maxx, a.max, a.errx, a.ep, a.eq, a.rel)
                     best == k = 0 \/ k = Len(sig) \/ (IF k > 0 /\ k < Len(sig) THEN sig[k] > sig[k + 1] ELSE TRUE)
                     want == Matmul(TT(a.q1), Matmul(RectDiag(m0.s[1], m0.s[2], SubSeq(a.sv, 1, k)), TT(a.q2)))
                 IN IF k = 0 THEN If(LN.t.s[Len(LN.t.s)] # 0, {"D02:kept"})
                    ELSE LET fs == Factors("D02", a.meth, L, M, R, a, want, k, best)
                    IN (IF "D02:bond_dimension" \in fs THEN fs
                        ELSE fs \cup Spectrum("D02", a.meth, L, M, R, SubSeq(sig, 1, k)))
                       \cup If(ev.r.trun.s # <<Len(sig) - k>>, {"D02:truncated_values"})
                       \cup If(ev.r.trun.s = <<Len(sig) - k>> /\ ~NearExact(Ap(ev.r.trun), VecExact(SubSeq(sig, k + 1, Len(sig)))), {"D02:truncated_values"}))

\* tn.svd / qr / rq on a Tensor with a pivot axis
Plain(ev) ==
  LET a == ev.a
      P == IF a.spec = 1 THEN "D02" ELSE "D01"
      t == TT(a.t)
      m0 == Reshape(t, <<ProdSeq(SubSeq(t.s, 1, a.pivot)), ProdSeq(SubSeq(t.s, a.pivot + 1, Len(t.s)))>>)
      ld == SubSeq(t.s, 1, a.pivot)
      rd == SubSeq(t.s, a.pivot + 1, Len(t.s))
  IN IF ev.ok = 0 THEN {P \o ":spurious_error"}
     ELSE LET LT == ev.r.lt
              RT == ev.r.rt
              shapeok == Len(LT.s) = Len(ld) + 1 /\ Len(RT.s) = Len(rd) + 1
                         /\ SubSeq(LT.s, 1, Len(ld)) = ld /\ SubSeq(RT.s, 2, Len(RT.s)) = rd
              all == MinI(m0.s[1], m0.s[2])
          IN IF ~shapeok THEN {P \o ":shape"}
             ELSE LET L == AReshape(Ap(LT), <<m0.s[1], LT.s[Len(LT.s)]>>)
                      R == AReshape(Ap(RT), <<RT.s[1], m0.s[2]>>)
                      kk == LT.s[Len(LT.s)]
                      M == IF a.meth = "full"
                           THEN [Ap(ev.r.mt) EXCEPT !.s = <<Len(ev.r.mt.d), Len(ev.r.mt.d)>>,
                                  !.d = TLCEval([j \in 1..(Len(ev.r.mt.d) * Len(ev.r.mt.d)) |->
                                     IF (j - 1) \div Len(ev.r.mt.d) = (j - 1) % Len(ev.r.mt.d) THEN ev.r.mt.d[((j - 1) % Len(ev.r.mt.d)) + 1]
                                     ELSE IF ev.r.mt.c = 1 THEN <<0, 0>> ELSE 0])]
                           ELSE L
                      nneg == IF a.nn = 1
                              THEN If(~ \A j \in DOMAIN DiagOf(IF a.meth = "qr" THEN R ELSE L).d :
                                        LET D == DiagOf(IF a.meth = "qr" THEN R ELSE L)
                                        IN ReE(D.c, D.d[j]) >= -D.e /\ AbsI(ImE(D.c, D.d[j])) <= D.e, {P \o ":non_negative_diagonal"})
                              ELSE {}
                  IN IF a.spec = 0
                     THEN Factors("D01", a.meth, L, M, R, a, m0, all, TRUE) \cup nneg
                          \cup If(a.meth = "full", If(ev.r.trun.s # <<0>>, {"D01:truncated_values"}))
                          \cup If(ev.r.same # 1, {"D01:operand_modified"})
                     ELSE LET sig == a.sig
                              k == Keep(sig, a.maxx, a.max, a.errx, a.ep, a.eq, a.rel)
                              best == k = Len(sig) \/ (IF k > 0 /\ k < Len(sig) THEN sig[k] > sig[k + 1] ELSE TRUE)
                              want == Matmul(TT(a.q1), Matmul(RectDiag(m0.s[1], m0.s[2], SubSeq(a.sv, 1, k)), TT(a.q2)))
                          IN (IF k = 0 THEN If(kk # 0, {"D02:kept"})
                              ELSE LET fs == Factors("D02", a.meth, L, M, R, a, want, k, best)
                                   IN IF "D02:bond_dimension" \in fs THEN fs
                                      ELSE fs \cup Spectrum("D02", a.meth, L, M, R, SubSeq(sig, 1, k)))
                             \cup If(ev.r.trun.s # <<Len(sig) - k>>, {"D02:truncated_values"})
                             \cup If(ev.r.trun.s = <<Len(sig) - k>> /\ ~NearExact(Ap(ev.r.trun), VecExact(SubSeq(sig, k + 1, Len(sig)))), {"D02:truncated_values"})
Judge(ev) == CASE ev.op = "split" -> Split(ev) [] ev.op = "plain" -> Plain(ev)
Init == tr \in 1..Len(Traces) /\ l = 0
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1] IN Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
