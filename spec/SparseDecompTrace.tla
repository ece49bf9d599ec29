-------------------------- MODULE SparseDecompTrace --------------------------
(* Recorded decompositions of block-sparse tensors.  Every step is a call on *)
(* an exactly known tensor, so the state is only the position in the trace.  *)
EXTENDS SparseDecomp, TraceLib
VARIABLES tr, l
M == Traces[tr].m
Ap(x) == A(x.s, x.d, x.c, x.f, x.e)
TT(x) == [s |-> x.s, d |-> x.d, c |-> x.c]
MatOf(a) == Reshape(TT(a.t), <<ProdSeq(SubSeq(a.t.s, 1, a.p)), ProdSeq(SubSeq(a.t.s, a.p + 1, Len(a.t.s)))>>)
LL(a) == SubSeq(a.leg, 1, a.p)
RL(a) == SubSeq(a.leg, a.p + 1, Len(a.leg))
\* stored blocks, entries outside of them zero
Blocks(x) == x.t.s = LegShape(x.leg) /\ (IF x.arr = 1 THEN TRUE ELSE x.nd = NAllowed(M, x.leg) /\ Symmetric(M, x.leg, TT(x.t)))
\* the tensors of a factorisation carry the right legs; mid is <<>> or the array of values
LegsOK(a, L, mid, R) ==
  IF Len(L.leg) # a.p + 1 \/ Len(R.leg) # Len(a.leg) - a.p + 1 THEN FALSE
  ELSE LET b1 == L.leg[a.p + 1]
           b2 == R.leg[1]
       IN /\ SubSeq(L.leg, 1, a.p) = LL(a) /\ SubSeq(R.leg, 2, Len(R.leg)) = RL(a)
          /\ Mirror(b1, b2)
          /\ (IF mid = <<>> THEN TRUE ELSE
              IF Len(mid[1].leg) = 1 THEN mid[1].leg[1] \in {b1, b2}
              ELSE Len(mid[1].leg) = 2 /\ Mirror(b1, mid[1].leg[1]) /\ Mirror(mid[1].leg[2], b2))
AsMat(x, nl) == LET t == Ap(x.t) IN AReshape(t, <<ProdSeq(SubSeq(t.s, 1, nl)), ProdSeq(SubSeq(t.s, nl + 1, Len(t.s)))>>)
Vec(x) == LET t == Ap(x.t) IN IF Len(t.s) = 1 THEN t ELSE DiagOf(t)
Prod2(l2, r2) == ARescale(AMatmul(l2, r2), l2.f)

Svd(ev) ==
  LET a == ev.a
      L == ev.r.l
      R == ev.r.r
      full == ev.r.mx = 1            \* values returned separately
      mat == MatOf(a)
      rows == RowQ(M, LL(a))
      K == Len(a.pairs)
      sig == Values(a.pairs)
      k == IF K = 0 THEN 0 ELSE Keep(sig, a.maxx, a.max, a.errx, a.ep, a.eq, a.rel)
      tie == k > 0 /\ (IF k < K THEN sig[k] = sig[k + 1] ELSE FALSE)
  IN IF ~Premise(mat, TT(a.q1), a.sv, TT(a.q2), a.pairs) THEN {"driver:premise"}
     ELSE IF ~LegsOK(a, L, IF full THEN <<ev.r.m>> ELSE <<>>, R) THEN {"S03:legs"}
     ELSE IF ~Blocks(L) \/ ~Blocks(R) THEN {"S03:blocks"}
     ELSE IF L.t.s[a.p + 1] # k THEN {"S03:bond_dimension"}
     ELSE LET l2 == AsMat(L, a.p)
              r2 == AsMat(R, 1)
              gl == Prod2(ADagger(l2), l2)
              vals == IF k = 0 THEN A(<<0>>, <<>>, 0, l2.f, 1) ELSE IF full THEN Vec(ev.r.m) ELSE DiagOf(gl)
              q == AxQ(M, R.leg[1])
              kept == PairsOf(q, vals)
              disc == IF ev.r.dx = 1 THEN PairsOf(AxQ(M, ev.r.d.leg[1]), Vec(ev.r.d)) ELSE SubSeq(a.pairs, k + 1, K)
              lm == IF full THEN Prod2(l2, ADiagMat(vals)) ELSE l2
          IN (IF k = 0 THEN {} ELSE UNION {
                If(full /\ (~LeftIso(l2) \/ ~RightIso(r2)), {"S03:isometry"}),
                If(~full, If(~DiagonalOnly(gl) \/ ~NearA(gl, Prod2(r2, ADagger(r2))), {"S03:isometry"})),
                If(~IntegerLike(vals), {"S03:values"}),
                If(~KeptRight(a.pairs, kept, k), {"S03:kept"}),
                If(full, If(ev.r.m.t.s # (IF Len(ev.r.m.leg) = 1 THEN <<k>> ELSE <<k, k>>) \/ (Len(ev.r.m.leg) = 2 /\ ~DiagonalOnly(Ap(ev.r.m.t))), {"S03:values"})),
                If(~tie, If(~NearExact(Prod2(lm, r2), Best(TT(a.q1), a.sv, TT(a.q2), k)), {"S03:product"})) })
             \cup If(ev.r.dx = 1, If(~SameBag(kept \o disc, a.pairs) \/ (IF Len(disc) = 0 THEN FALSE ELSE ~IntegerLike(Vec(ev.r.d))), {"S03:discarded"}))

\* numpy-like block_sparse.svd of a matrix
BSvd(ev) ==
  LET a == ev.a
      mat == MatOf(a)
      rows == RowQ(M, LL(a))
      cols == ColQ(M, RL(a))
      S == ev.r.m
      sq == AxQ(M, S.leg[1])
      kept == PairsOf(sq, Vec(S))
      K == Len(a.pairs)
  IN IF ~Premise(mat, TT(a.q1), a.sv, TT(a.q2), a.pairs) THEN {"driver:premise"}
     ELSE If(Len(S.leg) # 1 \/ S.arr # 1, {"S03:legs"})
          \cup If(~SameBag(kept, a.pairs) \/ ~IntegerLike(Vec(S)), {"S03:values"})
          \cup (IF a.uv = 0 THEN {}
                ELSE IF SubSeq(ev.r.l.leg, 1, 1) # LL(a) \/ SubSeq(ev.r.r.leg, 2, 2) # RL(a) \/ Len(ev.r.l.leg) # 2 \/ Len(ev.r.r.leg) # 2 THEN {"S03:legs"}
                ELSE LET l2 == Ap(ev.r.l.t)
                         r2 == Ap(ev.r.r.t)
                         bl == QDual(M, AxQ(M, ev.r.l.leg[2]), 1)
                         br == AxQ(M, ev.r.r.leg[1])
                         \* the k-th value of a sector sits at the k-th place of the sector on both bonds
                         mid == A(<<Len(bl), Len(br)>>, TLCEval([j \in 1..(Len(bl) * Len(br)) |->
                                   LET x == ((j - 1) \div Len(br)) + 1
                                       y == ((j - 1) % Len(br)) + 1
                                   IN IF bl[x] = br[y] /\ RankIn(bl, x) = RankIn(br, y)
                                         /\ \E z \in DOMAIN sq : sq[z] = bl[x] /\ RankIn(sq, z) = RankIn(bl, x)
                                      THEN Vec(S).d[CHOOSE z \in DOMAIN sq : sq[z] = bl[x] /\ RankIn(sq, z) = RankIn(bl, x)]
                                      ELSE Zero(S.t.c)]), S.t.c, S.t.f, S.t.e)
                     IN UNION {
                       If(~Blocks(ev.r.l) \/ ~Blocks(ev.r.r), {"S03:blocks"}),
                       If(BagOf(bl) # (IF a.fm = 1 THEN RowBag(rows, cols) ELSE SectorBag(rows, cols))
                          \/ BagOf(br) # (IF a.fm = 1 THEN RowBag(cols, rows) ELSE SectorBag(rows, cols)), {"S03:bond_dimension"}),
                       IF Len(bl) = 0 THEN {} ELSE If(~LeftIso(l2) \/ ~RightIso(r2), {"S03:isometry"})
                          \cup If(~NearExact(Prod2(Prod2(l2, mid), r2), mat), {"S03:product"}) })

Qr(ev) ==
  LET a == ev.a
      mat == MatOf(a)
      L == ev.r.l
      R == ev.r.r
      rows == RowQ(M, LL(a))
      cols == ColQ(M, RL(a))
  IN IF a.mode = "r" THEN
        (IF R.leg[Len(R.leg)] # RL(a)[1] \/ Len(R.leg) # 2 THEN {"S03:legs"}
         ELSE IF ~Blocks(R) THEN {"S03:blocks"}
         ELSE LET r2 == Ap(R.t) IN
              IF R.t.s[1] = 0 THEN If(SectorBag(rows, cols) # {}, {"S03:bond_dimension"})
              ELSE If(~NearExact(Prod2(ADagger(r2), r2), Matmul(ExDagger(mat), mat)), {"S03:product"}))
     ELSE IF ~LegsOK(a, L, <<>>, R) THEN {"S03:legs"}
     ELSE IF ~Blocks(L) \/ ~Blocks(R) THEN {"S03:blocks"}
     ELSE IF BagOf(AxQ(M, R.leg[1])) # (IF a.mode = "complete" THEN RowBag(rows, cols) ELSE SectorBag(rows, cols)) THEN {"S03:bond_dimension"}
     ELSE IF L.t.s[a.p + 1] = 0 THEN {}
     ELSE LET l2 == AsMat(L, a.p)
              r2 == AsMat(R, 1)
          IN If(IF a.meth = "qr" THEN ~LeftIso(l2) ELSE ~RightIso(r2), {"S03:isometry"})
             \cup If(~NearExact(Prod2(l2, r2), mat), {"S03:product"})

Eig(ev) ==
  LET a == ev.a
      mat == MatOf(a)
      V == ev.r.l
      E == ev.r.m
  IN IF Len(V.leg) # 2 \/ Len(E.leg) # 1 THEN {"S03:legs"}
     ELSE IF V.leg[1] # a.leg[1] \/ AxDim(V.leg[2]) # AxDim(E.leg[1])
             \/ E.leg[1] \notin {V.leg[2], FlipAx(V.leg[2])} THEN {"S03:legs"}
     ELSE IF ~Blocks(V) THEN {"S03:blocks"}
     ELSE LET v2 == Ap(V.t)
              e2 == Vec(E)
              q == QDual(M, AxQ(M, V.leg[2]), 1)
          IN UNION {
             If(~IntegerLike(e2) \/ ~SameBag(PairsOf(q, e2), a.pairs), {"S03:values"}),
             If(v2.s[2] # mat.s[1], {"S03:bond_dimension"}),
             IF v2.s[2] # mat.s[1] THEN {}
             ELSE If(~NearA(AEin2(ExactA(mat, 1), <<0, 1>>, v2, <<1, 2>>, <<0, 2>>), Prod2(v2, ADiagMat(e2))), {"S03:product"})
                  \cup (IF a.meth = "eigh" THEN If(~LeftIso(v2) \/ ~RightIso(v2), {"S03:isometry"})
                        ELSE If(~NearA(DiagOf(Prod2(ADagger(v2), v2)), ExactA(T(<<v2.s[2]>>, [i \in 1..v2.s[2] |-> 1]), v2.f)), {"S03:isometry"})) }

Inv(ev) ==
  LET a == ev.a
      mat == MatOf(a)
      X == ev.r.l
      want == <<FlipAx(a.leg[2]), FlipAx(a.leg[1])>>
  IN IF X.leg # want THEN {"S03:legs"}
     ELSE IF ~Blocks(X) THEN {"S03:blocks"}
     ELSE IF ev.op = "inv" THEN If(~Eq(Matmul(mat, TT(X.t)), EyeNM(mat.s[1], mat.s[1])) \/ X.t.x # 1, {"S03:product"})
     ELSE LET x == Ap(X.t)
              am == ExactA(mat, 1)
              ax == AMatmul(am, x)
              xa == AMatmul(x, am)
          IN If(~Hermitian(ax) \/ ~Hermitian(xa) \/ ~NearExact(AMatmul(ax, am), mat)
                \/ ~NearA(Prod2(xa, x), x), {"S03:product"})
Sqrt(ev) ==
  LET X == ev.r.l IN
  IF X.leg # ev.a.leg THEN {"S03:legs"}
  ELSE IF ~Blocks(X) THEN {"S03:blocks"}
  ELSE If(X.t.x # 1 \/ (IF X.t.c = 1 THEN TRUE ELSE \E k \in DOMAIN X.t.d : X.t.d[k] < 0 \/ X.t.d[k] * X.t.d[k] # ev.a.t.d[k]), {"S03:values"})

Judge(ev) ==
  IF ev.ok = 0 THEN (IF ev.a.bad = 1 THEN {} ELSE {"S03:spurious_error"})
  ELSE IF ev.a.bad = 1 THEN {"S03:accepted_invalid"}
  ELSE (CASE ev.op = "svd" -> Svd(ev) [] ev.op = "bsvd" -> BSvd(ev) [] ev.op = "qr" -> Qr(ev)
          [] ev.op = "eig" -> Eig(ev) [] ev.op \in {"inv", "pinv"} -> Inv(ev) [] ev.op = "sqrt" -> Sqrt(ev))
       \cup (IF ev.op \in {"svd", "qr"} THEN If(ev.r.r.t.c # ev.a.t.c \/ (ev.r.l.leg # <<>> /\ ev.r.l.t.c # ev.a.t.c), {"S03:dtype"}) ELSE {})
       \cup (IF ev.op \in {"inv", "pinv", "sqrt"} THEN If(ev.r.l.t.c # ev.a.t.c, {"S03:dtype"}) ELSE {})
       \cup If(ev.same # 1, {"S03:operand_modified"})
Init == tr \in 1..Len(Traces) /\ l = 0
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1] IN Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
