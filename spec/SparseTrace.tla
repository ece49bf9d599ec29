---------------------------- MODULE SparseTrace -----------------------------
(* Recorded histories of block-sparse tensors: the state is the pool of      *)
(* tensors built so far; operands are named by pool position.  Every result  *)
(* carries its dense form, its elementary legs and the number of stored      *)
(* elements.                                                                  *)
EXTENDS BlockSparse, TraceLib
VARIABLES tr, l, pool, on
If(b, s) == IF b THEN s ELSE {}
M == Traces[tr].m
TT(x) == [s |-> x.s, d |-> x.d, c |-> x.c]
B(L, t) == [leg |-> L, t |-> t, arr |-> 0]
Arr(L, t) == [leg |-> L, t |-> t, arr |-> 1]
X(ev) == pool[ev.a.x + 1]
Y(ev) == pool[ev.a.y + 1]
Rank2(b) == Len(b.leg)
NaxS(k, r) == IF k < 0 THEN k + r ELSE k
NaxQ(q, r) == [k \in DOMAIN q |-> NaxS(q[k], r)]
InR(q, r) == \A k \in DOMAIN q : q[k] >= -r /\ q[k] < r
Pick(L, q) == [k \in 1..Len(q) |-> L[q[k] + 1]]
Rest(r, q) == SelectSeq(Range0(r), LAMBDA k : k \notin SetOf(q))
\* 1: must be accepted, 0: must be rejected, 2: may be either
Req(must, mustnot) == IF mustnot THEN 0 ELSE IF must THEN 1 ELSE 2
TdAx(ev) == NaxQ(ev.a.ax, Rank2(X(ev)))
TdBx(ev) == NaxQ(ev.a.bx, Rank2(Y(ev)))
TdShapeOK(ev) ==
  IF Len(ev.a.ax) # Len(ev.a.bx) THEN FALSE
  ELSE IF ~InR(ev.a.ax, Rank2(X(ev))) \/ ~InR(ev.a.bx, Rank2(Y(ev))) THEN FALSE
  ELSE Distinct(TdAx(ev)) /\ Distinct(TdBx(ev))
LabAxes(ev, lab) == {ta \in UNION {{<<t, a>> : a \in DOMAIN ev.a.labs[t]} : t \in DOMAIN ev.a.labs} : ev.a.labs[ta[1]][ta[2]] = lab}
NetLeg(ev, ta) == pool[ev.a.xs[ta[1]] + 1].leg[ta[2]]
Status(ev) ==
  CASE ev.op = "fromdense" -> Req(TRUE, ev.a.t.s # LegShape(ev.a.leg))
    [] ev.op = "transpose" -> LET r == Rank2(X(ev)) IN
         IF Len(ev.a.perm) # r THEN 0 ELSE IF ~InR(ev.a.perm, r) THEN 0
         ELSE IF Distinct(NaxQ(ev.a.perm, r)) THEN 1 ELSE 0
    [] ev.op = "H" -> Req(TRUE, Rank2(X(ev)) # 2)
    [] ev.op = "reshape" -> LET ok == CanGroup([k \in DOMAIN FlatLegs(X(ev).leg) |-> ElDim(FlatLegs(X(ev).leg)[k])], ev.a.shape)
                            IN Req(ok, ~ok)
    [] ev.op \in {"add", "sub"} ->
         Req(X(ev).leg = Y(ev).leg,
             IF LegShape(X(ev).leg) # LegShape(Y(ev).leg) THEN TRUE
             ELSE \E k \in DOMAIN X(ev).leg : AxQ(M, X(ev).leg[k]) # AxQ(M, Y(ev).leg[k]))
    [] ev.op = "tensordot" ->
         IF ~TdShapeOK(ev) THEN 0
         ELSE LET lx == Pick(X(ev).leg, TdAx(ev))
                  ly == Pick(Y(ev).leg, TdBx(ev))
              IN Req(\A k \in DOMAIN lx : Mirror(lx[k], ly[k]), \E k \in DOMAIN lx : ~Opposite(M, lx[k], ly[k]))
    [] ev.op = "trace" ->
         LET r == Rank2(X(ev)) IN
         IF r < 2 THEN 0 ELSE IF ~InR(ev.a.axes, r) THEN 0
         ELSE LET q == NaxQ(ev.a.axes, r) IN
              IF q[1] = q[2] THEN 0
              ELSE Req(Mirror(X(ev).leg[q[1] + 1], X(ev).leg[q[2] + 1]), ~Opposite(M, X(ev).leg[q[1] + 1], X(ev).leg[q[2] + 1]))
    [] ev.op = "diagm" -> Req(TRUE, Rank2(X(ev)) # 2)
    [] ev.op = "item" -> Req(TRUE, ProdSeq(X(ev).t.s) # 1)
    [] ev.op = "bright" -> Req(Mirror(X(ev).leg[Rank2(X(ev))], Y(ev).leg[1]), ~Opposite(M, X(ev).leg[Rank2(X(ev))], Y(ev).leg[1]))
    [] ev.op = "bleft" -> Req(Mirror(X(ev).leg[1], FlipAx(Y(ev).leg[1])), ~Opposite(M, X(ev).leg[1], FlipAx(Y(ev).leg[1])))
    [] OTHER -> 1
\* expected tensor-valued results
Expect(ev) ==
  CASE ev.op = "fromdense" -> B(ev.a.leg, Masked(M, ev.a.leg, TT(ev.a.t)))
    [] ev.op = "const" -> B(ev.a.leg, Masked(M, ev.a.leg, Const(LegShape(ev.a.leg), ev.a.v)))
    [] ev.op = "like" -> B(X(ev).leg, Masked(M, X(ev).leg, Const(X(ev).t.s, ev.a.v)))
    [] ev.op = "eye" -> B(ev.a.leg, BlockEye(M, ev.a.leg[1], ev.a.leg[2]))
    [] ev.op \in {"copy", "contiguous"} -> X(ev)
    [] ev.op = "transpose" -> LET q == NaxQ(ev.a.perm, Rank2(X(ev)))
                              IN [X(ev) EXCEPT !.leg = Pick(X(ev).leg, q), !.t = Transpose(X(ev).t, q)]
    [] ev.op = "conj" -> [X(ev) EXCEPT !.leg = FlipLegs(X(ev).leg), !.t = Conj(X(ev).t)]
    [] ev.op = "H" -> [X(ev) EXCEPT !.leg = Pick(X(ev).leg, <<1, 0>>), !.t = Conj(Transpose(X(ev).t, <<1, 0>>))]
    [] ev.op = "reshape" -> [X(ev) EXCEPT !.t = Reshape(X(ev).t, ev.a.shape)]
    [] ev.op = "add" -> B(X(ev).leg, Add(X(ev).t, Y(ev).t))
    [] ev.op = "sub" -> B(X(ev).leg, Sub(X(ev).t, Y(ev).t))
    [] ev.op = "scale" -> B(X(ev).leg, IF ev.a.z[2] = 0 THEN Scale(X(ev).t, ev.a.z[1]) ELSE ScaleC(X(ev).t, ev.a.z))
    [] ev.op = "abs" -> B(X(ev).leg, MapD(X(ev).t, LAMBDA v : IF v < 0 THEN -v ELSE v))
    [] ev.op = "square" -> B(X(ev).leg, MapD(X(ev).t, LAMBDA v : v * v))
    [] ev.op = "sign" -> B(X(ev).leg, MapD(X(ev).t, LAMBDA v : IF v < 0 THEN -1 ELSE IF v > 0 THEN 1 ELSE 0))
    [] ev.op = "tensordot" ->
         B(Pick(X(ev).leg, Rest(Rank2(X(ev)), TdAx(ev))) \o Pick(Y(ev).leg, Rest(Rank2(Y(ev)), TdBx(ev))),
           Tensordot(X(ev).t, Y(ev).t, TdAx(ev), TdBx(ev)))
    [] ev.op = "trace" -> LET q == NaxQ(ev.a.axes, Rank2(X(ev)))
                          IN B(Pick(X(ev).leg, Rest(Rank2(X(ev)), q)), TraceAxes(X(ev).t, q[1], q[2]))
    [] ev.op = "diagv" -> B(<<X(ev).leg[1], FlipAx(X(ev).leg[1])>>, DiagMat(X(ev).t))
    [] ev.op = "bright" -> LET n == Rank2(X(ev))
                               lab == Range0(n)
                           IN B(X(ev).leg, Einsum(<<X(ev).t, Y(ev).t>>, <<lab, <<n - 1>> >>, lab))
    [] ev.op = "bleft" -> LET n == Rank2(X(ev))
                              lab == Range0(n)
                          IN B(X(ev).leg, Einsum(<<X(ev).t, Y(ev).t>>, <<lab, <<0>> >>, lab))
    [] ev.op = "net" -> B([k \in DOMAIN ev.a.out |-> NetLeg(ev, CHOOSE ta \in LabAxes(ev, ev.a.out[k]) : TRUE)],
                          Einsum([k \in DOMAIN ev.a.xs |-> pool[ev.a.xs[k] + 1].t], ev.a.labs, ev.a.out))
SameLegs(r, L, flip) ==
  /\ LegShape(r.leg) = LegShape(L)
  /\ \/ FlatLegs(r.leg) = FlatLegs(L)
     \/ IF flip THEN FlatLegs(r.leg) = FlatLegs(FlipLegs(L)) ELSE FALSE
TensorOps == {"fromdense", "const", "like", "eye", "copy", "contiguous", "transpose", "conj", "H", "reshape", "add", "sub", "scale",
              "abs", "sign", "square", "tensordot", "trace", "diagv", "bright", "bleft", "net"}
\* the ways of obtaining the shape by merging whole neighbouring axes
RECURSIVE Merges(_, _)
Merges(L, shape) ==
  IF Len(shape) = 0 THEN (IF Len(L) = 0 THEN {<<>>} ELSE {})
  ELSE UNION {IF ProdSeq([a \in 1..k |-> AxDim(L[a])]) = Head(shape)
              THEN {<<FlatLegs(SubSeq(L, 1, k))>> \o z : z \in Merges(SubSeq(L, k + 1, Len(L)), Tail(shape))}
              ELSE {} : k \in 1..Len(L)}
\* what every tensor handed out must satisfy
WellFormedS(r) ==
  /\ r.x = 1
  /\ r.t.s = LegShape(r.leg)
  /\ r.nd = (IF r.arr = 1 THEN ProdSeq(r.t.s) ELSE NAllowed(M, r.leg))
  /\ (r.arr = 1 \/ Symmetric(M, r.leg, TT(r.t)))
Tensorial(ev) ==
  LET e == Expect(ev)
      r == ev.r
  IN If(r.t.s # e.t.s, {"S01:shape"})
     \cup (IF r.t.s # e.t.s THEN {} ELSE If(~SameLegs(r, IF ev.op = "reshape" THEN r.leg ELSE e.leg, ev.op = "H"), {"S01:legs"}))
     \cup (IF ev.op = "reshape" THEN If(FlatLegs(r.leg) # FlatLegs(e.leg), {"S01:legs"})
            \cup LET ms == Merges(X(ev).leg, ev.a.shape) IN If(ms # {} /\ r.leg \notin ms, {"S01:grouping"}) ELSE {})
     \cup If(r.arr # e.arr, {"S01:kind"})
     \cup If(~Eq(TT(r.t), e.t), {"S01:value"})
     \cup If(~WellFormedS(r), {"S01:blocks"})
     \cup (IF ev.op = "contiguous" THEN (IF ev.a.perm = <<>> THEN If(r.arr = 0 /\ r.data # Packed(M, r.leg, TT(r.t)), {"S01:layout"}) ELSE {}) ELSE {})
Scalarial(ev) ==
  CASE ev.op = "normsq" -> If(ev.r # SumSeq([k \in 1..Len(X(ev).t.d) |-> IF X(ev).t.c = 1 THEN X(ev).t.d[k][1] * X(ev).t.d[k][1] + X(ev).t.d[k][2] * X(ev).t.d[k][2]
                                                                       ELSE X(ev).t.d[k] * X(ev).t.d[k]]), {"S01:value"})
    [] ev.op = "item" -> If(~Eq(TT(ev.r), Reshape(X(ev).t, <<>>)), {"S01:value"})
    [] ev.op = "compare" -> If(ev.r # (IF X(ev).t.s = Y(ev).t.s /\ FlatLegs(X(ev).leg) = FlatLegs(Y(ev).leg) THEN 1 ELSE 0), {"S01:value"})
    [] ev.op = "solverlegs" -> If(ev.r.seen # <<X(ev).leg>>, {"S01:callback_legs"}) \cup If(ev.r.out # X(ev).leg \/ ev.r.shape # X(ev).t.s, {"S01:legs"})
    [] ev.op = "random" -> If(~WellFormedS(ev.r), {"S01:blocks"}) \cup If(FlatLegs(ev.r.leg) # FlatLegs(ev.a.leg), {"S01:legs"})
    [] ev.op = "diagm" ->
         If(ev.r.arr # 1 \/ ev.r.t.s # <<AxDim(ev.r.leg[1])>>, {"S01:kind"})
         \cup (IF ev.r.t.s # <<AxDim(ev.r.leg[1])>> THEN {"S01:shape"}
               ELSE LET q == AxQ(M, ev.r.leg[1])
                        b == BlockDiag(M, X(ev).leg, X(ev).t)
                        u == [k \in 1..Len(q) |-> <<q[k], ev.r.t.d[k]>>]
                    IN If(IF ev.r.t.c # X(ev).t.c THEN TRUE ELSE ~SameBySector(u, b), {"S01:value"}))
LookBad(ev) == \E k \in DOMAIN ev.look :
                 LET b == pool[ev.look[k].i + 1]
                     v == ev.look[k]
                 IN ~Eq(TT(v.t), b.t) \/ v.leg # b.leg \/ v.arr # b.arr
Deviation(ev) ==
  LET st == Status(ev) IN
  IF ev.ok = 0 THEN If(st = 1, {"S01:spurious_error"})
  ELSE IF st = 0 THEN {"S01:missing_error"}
  ELSE IF ev.op = "adopt" THEN If(~WellFormedS(ev.r), {"S01:blocks"})
  ELSE IF ev.op \in TensorOps THEN Tensorial(ev) ELSE Scalarial(ev)
(***************************************************************************)
(* The block cache: c0 and c1 are <<enabled, number of entries>> before and *)
(* after the step; u is the outcome of the same call with caching disabled.  *)
(* A scope (an iterative solver) sets its own status and restores the one it *)
(* found; a scope opened on an empty cache leaves it empty.                  *)
(***************************************************************************)
CacheAct(ev) ==
  CASE ev.a.w \in {"enable", "set1"} -> 1
    [] ev.a.w \in {"disable", "set0"} -> 0
    [] OTHER -> on
CacheStep(ev) ==
  If(ev.c1[1] # CacheAct(ev), {"S04:status"})
  \cup If(ev.a.w = "status" /\ ev.r.v # on, {"S04:status"})
  \cup If(ev.c1[2] # (IF ev.a.w = "clear" THEN 0 ELSE ev.c0[2]), {"S04:entries"})
  \cup If((ev.r.empty = 1) # (ev.c1[2] = 0), {"S04:entries"})
SolverStep(ev) ==
  If(ev.c1[1] # ev.c0[1], {"S04:scope_not_restored"})
  \cup If(\E k \in DOMAIN ev.r.log : ev.r.log[k] # ev.a.enable, {"S04:scope_status"})
  \cup (IF ev.a.nest = 1 THEN {} ELSE
        If(ev.a.enable = 0 /\ ev.c1[2] # ev.c0[2], {"S04:entries"})
        \cup If(ev.a.enable = 1 /\ ev.c0[2] = 0 /\ ev.c1[2] # 0, {"S04:scope_not_restored"})
        \cup If(ev.a.enable = 1 /\ ev.c1[2] < ev.c0[2], {"S04:entries"}))
  \cup If(ev.r.same = 0, {"S04:cached_result_differs"})
  \cup If(ev.r.intact = 0, {"S04:operand_modified"})
Cached(ev) ==
  If(ev.c0[1] # on \/ ev.c1[1] # ev.c0[1], {"S04:status"})
  \cup If(ev.c0[1] = 0 /\ ev.c1[2] # ev.c0[2], {"S04:entries"})
  \cup If(ev.c1[2] < ev.c0[2], {"S04:entries"})
  \cup (IF Deviation(ev) = {} /\ ~LookBad(ev) THEN {}
        ELSE IF ev.op = "unreadable" THEN {"S04:unreadable"}
        ELSE IF ev.u.ok = 0 /\ ev.ok = 0 THEN {}
        ELSE If(IF ev.u.ok # ev.ok THEN TRUE ELSE Deviation([ev EXCEPT !.ok = ev.u.ok, !.r = ev.u.r]) = {}, {"S04:cached_result_differs"}))
Judge(ev) ==
  IF Traces[tr].prof = "S04"
  THEN CASE ev.op = "cache" -> CacheStep(ev)
         [] ev.op = "solver" -> SolverStep(ev)
         [] OTHER -> Cached(ev)
  ELSE Deviation(ev) \cup If(LookBad(ev), {"S01:operand_modified"})
Init == tr \in 1..Len(Traces) /\ l = 0 /\ pool = <<>> /\ on = Traces[tr].c[1]
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
        /\ pool' = IF ev.ok = 1 /\ ev.push = 1 THEN Append(pool, [leg |-> ev.r.leg, t |-> TT(ev.r.t), arr |-> ev.r.arr]) ELSE pool
        /\ on' = IF ev.op = "cache" THEN CacheAct(ev) ELSE on
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
