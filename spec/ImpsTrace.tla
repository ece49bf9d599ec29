------------------------------ MODULE ImpsTrace -----------------------------
(* Histories of one infinite matrix product state, given by a unit cell.      *)
(* State: cell, the tensors of the unit cell (with the connector matrix), ts   *)
(* the stored tensors, and the reported centre c.                              *)
(* Two cells describe the same state iff a gauge matrix X intertwines them up   *)
(* to a factor z; X, its inverse Y and z are certificates found by the driver.   *)
EXTENDS Mps, TraceLib
VARIABLES tr, l, cell, ts, c
F == 8192
N == Len(cell)
Lab(n) == [k \in 1..n |-> k]
\* the tensor (left bond, physical legs, right bond) of a whole cell
RECURSIVE CellT(_)
CellT(q) ==
  IF Len(q) = 1 THEN q[1]
  ELSE LET h == CellT(SubSeq(q, 1, Len(q) - 1))
           t == q[Len(q)]
           n == Len(h.s)
       IN Norm8(AEin2(h, Lab(n), t, <<n, n + 1, n + 2>>, Lab(n - 1) \o <<n + 1, n + 2>>), F)
MulL(x, t) == LET n == Len(t.s) IN Norm8(AEin2(x, <<0, 1>>, t, Lab(n), <<0>> \o Tail(Lab(n))), F)
MulR(t, x) == LET n == Len(t.s) IN Norm8(AEin2(t, Lab(n), x, <<n, n + 1>>, Lab(n - 1) \o <<n + 1>>), F)
Eye1(n) == ExactA(EyeNM(n, n), F)
GaugeOK(old, new, g) ==
  LET o == CellT(old) w == CellT(new)
      do == o.s[1] dn == w.s[1]
  IN /\ do = dn /\ g.x.s = <<dn, do>> /\ g.y.s = <<do, dn>>
     /\ NearIn(AMatmul(g.x, g.y), Eye1(dn), F)
     /\ NearIn(MulR(w, g.x), Norm8(TimesScalar(MulL(g.x, o), g.z), F), F)
     /\ MagE(g.z.c, g.z.d[1]) > 500
ScaledOK(old, new, z) == NearIn(CellT(new), Norm8(TimesScalar(CellT(old), z), F), F)
CellShapes(q) == /\ \A k \in 1..(Len(q) - 1) : q[k].s[3] = q[k + 1].s[1]
                 /\ q[Len(q)].s[3] = q[1].s[1]
UnitF(t) == NearIn(NormSqA(t), A(<<>>, <<F * F>>, 0, F * F, 0), F)
\* right fixed point lambda^2 of a cell
RFix(q, lam) ==
  LET t == CellT(q)
      n == Len(t.s)
      p == Norm8(AEin2(lam, <<0, 1>>, AConj(lam), <<2, 1>>, <<0, 2>>), F)
      h == MulR(t, p)
  IN NearIn(AEin2(h, Lab(n), AConj(t), <<n + 1>> \o SubSeq(Lab(n), 2, n), <<1, n + 1>>), p, F)
\* transfer operators: left / right
TL(t, m) == Norm8(AEin2(Norm8(AEin2(t, <<1, 2, 5>>, m, <<1, 3>>, <<3, 2, 5>>), F), <<3, 2, 5>>, AConj(t), <<3, 2, 4>>, <<5, 4>>), F)
TR(t, m) == Norm8(AEin2(Norm8(AEin2(t, <<5, 2, 1>>, m, <<1, 3>>, <<5, 2, 3>>), F), <<5, 2, 3>>, AConj(t), <<4, 2, 3>>, <<5, 4>>), F)
RECURSIVE Cell(_, _, _)
Cell(q, m, d) ==
  IF q = <<>> THEN m
  ELSE IF d = 1 THEN Cell(Tail(q), TL(q[1], m), d)
  ELSE Cell(SubSeq(q, 1, Len(q) - 1), TR(q[Len(q)], m), d)
Sq(z) == AEin2(ScalarA(z), <<>>, ScalarA(z), <<>>, <<>>)
\* squared distance of the Gram matrix of a tensor from the identity
Dev(t, left) ==
  LET m == IF left THEN AReshape(t, <<t.s[1] * t.s[2], t.s[3]>>) ELSE AReshape(t, <<t.s[1], t.s[2] * t.s[3]>>)
      g == IF left THEN Norm8(AMatmul(ADagger(m), m), 1024) ELSE Norm8(AMatmul(m, ADagger(m)), 1024)
      n == g.s[1]
      d(k) == <<ReE(g.c, g.d[k]) - (IF ((k - 1) \div n) = ((k - 1) % n) THEN 1024 ELSE 0), ImE(g.c, g.d[k])>>
      u(x) == x[1] * x[1] + x[2] * x[2]
      v(x) == 2 * (AbsI(x[1]) + AbsI(x[2])) * g.e + 2 * g.e * g.e
  IN A(<<>>, <<SumSeq([k \in DOMAIN g.d |-> u(d(k))])>>, 0, 1024 * 1024, SumSeq([k \in DOMAIN g.d |-> v(d(k))]))
Same(ev) == /\ ev.c = c /\ Len(ev.ts) = Len(ts) /\ \A k \in DOMAIN ts : NearA(ev.ts[k], ts[k])
            /\ \A k \in DOMAIN cell : NearA(ev.cell[k], cell[k])
Allowed(ev) ==
  LET a == ev.a IN
  IF ev.op = "position" THEN c >= 0 /\ a.site >= 0 /\ a.site < N
  ELSE IF ev.op = "transfer" THEN a.dir # 0 /\ (a.site = -9 \/ (a.site >= 0 /\ a.site < N))
  ELSE IF ev.op = "ortho" THEN a.dir # 0 /\ a.site >= 0 /\ a.site < N
  ELSE TRUE
Judge(ev) ==
  LET a == ev.a
      ok == Allowed(ev)
      m == IF ev.op \in {"transfer", "eigs"} THEN "M02" ELSE "M01"
  IN IF ev.ok = 0 THEN If(ok, {m \o ":spurious_error"}) \cup If(~Same(ev), {m \o ":changed_by_rejected"})
     ELSE IF ~ok THEN {m \o ":accepted_invalid"}
     ELSE IF \E k \in DOMAIN ev.cell : ev.cell[k].x # 1 THEN {m \o ":not_finite"}
     ELSE IF ~CellShapes(ev.cell) THEN {m \o ":shapes"}
     ELSE If(ev.alias # 0, {"M01:callers_tensors"}) \cup
     (IF ev.op = "init" THEN {}
      ELSE IF ev.op = "canon" THEN
        If(ev.c # N - 1, {"M01:centre"})
        \cup If(\E k \in 1..(N - 1) : ~LeftIsoT(ev.ts[k]), {"M01:left"})
        \cup (IF a.maxx = 0 \/ a.maxsv >= cell[1].s[1] THEN
                If(~LeftIsoT(ev.cell[N]), {"M01:left"})
                \cup If(~GaugeOK(cell, ev.cell, a), {"M01:state_changed"})
                \cup If(~UnitF(a.lam), {"M01:not_normalised"})
                \cup If(~RFix(ev.cell, a.lam), {"M01:right"})
              ELSE If(ev.cell[1].s[1] # a.maxsv, {"M01:bond"}))
      ELSE IF ev.op = "position" THEN
        If(ev.c # a.site, {"M01:centre"})
        \cup If(\E k \in (c + 1)..a.site : ~LeftIsoT(ev.ts[k]), {"M01:left"})
        \cup If(\E k \in (a.site + 2)..(c + 1) : ~RightIsoT(ev.ts[k]), {"M01:right"})
        \cup (IF a.norm = 1 THEN If(~UnitF(ev.ts[a.site + 1]), {"M01:not_normalised"})
                                 \cup If(~ScaledOK(ev.cell, cell, a.z), {"M01:state_changed"})
              ELSE If(~NearIn(CellT(ev.cell), CellT(cell), F), {"M01:state_changed"}))
      ELSE If(~Same(ev), {m \o ":changed"})
        \cup (IF ev.op = "transfer" THEN
                LET w == IF a.site = -9 THEN Cell(ts, a.m, a.dir) ELSE IF a.dir = 1 THEN TL(ts[a.site + 1], a.m) ELSE TR(ts[a.site + 1], a.m)
                IN If(~NearIn(ev.r.m, w, F), {"M02:transfer"})
              ELSE IF ev.op = "eigs" THEN
                LET w == Cell(ts, ev.r.m, a.dir)
                IN If(~NearIn(w, Norm8(TimesScalar(ev.r.m, ev.r.z), F), F), {"M02:eigenvector"})
                   \cup If(~NearIn(AMatmul(ADagger(a.x), a.x), Norm8(TimesScalar(ev.r.m, a.z), F), F)
                           \/ MagE(a.z.c, a.z.d[1]) < 400 \/ \A k \in DOMAIN ev.r.m.d : MagE(ev.r.m.c, ev.r.m.d[k]) < 400, {"M02:leading"})
              ELSE IF ev.op = "ortho" THEN
                LET z == Norm8(Sq(Norm8(ev.r.z, 1024)), 8192) w == Norm8(Dev(cell[a.site + 1], a.dir = 1), 8192)
                IN If(~NearA(z, w), {"M01:orthonormality"})
              ELSE {}))
Init == tr \in 1..Len(Traces) /\ l = 0 /\ cell = <<>> /\ ts = <<>> /\ c = -1
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
        /\ cell' = ev.cell /\ ts' = ev.ts /\ c' = ev.c
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
