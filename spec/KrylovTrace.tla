---------------------------- MODULE KrylovTrace -----------------------------
(* Histories of solver calls (K01, K02).                                      *)
(* State: the arrays that exist, and the results that calls have had.         *)
EXTENDS Krylov, TraceLib
VARIABLES tr, l, pool, memo
If(b, s) == IF b THEN s ELSE {}
Vec(ev, n) == LET v == ev.pool[n]
              IN [s |-> <<Len(ev.a.sec)>>, d |-> TLCEval([k \in DOMAIN ev.a.sec |-> v.d[ev.a.sec[k]]]), c |-> v.c]
SamePool(ev) == pool = <<>> \/ ev.pool = pool
\* ---- one result, seen as a list of approximations
Values(ev) == IF ev.ok = 0 THEN <<>> ELSE IF ev.a.solver = "gmres" THEN <<ev.r.x>> ELSE ev.r.w \o ev.r.v
Info(ev) == IF ev.ok = 1 /\ ev.a.solver = "gmres" THEN IF ev.r.info = 0 THEN 0 ELSE 1 ELSE 0
\* big values, and residuals on the verge of the tolerance, are sensitive to rounding
Agree(x, y) == x.s = y.s /\ NearA([ToCA(x) EXCEPT !.e = x.e + 8 + MaxAbs(x) \div 512], ToCA(y))
SameResult(ev, m) ==
  /\ ev.ok = m.ok
  /\ Len(Values(ev)) = Len(m.v)
  /\ \A k \in DOMAIN m.v : Agree(Values(ev)[k], m.v[k])
\* results that rounding cannot change much
Stable(ev) == IF ev.ok = 0 THEN TRUE
              ELSE IF ev.a.solver = "gmres" THEN ev.a.kind = "dom" /\ ev.r.small = 1
              ELSE ev.a.cert.sees = 1 /\ ev.a.cert.herm = 1 /\ ev.r.finite = 1
                   /\ ((ev.a.solver = "lanczos" /\ ev.a.reorth = 1 /\ ev.a.kry <= ev.a.m) \/ (ev.a.solver # "lanczos" /\ ev.a.cert.sep = 1 /\ ev.a.kry >= ev.a.m))
History(ev) ==
  LET a == ev.a IN
  If(a.det = 1 /\ a.valid = 1 /\ a.key \in DOMAIN memo /\ Stable(ev) /\ ~SameResult(ev, memo[a.key]), {"K01:history_dependent"})
\* ---- accuracy
Single(ev) == IF ev.a.single = 1 THEN 96 ELSE 6
Full(ev) == ev.a.kry >= ev.a.m
Lanczos(ev) ==
  LET a == ev.a
      r == ev.r
      c == a.cert
      n == Len(r.w)
  IN If(r.im # 0, {"K02:eigenvalue_not_real"})
     \cup If(n # Len(r.v) \/ n > a.numeig \/ n = 0, {"K02:number"})
     \cup (IF n = 0 THEN {} ELSE
       If(\E k \in DOMAIN r.v : c.sees = 1 /\ k <= a.m /\ k <= a.kry /\ ~UnitV(r.v[k]), {"K02:not_normalised"})
       \cup If(ReE(r.w[1].c, r.w[1].d[1]) + 32 + Single(ev) < ReE(c.w.c, c.w.d[1]), {"K02:below_spectrum"})
       \cup (IF a.x0 # "" THEN
               LET x == Vec(ev, a.x0)
               IN If(ReE(r.w[1].c, r.w[1].d[1]) * INormSq(x) > F * IRayleigh(a.H, x) + (32 + Single(ev)) * INormSq(x), {"K02:above_start"})
             ELSE {})
       \cup (IF c.sees = 1 /\ Full(ev) THEN
               If(a.x0 # "" /\ n < a.numeig /\ n < a.m, {"K02:number"})
               \cup If(\E k \in 1..n : k <= a.m /\ ~CloseTo(r.w[k], Entry(c.w, k), 32 + Single(ev)), {"K02:eigenvalue"})
               \cup If(\E k \in 1..n : k <= a.m /\ ~EigenPair(a.H, r.w[k], r.v[k], 64 + 4 * Single(ev)), {"K02:eigenvector"})
             ELSE {}))
SpecMax(c) == CHOOSE x \in {ReE(c.w.c, c.w.d[j]) : j \in 1..c.w.s[1]} : \A j \in 1..c.w.s[1] : ReE(c.w.c, c.w.d[j]) <= x
SpecMin(c) == CHOOSE x \in {ReE(c.w.c, c.w.d[j]) : j \in 1..c.w.s[1]} : \A j \in 1..c.w.s[1] : ReE(c.w.c, c.w.d[j]) >= x
Eigs(ev) ==
  LET a == ev.a
      r == ev.r
      c == a.cert
      n == Len(r.w)
  IN If(r.im # 0, {"K02:eigenvalue_not_real"})
     \cup If(n # Len(r.v) \/ n # a.numeig, {"K02:number"})
     \* Ritz values of a Hermitian operator lie within its spectrum
     \cup If(c.herm = 1 /\ c.sees = 1 /\ \E k \in 1..n : ReE(r.w[k].c, r.w[k].d[1]) > SpecMax(c) + 64 + 2 * Single(ev)
                                          \/ ReE(r.w[k].c, r.w[k].d[1]) + 64 + 2 * Single(ev) < SpecMin(c), {"K02:outside_spectrum"})
     \cup (IF c.sees = 1 /\ c.sep = 1 /\ Full(ev) THEN
             If(\E k \in 1..n : ~UnitV(r.v[k]), {"K02:not_normalised"})
             \cup If(\E j \in 1..a.numeig : ~\E k \in 1..n : CloseTo(r.w[k], Entry(c.w, j), 64 + 2 * Single(ev)), {"K02:eigenvalue"})
             \cup If(\E k \in 1..n : ~EigenPair(a.H, r.w[k], r.v[k], 64 + 4 * Single(ev)), {"K02:eigenvector"})
           ELSE {})
Gmres(ev) ==
  LET a == ev.a
      r == ev.r
      b == Vec(ev, a.b)
      res == Residual(a.H, r.x, b)
      lim == MaxI((((F * SqrtUp(INormSq(b))) \div 100) * a.tolr) \div 10000, (F * (a.tola \div 10)) \div 100000) + 8
      r0 == IF a.x0 # "" THEN Residual(a.H, VA(Vec(ev, a.x0)), b) ELSE VA(b)
  IN IF r.small = 0 THEN If(a.kind = "dom", {"K02:solution"})
     ELSE If(r.info = 0 /\ MaxComp(res) > lim + res.e + Single(ev) * 4, {"K02:residual"})
          \cup If(a.det = 1 /\ MaxAbs(res) < 60 * F /\ MaxAbs(r0) < 60 * r0.f
                  /\ Coarse(res) > Coarse(r0) + 64 * SqrtUp(Coarse(r0) \div 65536 + 1) * (2 + res.e \div 16) + 4000 + (IF a.single = 1 THEN 4000 ELSE 0), {"K02:residual_grew"})
          \cup If(a.kind = "dom" /\ Full(ev) /\ r.info # 0 /\ a.single = 0, {"K02:not_converged"})
          \cup If(a.kind = "dom" /\ Full(ev) /\ MaxComp(res) > lim + res.e + Single(ev) * 8, {"K02:residual"})
Judge(ev) ==
  LET a == ev.a IN
  If(~SamePool(ev), {"K01:inputs_changed"}) \cup If(ev.cache # 0, {"K01:caching_state"})
  \cup (IF ev.op = "scribble" THEN {}
        ELSE IF a.valid = 0 THEN If(ev.ok = 1, {"K02:accepted_invalid"})
        ELSE History(ev) \cup
             (IF ev.ok = 0 THEN {"K01:spurious_error", "K02:spurious_error"}
              ELSE If(ev.r.shape = 0, {"K02:shape"})
                   \* operator and results are given tensors of the backend asked for
                   \cup If(\E k \in DOMAIN ev.r.labels : ev.r.labels[k] # a.backend, {"K01:backend_label"})
                   \cup (IF a.solver = "gmres" THEN If(ev.r.finite = 0 /\ a.kind = "dom", {"K02:not_finite"}) \cup If(ev.r.finite = 1, Gmres(ev))
                         ELSE IF ~Spectrum(a.H, a.cert) THEN {"K02:certificate"}
                         ELSE IF ev.r.finite = 0 THEN If(a.cert.sees = 1, {"K02:not_finite"})
                         ELSE IF a.solver = "lanczos" THEN Lanczos(ev) ELSE Eigs(ev))))
Remember(ev) ==
  IF ev.op = "call" /\ ev.a.det = 1 /\ ev.a.valid = 1 /\ ~(ev.a.key \in DOMAIN memo)
  THEN memo @@ (ev.a.key :> [ok |-> ev.ok, v |-> Values(ev)])
  ELSE memo
Init == tr \in 1..Len(Traces) /\ l = 0 /\ pool = <<>> /\ memo = <<>>
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
        /\ pool' = IF pool = <<>> THEN ev.pool ELSE pool
        /\ memo' = Remember(ev)
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
