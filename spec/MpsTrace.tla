------------------------------ MODULE MpsTrace ------------------------------
(* Histories of one finite matrix product state.                              *)
(* State: the dense state psi, the reported centre c (-1 none), and whether    *)
(* the history guarantees that the reported centre is one (real).              *)
EXTENDS Mps, TraceLib
VARIABLES tr, l, psi, c, real
F == 8192
N == Len(psi.s)
In(x) == x >= 0 /\ x < N
NearPsi(ev, x) == NearIn(x, ev.psi, ev.psi.f)
Same(ev) == NearA(ev.psi, psi) /\ ev.c = c
\* ---- allowed?
Two(a) == In(a.s1) /\ In(a.s2) /\ a.s2 = a.s1 + 1 /\ (a.cp = -1 \/ a.cp \in {a.s1, a.s2})
          /\ ((a.maxx = 1 \/ (a.errx = 1 /\ a.p > 0)) => c \in {a.s1, a.s2})
AllIn(q) == \A k \in DOMAIN q : In(q[k])
Allowed(ev) ==
  LET a == ev.a IN
  IF ev.op = "init" THEN ~(a.c >= 0 /\ a.canon = 0) /\ a.c < Len(a.ts)
  ELSE IF ev.op = "position" THEN c >= 0 /\ In(a.site) /\ (a.errx = 0 \/ a.p < a.q)
  ELSE IF ev.op = "gate1" THEN In(a.s1) /\ a.bad = 0
  ELSE IF ev.op = "gate2" THEN Two(a) /\ a.bad = 0
  ELSE IF ev.op = "local" THEN AllIn(a.sites) /\ Len(a.ops) = Len(a.sites)
  ELSE IF ev.op = "corr" THEN In(a.s1) /\ AllIn(a.sites)
  ELSE TRUE
\* ---- the centre that must be reported, and whether the history guarantees it
Real(ev) == IF ev.ok = 0 THEN real ELSE RealAfter(ev.op, ev.a, c, real, ev.c)
Centre(ev) == CentreAfter(ev.op, ev.a, c)
AbsD(x) == IF x < 0 THEN -x ELSE x
OneA == A(<<>>, <<F * F>>, 0, F * F, 0)
UnitNorm(p) == NearIn(NormSqA(p), OneA, F)
ZIsNorm(z, p) ==
  LET w == NormSqA(p)
  IN NearIn(AEin2(ScalarA(z), <<>>, ScalarA(z), <<>>, <<>>), IF p.f = 1 THEN [AScaleI(w, F) EXCEPT !.f = F] ELSE w, F)
Trunc(a) == a.maxx = 1 \/ a.errx = 1
\* bonds passed by a move (bond k lies between sites k - 1 and k)
Passed(site) == IF site > c THEN (c + 1)..site ELSE (site + 1)..c
\* ---- verdicts
Move(ev) ==
  LET a == ev.a
      z == ev.r.z
      one == AbsD(a.site - c) = 1
  IN IF ~Trunc(a) \/ a.site = c THEN
       (IF a.norm = 0 THEN If(~NearPsi(ev, psi), {"M01:state_changed"})
                           \cup If(real /\ ev.r.zx = 1 /\ ~ZIsNorm(z, psi), {"M01:norm"})
        ELSE If(real /\ ~UnitNorm(ev.psi), {"M01:not_normalised"})
             \cup (IF real /\ AbsD(a.site - c) <= 1
                   THEN If(~NearIn(TimesScalar(ev.psi, z), psi, F), {"M01:state_changed"})
                   ELSE IF real THEN If(~NearIn(TimesScalar(ev.psi, a.wz), psi, F) \/ ~ZIsNorm(a.wz, psi), {"M01:state_changed"})
                   ELSE {}))
     ELSE If(\E b \in Passed(a.site) : a.maxx = 1 /\ ev.ts[b + 1].s[1] > a.maxsv, {"M01:bond"})
          \cup If(a.norm = 1 /\ real /\ ~UnitNorm(ev.psi), {"M01:not_normalised"})
          \cup (IF one /\ real THEN
                  LET b == IF a.site > c THEN a.site ELSE c
                      k == ev.ts[b + 1].s[1]
                      phi == IF a.norm = 1 THEN Norm8(TimesScalar(ev.psi, z), F) ELSE ev.psi
                      m == AsMat(psi, b)
                  IN IF ~CertOK(a.cert, m) THEN {"M01:certificate"}
                     ELSE If(a.svd = 1 /\ ~KeptOK(a.cert.s, a.nl, k, a.maxx, a.maxsv, a.errx, a.p, a.q, 1), {"M01:kept"})
                          \cup If(a.svd = 1 /\ ~BestOK(phi, psi, a.cert.s, k), {"M01:truncation"})
                          \cup If(a.svd = 0 /\ ~NearIn(phi, psi, F), {"M01:state_changed"})
                ELSE {})
Two2(ev) ==
  LET a == ev.a
      want == Norm8(Gate(psi, a.g, <<a.s1, a.s2>>), psi.f)
  IN IF ~(a.maxx = 1 \/ (a.errx = 1 /\ a.p > 0))
     THEN If(~NearPsi(ev, want), {"M03:state"}) \cup If(\E k \in DOMAIN ev.r.tw.d : MagE(ev.r.tw.c, ev.r.tw.d[k]) > 2 + ev.r.tw.e, {"M03:discarded"})
     ELSE IF ~real THEN {}
     ELSE LET m == AsMat(want, a.s1 + 1)
              k == ev.ts[a.s2 + 1].s[1]
              s == a.cert.s
          IN IF ~CertOK(a.cert, m) THEN {"M03:certificate"}
             ELSE If(~KeptOK(s, a.nl, k, a.maxx, a.maxsv, a.errx, a.p, a.q, a.rel), {"M03:kept"})
                  \cup If(~BestOK(ev.psi, want, s, k), {"M03:truncation"})
                  \cup If(\E j \in DOMAIN ev.r.tw.d :
                            AbsD(ReE(ev.r.tw.c, ev.r.tw.d[j]) - (IF k + j <= Len(s.d) THEN s.d[k + j] ELSE 0)) > 4 + ev.r.tw.e + s.e, {"M03:discarded"})
                  \cup If(\E j \in DOMAIN s.d : j > k + Len(ev.r.tw.d) /\ s.d[j] > 8, {"M03:discarded"})
\* expectation of operators applied in sequence
RECURSIVE Apply(_, _)
Apply(p, q) == IF q = <<>> THEN p ELSE Apply(Norm8(Gate(p, q[1][1], <<q[1][2]>>), p.f), Tail(q))
Expect(q) == Overlap(psi, Apply(psi, q))
Measured(r, want) == Len(r) = Len(want) /\ \A k \in DOMAIN want : NearIn(ScalarA(r[k]), want[k], psi.f)
Judge(ev) ==
  LET a == ev.a
      ok == Allowed(ev)
      m == IF ev.op \in {"local", "corr", "lenvs", "renvs"} THEN "M02" ELSE IF ev.op \in {"gate1", "gate2"} THEN "M03" ELSE "M01"
  IN IF ev.ok = 0 THEN If(ok, {m \o ":spurious_error"}) \cup If(ev.op # "init" /\ ~Same(ev), {m \o ":changed_by_rejected"})
     ELSE IF ~ok THEN {m \o ":accepted_invalid"}
     ELSE If(ev.psi.x # 1, {m \o ":not_finite"})
     \cup (IF ev.psi.x # 1 THEN {}
           ELSE If(~ShapesOK(ev.ts, ev.psi.s), {m \o ":shapes"})
     \cup If(ev.c # Centre(ev), {IF m = "M02" THEN "M02:changed" ELSE "M01:centre"})
     \cup (IF ev.c >= 0 /\ ev.c < Len(ev.ts) /\ Real(ev) /\ ShapesOK(ev.ts, ev.psi.s) /\ m # "M02"
           THEN If(~CanonLeft(ev.ts, ev.c), {"M01:left"}) \cup If(~CanonRight(ev.ts, ev.c), {"M01:right"}) ELSE {})
     \cup If(ev.alias # 0, {"M01:callers_tensors"})
     \cup (IF ev.op = "init" THEN
             LET d == DenseOf(a.ts)
                 D(f) == IF a.sc = 1 THEN ExactA(d, f) ELSE ExactA(d, f \div a.sc) IN
             IF a.canon = 0 THEN If(~NearPsi(ev, [D(ev.psi.f) EXCEPT !.f = ev.psi.f]), {"M01:state"})
             ELSE If(~UnitNorm(ev.psi), {"M01:not_normalised"})
                  \cup If(~NearIn(TimesScalar(ev.psi, a.wz), [D(F) EXCEPT !.f = F], F), {"M01:state"})
           ELSE IF ev.op = "random" THEN
             If(a.canon = 1 /\ ~UnitNorm(ev.psi), {"M01:not_normalised"})
             \cup If(ev.psi.s # a.d \/ (a.canon = 0 /\ \E k \in DOMAIN a.D : ev.ts[k].s[3] # a.D[k]), {"M01:shapes"})
           ELSE IF ev.op = "position" THEN Move(ev)
           ELSE IF ev.op = "canonicalize" THEN
             (IF a.norm = 1 THEN If(~UnitNorm(ev.psi), {"M01:not_normalised"})
                                 \cup If(ev.r.zx = 1 /\ ~NearIn(TimesScalar(ev.psi, ev.r.z), psi, F), {"M01:norm"})
                                 \cup If(ev.r.zx = 0 /\ ~NearIn(TimesScalar(ev.psi, a.wz), psi, F), {"M01:state_changed"})
              ELSE If(~NearPsi(ev, psi), {"M01:state_changed"}) \cup If(ev.r.zx = 1 /\ ~ZIsNorm(ev.r.z, psi), {"M01:norm"}))
           ELSE IF ev.op = "check" THEN If(real /\ c >= 0 /\ MagE(ev.r.z.c, ev.r.z.d[1]) > 40 + ev.r.z.e, {"M01:check_canonical"})
           ELSE IF ev.op = "gate1" THEN If(~NearPsi(ev, Norm8(Gate(psi, a.g, <<a.s1>>), psi.f)), {"M03:state"})
           ELSE IF ev.op = "gate2" THEN Two2(ev)
           ELSE IF ev.op = "setcenter" THEN If(~Same([ev EXCEPT !.c = c]), {"M01:state_changed"})
           ELSE \* measurements
             If(~Same(ev), {"M02:changed"})
             \cup (IF c >= 0 /\ ~real THEN {}
                   ELSE IF ev.op = "local"
                   THEN If(~Measured(ev.r.v, [k \in DOMAIN a.sites |-> Expect(<<<<a.ops[k], a.sites[k]>>>>)]), {"M02:local"})
                   ELSE IF ev.op = "corr"
                   THEN If(~Measured(ev.r.v, [k \in DOMAIN a.sites |-> Expect(<<<<a.ops[2], a.sites[k]>>, <<a.ops[1], a.s1>>>>)]), {"M02:correlator"})
                   ELSE {})))
\* environments (exact histories only): the reported tensors are exact
RECURSIVE LeftEnv(_, _)
LeftEnv(ts, k) ==
  IF k = 0 THEN EyeNM(ts[1].s[1], ts[1].s[1])
  ELSE LET e == LeftEnv(ts, k - 1) t == ts[k] IN
       Einsum(<<e, t, Conj(t)>>, <<<<1, 2>>, <<1, 3, 4>>, <<2, 3, 5>>>>, <<4, 5>>)
RECURSIVE RightEnv(_, _)
RightEnv(ts, k) ==
  IF k = Len(ts) - 1 THEN EyeNM(ts[Len(ts)].s[3], ts[Len(ts)].s[3])
  ELSE LET e == RightEnv(ts, k + 1) t == ts[k + 2] IN
       Einsum(<<e, t, Conj(t)>>, <<<<1, 2>>, <<4, 3, 1>>, <<5, 3, 2>>>>, <<4, 5>>)
EnvOK(a, lo, hi) == \A k \in DOMAIN a.sites : a.sites[k] >= lo /\ a.sites[k] <= hi
JudgeEnv(ev) ==
  LET a == ev.a
      n == N
      ok == IF ev.op = "lenvs" THEN EnvOK(a, 0, n) ELSE EnvOK(a, -1, n - 1)
  IN IF ev.ok = 0 THEN If(ok, {"M02:spurious_error"})
     ELSE IF ~ok THEN {"M02:accepted_invalid"}
     ELSE If(~Same(ev), {"M02:changed"})
          \cup If({ev.r.env[k][1] : k \in DOMAIN ev.r.env} # {a.sites[k] : k \in DOMAIN a.sites}, {"M02:env_sites"})
          \cup (IF c >= 0 /\ ~real THEN {}
                ELSE If(\E k \in DOMAIN ev.r.env : ev.r.env[k][2].x # 1 \/
                     ~Eq(ev.r.env[k][2], IF ev.op = "lenvs" THEN LeftEnv(ev.tx, ev.r.env[k][1]) ELSE RightEnv(ev.tx, ev.r.env[k][1])), {"M02:env"}))
Init == tr \in 1..Len(Traces) /\ l = 0 /\ psi = A(<<>>, <<0>>, 0, 1, 0) /\ c = -1 /\ real = FALSE
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, IF ev.op \in {"lenvs", "renvs"} THEN JudgeEnv(ev) ELSE Judge(ev))
        /\ psi' = IF ev.psi.x = 1 THEN [s |-> ev.psi.s, d |-> ev.psi.d, c |-> ev.psi.c, f |-> ev.psi.f, e |-> ev.psi.e] ELSE psi
        /\ c' = ev.c
        /\ real' = Real(ev)
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
