----------------------------- MODULE PrimTrace ------------------------------
(* Recorded calls of backend primitives (via = "backend") and of tn.Tensor /  *)
(* tensornetwork free functions (via = "tensor" or "node").                   *)
EXTENDS Prims, Approx, TraceLib
VARIABLES tr, l
TT(x) == [s |-> x.s, d |-> x.d, c |-> x.c]
If(b, s) == IF b THEN s ELSE {}
Prop(ev) == IF ev.a.via = "backend" THEN "B01" ELSE "B02"
Ap(x) == A(x.s, x.d, x.c, x.f, x.e)
Prim(ev) ==
  LET P == Prop(ev)
      ts == [k \in DOMAIN ev.a.ts |-> TT(ev.a.ts[k])]
      ok == IF ev.a.mixed = 1 THEN FALSE ELSE Valid(ev.a.f, ts, ev.a.p)
  IN (IF ev.ok = 0 THEN If(ok /\ ev.a.may = 0, {P \o ":spurious_error"})
      ELSE IF ~ok THEN {P \o ":missing_error"}
      ELSE IF ev.r.x = 0 THEN {P \o ":value"}
      ELSE IF ev.a.f \in Relational
           THEN If(~Relation(ev.a.f, ts, ev.a.p, TT(ev.r)), {P \o ":value"})
           ELSE LET v == Val(ev.a.f, ts, ev.a.p)
                IN If(ev.r.s # v.s, {P \o ":shape"}) \cup If(ev.r.s = v.s /\ ~Eq(TT(ev.r), v), {P \o ":value"}))
     \cup If(ev.same = 0, {P \o ":operand_modified"})
     \cup (IF ev.ok = 1 THEN If(ev.wrap = 0, {P \o ":wrapper"}) ELSE {})

\* hermitian eigendecomposition: A V = V diag(w), V unitary, w ascending and real
Eigh(ev) ==
  LET P == Prop(ev)
      m == ExactA(TT(ev.a.m), ev.w.f)
      V == Ap(ev.v)
      W == Ap(ev.w)
  IN IF ev.ok = 0 THEN {P \o ":spurious_error"}
     ELSE IF V.s # m.s \/ W.s # <<m.s[1]>> THEN {P \o ":shape"}
     ELSE If(~NearA(ARescale(AMatmul(m, V), V.f), ARescale(ADiagR(V, W), V.f)), {P \o ":value"})
          \cup If(~LeftIso(V), {P \o ":value"})
          \cup If(~ \A k \in 1..(Len(W.d) - 1) : ReE(W.c, W.d[k]) <= ReE(W.c, W.d[k + 1]) + 2 * W.e, {P \o ":value"})
\* random initialisers: shape, range, reproducibility
Rand(ev) ==
  LET P == Prop(ev)
  IN IF ev.ok = 0 THEN {P \o ":spurious_error"}
     ELSE If(ev.r1.s # ev.a.shape, {P \o ":shape"})
          \cup If(ev.r1 # ev.r2, {P \o ":seed"})
          \cup If(Len(ev.r1.d) > 3 /\ ev.r1 = ev.r3, {P \o ":seed"})
          \* neither the real nor the imaginary parts are all the same
          \cup If(Len(ev.r1.d) > 7 /\ \E p \in 0..1 : \A k, j \in DOMAIN ev.r1.d : (k % 2 = p /\ j % 2 = p) => ev.r1.d[k] = ev.r1.d[j], {P \o ":spread"})
          \cup If(ev.a.uniform = 1 /\ \E k \in DOMAIN ev.r1.d : ev.r1.d[k] < ev.a.lo \/ ev.r1.d[k] > ev.a.hi, {P \o ":range"})
Judge(ev) == CASE ev.op = "prim" -> Prim(ev) [] ev.op = "eigh" -> Eigh(ev) [] ev.op = "rand" -> Rand(ev)
Init == tr \in 1..Len(Traces) /\ l = 0
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1] IN Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
