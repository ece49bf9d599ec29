------------------------------ MODULE MpoTrace ------------------------------
(* Model operators and unit cells of matrix product operators (M04).          *)
EXTENDS Models, TraceLib
VARIABLES tr, l, cell
If(b, s) == IF b THEN s ELSE {}
Rot(q, k) == LET n == Len(q) IN [j \in 1..n |-> q[((j - 1 + k) % n) + 1]]
Judge(ev) ==
  LET a == ev.a IN
  IF ev.op \in {"xxz", "tfi", "ff2d"} THEN
    LET n == IF ev.op = "ff2d" THEN a.N1 * a.N2 ELSE Len(a.Bz)
        h == IF ev.op = "xxz" THEN XXZ(a.Jz, a.Jxy, a.Bz) ELSE IF ev.op = "tfi" THEN TFI(a.Jx, a.Bz)
             ELSE FreeFermion(a.t1, a.t2, a.v, a.N1, a.N2)
    IN IF ev.ok = 0 THEN If(n >= 2, {"M04:spurious_error"})
       ELSE If(ev.r.len # n, {"M04:sites"})
            \cup If(ev.r.ends # <<1, 1>>, {"M04:boundary"})
            \cup If(ev.r.kind # a.kind, {"M04:dtype"})
            \cup If(ev.r.alias # 0, {"M04:couplings_changed"})
            \cup If(ev.r.h.x # 1 \/ ev.r.h.d # (IF ev.r.h.c = 1 THEN [k \in DOMAIN h |-> <<h[k], 0>>] ELSE h), {"M04:hamiltonian"})
  ELSE IF ev.op = "cell" THEN
    IF ev.ok = 0 THEN If(a.valid = 1, {"M04:spurious_error"})
    ELSE If(a.valid = 0, {"M04:accepted_invalid"}) \cup If(ev.cell # a.cell \/ ev.r.D # a.D, {"M04:cell"})
  ELSE \* roll
    IF ev.ok = 0 THEN {"M04:spurious_error"} \cup If(ev.cell # cell, {"M04:cell"})
    ELSE If(ev.cell # Rot(cell, a.k), {"M04:roll"})
Init == tr \in 1..Len(Traces) /\ l = 0 /\ cell = <<>>
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN Report(Traces[tr].id, l + 1, ev.op, Judge(ev)) /\ cell' = ev.cell
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
