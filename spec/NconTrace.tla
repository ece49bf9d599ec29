----------------------------- MODULE NconTrace ------------------------------
EXTENDS Ncon, TraceLib
VARIABLES tr, l
If(b, s) == IF b THEN s ELSE {}
Meaningful(a) ==
  /\ Legal(a.ts, a.net)
  /\ (a.conx = 0 \/ Ordering(a.con, Closed(a.net)))
  /\ (a.outx = 0 \/ Ordering(a.out, Open(a.net)))
Judge(ev) ==
  LET a == ev.a IN
  CASE ev.op = "ncon" ->
    If(ev.same # 1, {"C01:operand_modified"}) \cup
    (IF Meaningful(a)
     THEN IF ev.ok = 0 THEN {"C01:spurious_error"}
          ELSE LET out == IF a.outx = 0 THEN DefaultOut(a.net) ELSE a.out
                   v == Value(a.ts, a.net, out)
               IN If(ev.r.t.x # 1 \/ ~Eq(v, ev.r.t), {"C01:value"})
                  \cup If(ev.r.w # (IF a.w = 1 THEN 1 ELSE 0), {"C01:result_type"})
     ELSE If(ev.ok = 1, {"C01:accepted_invalid"}))
Init == tr \in 1..Len(Traces) /\ l = 0
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1] IN Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
