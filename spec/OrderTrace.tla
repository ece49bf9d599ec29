----------------------------- MODULE OrderTrace -----------------------------
EXTENDS Order, TraceLib
VARIABLES tr, l
If(b, s) == IF b THEN s ELSE {}
Closed(labs) == {x \in UNION {SetOf(labs[k]) : k \in DOMAIN labs} : x > 0}
\* reported costs are 10^cost rounded; -1 stands for an infinite or inexact value
Path(ev, D) ==
  LET r == ev.r IN
  IF ~ValidRun(Len(D), r.ord) THEN {"C03:invalid_order"}
  ELSE If(Len(D) > 1 /\ r.cost # RunCost(D, r.ord), {"C03:reported_cost"})
Judge(ev) ==
  LET a == ev.a
      r == ev.r
      D == TLCEval(Adjacency(a.labs, a.dl, a.dv))
  IN
  If(ev.same # 1, {"C03:operand_modified"}) \cup
  IF ev.ok = 0 THEN {"C03:spurious_error"}
  ELSE CASE ev.op = "adj" -> If(r.adj # D, {"C03:adjacency"})
    [] ev.op = "greedy_size" -> Path(ev, D)
    [] ev.op = "greedy_cost" -> Path(ev, D)
    [] ev.op = "full" ->
         Path(ev, D)
         \cup If(Len(D) > 1 /\ r.cost > r.greedy, {"C03:worse_than_greedy"})
         \cup (IF a.exhaustive = 1 /\ Len(D) > 1
               THEN LET m == MinCost(D)
                    IN If(r.cost > m, {"C03:not_minimal"}) \cup If(r.opt = 0 /\ r.cost >= m, {"C03:optimality_not_reported"})
               ELSE If(r.opt = 1 /\ Len(D) > 1 /\ Len(D) <= 5 /\ r.cost > MinCost(D), {"C03:false_optimality"}))
    [] ev.op = "ncon_solver" ->
         LET ordok == Distinct(r.con) /\ SetOf(r.con) = Closed(a.labs)
             c == TrueCost(a.labs, r.con, a.dl, a.dv)
         IN IF ~ordok THEN {"C03:invalid_order"}
            ELSE \* a label order cannot express an outer product taken early
                 If(IF Len(D) > 1 /\ ValidRun(Len(D), r.ord) THEN ConnectedRun(D, r.ord) /\ r.cost # c ELSE FALSE, {"C03:reported_cost"})
                 \cup If(r.val # 1, {"C03:order_changes_value"})
    [] ev.op = "cost_check" ->
         If(Len(D) > 1 /\ r.cost # TrueCost(a.labs, a.con, a.dl, a.dv), {"C03:reported_cost"})
    [] ev.op = "path_solver" ->
         \* every tuple is contracted and its result appended at the end
         LET RECURSIVE V(_, _)
             V(p, n) == IF p = <<>> THEN n = 1 \/ Len(r.path) = 0
                        ELSE /\ Distinct(p[1]) /\ \A k \in DOMAIN p[1] : p[1][k] \in 0..(n - 1)
                             /\ Len(p[1]) >= 1 /\ Len(p[1]) <= 2
                             /\ V(Tail(p), n - Len(p[1]) + 1)
         IN If(~V(r.path, Len(D)) \/ (Len(D) > 1 /\ r.path = <<>>), {"C03:invalid_path"})
Init == tr \in 1..Len(Traces) /\ l = 0
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1] IN Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
