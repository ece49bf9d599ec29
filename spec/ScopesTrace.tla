---------------------------- MODULE ScopesTrace -----------------------------
EXTENDS Scopes, TraceLib
VARIABLES tr, l, S
If(b, s) == IF b THEN s ELSE {}
ToS(q) == {q[k] : k \in DOMAIN q}
After(ev) ==
  CASE ev.op = "set" -> SetDefault(S, ev.a.b)
    [] ev.op = "enter" -> IF ev.ok = 1 THEN Enter(S, ev.a.k, ev.a.x) ELSE S
    [] ev.op = "exit" -> Leave(S)
    [] OTHER -> IF Box(S) = 0 THEN S ELSE [S EXCEPT !.box[Box(S)] = ev.box[Box(S)]]
\* what the containers may hold now
BoxOK(ev, T) ==
  \A k \in DOMAIN T.box :
    LET old == S.box[k]
        now == ev.box[k]
        grown == ev.op = "new" /\ ev.ok = 1 /\ k = Box(S)
        set == k \in ToS(Traces[tr].sets)
        fresh == IF set THEN ToS(now) \ ToS(old) ELSE ToS(SubSeq(now, Len(old) + 1, Len(now)))
    IN IF ~grown THEN (IF set THEN ToS(now) = ToS(old) /\ Len(now) = Len(old) ELSE now = old)
       ELSE /\ (IF set THEN ToS(old) \subseteq ToS(now) ELSE Len(now) >= Len(old) /\ SubSeq(now, 1, Len(old)) = old)
            /\ Cardinality(fresh) = Len(now) - Len(old)
            /\ \A x \in fresh : x > ev.a.seen
            /\ ToS(ev.r.nodes) \subseteq fresh
            /\ (IF ev.a.strict = 1 THEN fresh = ToS(ev.r.nodes) ELSE TRUE)
Judge(ev, T) ==
  UNION {
    CASE ev.op = "set" -> If((ev.ok = 1) # CanSet(S, ev.a.b), {IF ev.ok = 1 THEN "X01:accepted_invalid" ELSE "X01:spurious_error"})
      [] ev.op = "enter" ->
           If(ev.ok = 0 /\ ~(ev.a.k = "b" /\ ev.a.x \in Unknown), {"X01:spurious_error"})
           \cup If(ev.ok = 1 /\ ev.a.x = 8, {"X01:accepted_invalid"})
      [] ev.op = "exit" -> If(ev.r.swallowed = 1, {"X01:exception_swallowed"})
      [] ev.op = "construct" -> If((ev.ok = 1) # (ev.a.valid = 1), {"X01:construct"})
      [] ev.op = "new" ->
           LET want == IF ev.a.src # 0 THEN ev.a.src ELSE IF ev.a.b # 0 THEN ev.a.b ELSE InForce(S)
           IN IF ev.a.bad = 1 \/ want \in Unknown THEN If(ev.ok = 1, {"X01:accepted_invalid"})
              ELSE If(ev.ok = 0, {"X01:spurious_error"})
                   \cup If(ev.ok = 1, If(\E k \in DOMAIN ev.r.bs : want \notin ToS(ev.r.bs[k]), {"X01:backend"})),
    If(ev.def # InForce(T), {"X01:default"}),
    If(~BoxOK(ev, T), {"X01:collection"}) }
Init == tr \in 1..Len(Traces) /\ l = 0 /\ S = Scope0(3)
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
         T == After(ev)
     IN S' = T /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev, T))
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
