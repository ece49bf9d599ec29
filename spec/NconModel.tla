------------------------------ MODULE NconModel ------------------------------
(* Every labelling of a few small tensors with two closed and two open labels *)
(* (traces, batch labels, repeated open labels, disconnected parts included), *)
(* and every order of summing the closed labels.  Checked here: no order       *)
(* changes the value.  Every (labelling, order) is replayed on the real ncon.  *)
EXTENDS Ncon, Json
CONSTANTS MaxAxes
VARIABLES net0, ts, net, val, order, fin
vars == <<net0, ts, net, val, order, fin>>
L(n) == [i |-> n, s |-> <<>>]
Dim(l) == CASE l.i = 1 -> 2 [] l.i = 2 -> 3 [] l.i = -1 -> 2 [] OTHER -> 1
Pool == {L(1), L(2), L(-1), L(-2)}
Shapes == {r \in UNION {[1..n -> 0..3] : n \in 1..3} :
             /\ \A k \in DOMAIN r : k > 1 => r[k] <= r[k - 1]
             /\ FoldLeft(LAMBDA a, b : a + b, 0, r) <= MaxAxes}
Fill(s, k) == [s |-> s, d |-> [i \in 1..ProdSeq(s) |-> (((7 * i) + (3 * k)) % 5) - 2], c |-> 0]
RECURSIVE Nets(_, _)
Nets(r, k) == IF k > Len(r) THEN {<<>>} ELSE {<<x>> \o y : x \in [1..r[k] -> Pool], y \in Nets(r, k + 1)}
Canonical(n) == /\ L(2) \in Labels(n) => L(1) \in Labels(n)
                /\ L(-2) \in Labels(n) => L(-1) \in Labels(n)
Init == \E r \in Shapes : \E n \in Nets(r, 1) :
          /\ Canonical(n)
          /\ net0 = n /\ net = n
          /\ ts = [k \in DOMAIN n |-> Fill([a \in DOMAIN n[k] |-> Dim(n[k][a])], k)]
          /\ val = Value(ts, net, DefaultOut(net))
          /\ order = <<>> /\ fin = FALSE
Sum ==  \E l \in Closed(net) :
          LET n == SumLabel(ts, net, l) IN
          /\ ts' = n.ts /\ net' = n.net
          /\ order' = Append(order, l.i)
          /\ UNCHANGED <<net0, val, fin>>
Finish == /\ Closed(net) = {} /\ ~fin /\ fin' = TRUE
          /\ PrintT("PROG " \o ToJson(<<[k \in DOMAIN net0 |-> [a \in DOMAIN net0[k] |-> net0[k][a].i]], order>>))
          /\ UNCHANGED <<net0, ts, net, val, order>>
Next == Sum \/ Finish
Spec == Init /\ [][Next]_vars
OrderFree == Value(ts, net, DefaultOut(net0)) = val
OpenKept == Open(net) = Open(net0)
=============================================================================
