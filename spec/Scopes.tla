------------------------------- MODULE Scopes -------------------------------
(***************************************************************************)
(* Default-backend scopes and node-collection scopes.                       *)
(* State: g    the default set globally                                     *)
(*        st   the open scopes, outermost first: <<"b", backend>> or        *)
(*             <<"c", container>>                                           *)
(*        box  content of every container (sequence of node ids)            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
Unknown == {8, 9}
Scope0(n) == [g |-> 1, st |-> <<>>, box |-> [k \in 1..n |-> <<>>]]
OfKind(S, k) == SelectSeq(S.st, LAMBDA x : x[1] = k)
InForce(S) == LET b == OfKind(S, "b") IN IF Len(b) = 0 THEN S.g ELSE b[Len(b)][2]
Box(S) == LET c == OfKind(S, "c") IN IF Len(c) = 0 THEN 0 ELSE c[Len(c)][2]
CanSet(S, b) == b \notin Unknown /\ Len(OfKind(S, "b")) = 0
SetDefault(S, b) == IF CanSet(S, b) THEN [S EXCEPT !.g = b] ELSE S
Enter(S, kind, x) == [S EXCEPT !.st = Append(@, <<kind, x>>)]
Leave(S) == [S EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
Add(S, ids) == IF Box(S) = 0 THEN S ELSE [S EXCEPT !.box[Box(S)] = @ \o ids]
=============================================================================
