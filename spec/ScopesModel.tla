----------------------------- MODULE ScopesModel -----------------------------
(* All short programs of scope operations; every complete one is replayed in *)
(* the real library.                                                          *)
EXTENDS Scopes, TLC, Json, IOUtils
CONSTANTS MaxLen
VARIABLES S, prog, saved, n
vars == <<S, prog, saved, n>>
Init == S = Scope0(2) /\ prog = <<>> /\ saved = <<>> /\ n = 0
Step(p) == /\ Len(prog) < MaxLen
           /\ prog' = Append(prog, p)
           /\ IF Len(prog) + 1 = MaxLen THEN PrintT("PROG " \o ToJson(prog')) ELSE TRUE
DoSet(b) == Step(<<"set", b>>) /\ S' = SetDefault(S, b) /\ UNCHANGED <<saved, n>>
DoEnter(k, x) == Step(<<k, x>>) /\ S' = Enter(S, k, x) /\ saved' = Append(saved, <<InForce(S), Box(S), S.g>>) /\ UNCHANGED n
DoLeave(how) == Len(S.st) > 0 /\ Step(<<how, 1>>) /\ S' = Leave(S) /\ saved' = SubSeq(saved, 1, Len(saved) - 1) /\ UNCHANGED n
DoNew(b) == Step(<<"new", b>>) /\ S' = Add(S, <<n + 1>>) /\ n' = n + 1 /\ UNCHANGED saved
Next == \/ \E b \in {2, 9} : DoSet(b)
        \/ \E b \in {2, 5} : DoEnter("b", b)
        \/ \E c \in {1, 2} : DoEnter("c", c)
        \/ \E how \in {"exit", "exc"} : DoLeave(how)
        \/ \E b \in {0, 5} : DoNew(b)
Spec == Init /\ [][Next]_vars
\* the default is that of the innermost backend scope, else the global one
Innermost == InForce(S) = (IF \E k \in DOMAIN S.st : S.st[k][1] = "b"
                           THEN S.st[CHOOSE k \in DOMAIN S.st : S.st[k][1] = "b" /\ \A j \in (k + 1)..Len(S.st) : S.st[j][1] # "b"][2]
                           ELSE S.g)
\* every node is in at most one container, once
Once == LET all == S.box[1] \o S.box[2] IN Cardinality({all[k] : k \in DOMAIN all}) = Len(all)
\* leaving a scope restores what was in force outside it (the global default may have been set inside a collection scope)
Restores == [][Len(S'.st) < Len(S.st) =>
                 /\ (saved[Len(saved)][3] = S.g => InForce(S') = saved[Len(saved)][1])
                 /\ Box(S') = saved[Len(saved)][2]]_vars
=============================================================================
