------------------------------ MODULE DmrgModel -------------------------------
(* The environment blocks of a ground state search on their own: all short      *)
(* programs over centre moves, recomputation, energies and sweeps on chains of   *)
(* up to MaxN sites.  left / right: the stored blocks; lf / rf: those that are    *)
(* the blocks of the current tensors.  Checked here: no call can leave a stale    *)
(* block where it is still used.  Every program is replayed.                     *)
EXTENDS Naturals, Integers, Sequences, TLC, Json
CONSTANTS MaxN, MaxLen
VARIABLES n, c, left, right, lf, rf, prog
vars == <<n, c, left, right, lf, rf, prog>>
All == 0..(n - 1)
Upto(S, x) == {m \in S : m <= x}
From(S, x) == {m \in S : m >= x}
Init == /\ n \in 1..MaxN /\ c \in 0..(n - 1)
        /\ left = {0} /\ lf = {0} /\ right = {n - 1} /\ rf = {n - 1}
        /\ prog = << <<"init", n, c>> >>
Say(p) == /\ Len(prog) <= MaxLen
          /\ prog' = Append(prog, p) /\ n' = n
          /\ IF Len(prog) = MaxLen THEN PrintT("PROG " \o ToJson(prog')) ELSE TRUE
\* a block covers the sites before (left) or after (right) its own: rewriting the
\* tensors lo..hi leaves the left blocks up to lo and the right blocks from hi
Right(y) ==
  LET ok == c \in left => c \in lf
      l0 == IF c \in left THEN left ELSE 0..c
      f0 == IF c \in left THEN lf ELSE 0..c
  IN /\ left' = Upto(l0, y) \cup ((c + 1)..y)
     /\ lf' = Upto(f0, c) \cup (IF ok THEN (c + 1)..y ELSE {})
     /\ right' = From(right, y) /\ rf' = From(rf, y)
Left(y) ==
  LET ok == c \in right => c \in rf
      r0 == IF c \in right THEN right ELSE c..(n - 1)
      f0 == IF c \in right THEN rf ELSE c..(n - 1)
  IN /\ right' = From(r0, y) \cup (y..(c - 1))
     /\ rf' = From(f0, c) \cup (IF ok THEN y..(c - 1) ELSE {})
     /\ left' = Upto(left, y) /\ lf' = Upto(lf, y)
Position == \E y \in -1..n :
  /\ Say(<<"position", y>>)
  /\ IF y \notin All \/ y = c THEN UNCHANGED <<c, left, right, lf, rf>>
     ELSE /\ c' = y
          /\ IF y > c THEN Right(y) ELSE Left(y)
ComputeL == Say(<<"left">>) /\ left' = 0..c /\ lf' = 0..c /\ UNCHANGED <<c, right, rf>>
ComputeR == Say(<<"right">>) /\ right' = c..(n - 1) /\ rf' = c..(n - 1) /\ UNCHANGED <<c, left, lf>>
\* the centre is moved to the left end behind the blocks; the right ones are computed anew
Energy == /\ Say(<<"energy">>) /\ c' = 0
          /\ right' = All /\ rf' = All
          /\ left' = left /\ lf' = IF c = 0 THEN lf ELSE Upto(lf, 0)
\* sweeps to the right end and back rewrite every tensor
Run == \E op \in {"run1", "run2"}, sweeps \in {0, 1, 2} :
  /\ Say(<<op, sweeps>>) /\ c' = 0
  /\ right' = All /\ rf' = All
  /\ IF sweeps = 0 THEN left' = left /\ lf' = IF c = 0 THEN lf ELSE Upto(lf, 0)
     ELSE left' = All /\ lf' = {0}
Next == Position \/ ComputeL \/ ComputeR \/ Energy \/ Run
Spec == Init /\ [][Next]_vars
Typed == c \in All /\ lf \subseteq left /\ rf \subseteq right /\ left \subseteq All /\ right \subseteq All
\* the blocks that a later call may read are current
Fresh == Upto(left, c) \subseteq lf /\ From(right, c) \subseteq rf
\* the boundaries are never lost
Boundary == 0 \in left /\ (n - 1) \in right
\* after a move, the block on the side it came from is there
Facing == [][/\ (c' > c => c' \in left')
             /\ (c' < c => c' \in right')]_vars
=============================================================================
