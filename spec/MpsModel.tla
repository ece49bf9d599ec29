------------------------------- MODULE MpsModel ------------------------------
(* The centre bookkeeping of a matrix product state on its own: all short      *)
(* programs, with the sites each call leaves (or may leave) left- and           *)
(* right-isometric.  Checked here: the rule MpsTrace uses to decide that the    *)
(* reported centre is a centre is sound, and canonicalize always restores it.   *)
(* Every program is replayed.                                                  *)
EXTENDS Mps, TLC, Json
CONSTANTS N, MaxLen
VARIABLES c, real, L, R, prog
vars == <<c, real, L, R, prog>>
All == 0..(N - 1)
Below(x) == {k \in All : k < x}
Above(x) == {k \in All : k > x}
None == [canon |-> 0, c |-> -1, site |-> 0, norm |-> 0, s1 |-> 0, s2 |-> 0, cp |-> -1, unitary |-> 0]
After(op, a) == /\ c' = CentreAfter(op, a, c)
                /\ real' = RealAfter(op, a, c, real, CentreAfter(op, a, c))
Init == \E x \in -1..(N - 1), canon \in {0, 1} :
          LET a == [None EXCEPT !.canon = canon, !.c = x] new == CentreAfter("init", a, -1) IN
          /\ (canon = 0 => x = -1)
          /\ c = new /\ real = RealAfter("init", a, -1, FALSE, new)
          /\ L = (IF canon = 1 THEN Below(new) ELSE {}) /\ R = (IF canon = 1 THEN Above(new) ELSE {})
          /\ prog = << <<"init", N, canon, x>> >>
Say(p) == /\ Len(prog) <= MaxLen
          /\ prog' = Append(prog, p)
          /\ IF Len(prog) = MaxLen THEN PrintT("PROG " \o ToJson(prog')) ELSE TRUE
Same == UNCHANGED <<c, real, L, R>>
\* one step of the centre from x to y = x + 1 or x - 1: a factor passes to y
Position == \E y \in All, norm \in {0, 1}, t \in {0, 1, 2} :
  /\ Say(<<"position", y, norm, t>>)
  /\ IF c < 0 THEN Same  \* must be refused
     ELSE /\ After("position", [None EXCEPT !.site = y, !.norm = norm])
          /\ L' = IF y > c THEN (L \cup (c..(y - 1))) \ {y} ELSE L \ ((y..(c - 1)) \cup (IF y < c THEN {c} ELSE {}))
          /\ R' = IF y < c THEN (R \cup ((y + 1)..c)) \ {y} ELSE R \ (((c + 1)..y) \cup (IF y > c THEN {c} ELSE {}))
Canonicalize == \E norm \in {0, 1} :
  /\ Say(<<"canonicalize", norm>>)
  /\ After("canonicalize", [None EXCEPT !.norm = norm])
  /\ L' = Below(c') /\ R' = Above(c')
\* a unitary on the physical index keeps an isometry, anything else need not
Gate1 == \E s \in All, u \in {0, 1} :
  /\ Say(<<"gate1", s, u>>)
  /\ After("gate1", [None EXCEPT !.s1 = s, !.unitary = u])
  /\ L' = (IF u = 1 THEN L ELSE L \ {s}) /\ R' = (IF u = 1 THEN R ELSE R \ {s})
Gate2 == \E s \in Below(N - 1), k \in {-1, 0, 1}, t \in {0, 1, 2} :
  LET cp == IF k < 0 THEN -1 ELSE s + k IN
  /\ Say(<<"gate2", s, cp, t>>)
  /\ IF t > 0 /\ c \notin {s, s + 1} THEN Same  \* must be refused
     ELSE /\ After("gate2", [None EXCEPT !.s1 = s, !.s2 = s + 1, !.cp = cp])
          /\ L' = IF cp = s + 1 THEN (L \cup {s}) \ {s + 1} ELSE L \ {s, s + 1}
          /\ R' = IF cp = s + 1 THEN R \ {s, s + 1} ELSE (R \cup {s + 1}) \ {s}
Measure == \E op \in {"local", "corr"} : Say(<<op>>) /\ Same
Next == Position \/ Canonicalize \/ Gate1 \/ Gate2 \/ Measure
Spec == Init /\ [][Next]_vars
Typed == c \in -1..(N - 1) /\ L \subseteq All /\ R \subseteq All
\* a centre that the history guarantees is one: isometries on both sides
Sound == (real /\ c >= 0) => (Below(c) \subseteq L /\ Above(c) \subseteq R)
\* a centre is lost only by a two-site gate elsewhere, and guaranteed again after canonicalize
Lost == [][(c >= 0 /\ c' < 0) => prog'[Len(prog')][1] = "gate2"]_vars
Restored == [][prog'[Len(prog')][1] = "canonicalize" => (real' /\ c' >= 0 /\ (c >= 0 => c' = c))]_vars
\* nothing but a gate that is not unitary, away from the centre, takes the guarantee away
Kept == [][(real /\ ~real') => (prog'[Len(prog')][1] = "gate1" /\ prog'[Len(prog')][3] = 0 /\ prog'[Len(prog')][2] # c)]_vars
=============================================================================
