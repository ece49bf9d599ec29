---------------------------- MODULE QuantumModel -----------------------------
(* All short programs over an operator, a map between different spaces and a   *)
(* vector.  Checked here: the dense algebra obeys the laws it must (adjoint     *)
(* is an involution that reverses products, the full trace of a product is      *)
(* cyclic, partial traces compose).  Every program is replayed.                *)
EXTENDS Quantum, Json
CONSTANTS MaxLen, LawLen
VARIABLES vals, prog
vars == <<vals, prog>>
Fill(s, k, c) == [s |-> s, c |-> c, d |-> [i \in 1..ProdSeq(s) |-> LET v == (((7 * i) + (3 * k)) % 5) - 2
                                                                   IN IF c = 1 THEN <<v, ((i + k) % 3) - 1>> ELSE v]]
Leaves(c) == << Val(<<2, 2>>, <<2, 2>>, Fill(<<2, 2, 2, 2>>, 1, c)),
                Val(<<2>>, <<2, 2>>, Fill(<<2, 2, 2>>, 2, c)),
                Val(<<2, 2>>, <<>>, Fill(<<2, 2>>, 3, c)) >>
Init == \E c \in {0, 1} : vals = Leaves(c) /\ prog = << <<"init", c>> >>
Small(v) == /\ Len(v.o) + Len(v.i) <= 6 /\ ProdSeq(v.o \o v.i) <= 64
            /\ \A k \in DOMAIN v.t.d : IF v.t.c = 1 THEN \A j \in 1..2 : v.t.d[k][j] \in -9000..9000 ELSE v.t.d[k] \in -9000..9000
Step(p, v) == /\ Small(v)
              /\ vals' = Append(vals, v)
              /\ prog' = Append(prog, p)
              /\ IF Len(prog) = MaxLen THEN PrintT("PROG " \o ToJson(prog')) ELSE TRUE
Quiet(p) == /\ prog[Len(prog)][1] # "contract" /\ Len(prog) < MaxLen
            /\ UNCHANGED vals /\ prog' = Append(prog, p)
SubSets(v) == {S \in SUBSET (1..Len(v.o)) : S # {} /\ PTraceOK(v, S)}
Next ==
  /\ Len(prog) <= MaxLen
  /\ \E x \in DOMAIN vals :
     \/ Step(<<"adjoint", x>>, Adj(vals[x]))
     \/ Quiet(<<"contract", x>>)
     \/ \E y \in DOMAIN vals : \/ MatMulOK(vals[x], vals[y]) /\ Step(<<"matmul", x, y>>, MatMul(vals[x], vals[y]))
                               \/ Len(vals[x].o) + Len(vals[y].o) <= 3 /\ Step(<<"kron", x, y>>, Kron(vals[x], vals[y]))
     \/ \E S \in SubSets(vals[x]) : Step(<<"ptrace", x, SetToSortSeq(S, <)>>, PTrace(vals[x], S))
     \/ vals[x].o # <<>> /\ vals[x].i = <<>> /\
        \E S \in SUBSET (1..Len(vals[x].o)) : Step(<<"reduced", x, SetToSortSeq(S, <)>>, PTrace(Projector(vals[x]), S))
Spec == Init /\ [][Next]_vars
New == vals[Len(vals)]
Early == Len(prog) <= LawLen + 1
Involution == Early => EqVal(Adj(Adj(New)), New)
Reverses == Early => \A y \in DOMAIN vals : MatMulOK(New, vals[y]) => EqVal(Adj(MatMul(New, vals[y])), MatMul(Adj(vals[y]), Adj(New)))
Cyclic == Early => \A y \in DOMAIN vals :
            (MatMulOK(New, vals[y]) /\ MatMulOK(vals[y], New)) =>
               EqVal(PTrace(MatMul(New, vals[y]), 1..Len(New.o)), PTrace(MatMul(vals[y], New), 1..Len(vals[y].o)))
Composes == (Early /\ PTraceOK(New, {1, 2})) => EqVal(PTrace(PTrace(New, {2}), {1}), PTrace(New, {1, 2}))
NormReal == (Early /\ NormSq(New).t.c = 1) => NormSq(New).t.d[1][2] = 0
=============================================================================
