------------------------------- MODULE Order --------------------------------
(***************************************************************************)
(* Contraction orders as runs of a state machine.  State: the sequence of   *)
(* remaining tensors, D[i][j] = product of the dimensions joining tensors i *)
(* and j, D[i][i] = product of the open dimensions of tensor i.  Step       *)
(* <<j, i>>: merge tensor i into tensor j < i.                              *)
(***************************************************************************)
EXTENDS Tensor, Integers, Sequences, FiniteSets, SequencesExt, TLC

N(D) == Len(D)
SizeOf(D, i) == ProdSeq(D[i])
StepCost(D, j, i) == (SizeOf(D, i) \div D[j][i]) * SizeOf(D, j)
DelAt(q, i) == [k \in 1..(Len(q) - 1) |-> IF k < i THEN q[k] ELSE q[k + 1]]
Merge(D, j, i) ==
  LET n == Len(D)
      row(k) == IF k = j
                THEN [m \in 1..n |-> IF m = j THEN D[j][j] * D[i][i] ELSE D[j][m] * D[i][m]]
                ELSE [m \in 1..n |-> IF m = j THEN D[k][j] * D[k][i] ELSE D[k][m]]
      F == TLCEval([k \in 1..n |-> row(k)])
  IN TLCEval(DelAt([k \in 1..n |-> DelAt(F[k], i)], i))

\* 0-based pairs as returned by the solvers
RECURSIVE ValidRun(_, _), RunCost(_, _)
ValidRun(n, ord) ==
  IF ord = <<>> THEN n = 1
  ELSE /\ 0 <= ord[1][1] /\ ord[1][1] < ord[1][2] /\ ord[1][2] < n
       /\ ValidRun(n - 1, Tail(ord))
RunCost(D, ord) ==
  IF ord = <<>> THEN 0
  ELSE StepCost(D, ord[1][1] + 1, ord[1][2] + 1)
       + RunCost(Merge(D, ord[1][1] + 1, ord[1][2] + 1), Tail(ord))

Joined(D) == {p \in (1..Len(D)) \X (1..Len(D)) : p[1] < p[2] /\ D[p[1]][p[2]] > 1}
AllPairs(D) == {p \in (1..Len(D)) \X (1..Len(D)) : p[1] < p[2]}
\* outer products only when nothing else is left
Moves(D) == IF Joined(D) # {} THEN Joined(D) ELSE AllPairs(D)
\* the run takes outer products only when nothing else is left
RECURSIVE ConnectedRun(_, _)
ConnectedRun(D, ord) ==
  IF ord = <<>> THEN TRUE
  ELSE /\ <<ord[1][1] + 1, ord[1][2] + 1>> \in Moves(D)
       /\ ConnectedRun(Merge(D, ord[1][1] + 1, ord[1][2] + 1), Tail(ord))
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE MinCost(_)
MinCost(D) ==
  IF Len(D) <= 1 THEN 0
  ELSE LET mv == SetToSeq(Moves(D))
           cs == [k \in DOMAIN mv |-> StepCost(D, mv[k][1], mv[k][2]) + MinCost(Merge(D, mv[k][1], mv[k][2]))]
       IN FoldLeft(Min2, cs[1], cs)

(* The same machine on labelled tensors: labs[k] the labels of tensor k,     *)
(* dims a function from labels to dimensions, con the order in which ncon    *)
(* contracts them (each step contracts everything two tensors share).        *)
RemoveTwo(q, S) == LET RECURSIVE P(_)
                       P(k) == IF k > Len(q) THEN <<>> ELSE (IF k \in S THEN <<>> ELSE <<q[k]>>) \o P(k + 1)
                   IN P(1)
DimOf(dl, dv, l) == dv[IndexOf(dl, l)]
ProdLabs(S, dl, dv) == LET q == SetToSeq(S) IN ProdSeq([k \in DOMAIN q |-> DimOf(dl, dv, q[k])])
Untraced(lab) == SelectSeq(lab, LAMBDA x : Cardinality({k \in DOMAIN lab : lab[k] = x}) = 1)
MinOf(q) == FoldLeft(Min2, q[1], q)
RECURSIVE OuterCost(_)
OuterCost(sz) ==
  IF Len(sz) <= 1 THEN 0
  ELSE LET i == IndexOf(sz, MinOf(sz))
           r == DelAt(sz, i)
           j == IndexOf(r, MinOf(r))
       IN sz[i] * r[j] + OuterCost(Append(DelAt(r, j), sz[i] * r[j]))
RECURSIVE LabelCost(_, _, _, _)
LabelCost(labs, con, dl, dv) ==
  IF con = <<>> THEN OuterCost([k \in DOMAIN labs |-> ProdLabs(SetOf(labs[k]), dl, dv)])
  ELSE LET S == {k \in DOMAIN labs : con[1] \in SetOf(labs[k])}
       IN IF Cardinality(S) # 2 THEN LabelCost(labs, Tail(con), dl, dv)
          ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                   n == CHOOSE x \in S : x # m
                   sh == SetOf(labs[m]) \cap SetOf(labs[n])
                   c == ProdLabs(SetOf(labs[m]) \cup SetOf(labs[n]), dl, dv)
               IN c + LabelCost(Append(RemoveTwo(labs, S), Without(labs[m], sh) \o Without(labs[n], sh)),
                                Without(con, sh), dl, dv)
TrueCost(labs, con, dl, dv) == LabelCost([k \in DOMAIN labs |-> Untraced(labs[k])], con, dl, dv)

Adjacency(labs, dl, dv) ==
  [i \in DOMAIN labs |-> [j \in DOMAIN labs |->
     IF i = j THEN ProdLabs({x \in SetOf(labs[i]) :
                       Cardinality({<<t, k>> \in UNION {{t} \X DOMAIN labs[t] : t \in DOMAIN labs} : labs[t][k] = x}) = 1}, dl, dv)
     ELSE ProdLabs(SetOf(labs[i]) \cap SetOf(labs[j]), dl, dv)]]
=============================================================================
