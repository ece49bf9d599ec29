-------------------------------- MODULE Ncon --------------------------------
(***************************************************************************)
(* What ncon computes.  A label is a record [i |-> n, s |-> codes]: an      *)
(* integer label (s = <<>>) or a string label given by its character codes. *)
(* Open labels: negative integers, strings starting with a hyphen (45).     *)
(***************************************************************************)
EXTENDS Tensor, Integers, Sequences, FiniteSets, SequencesExt, TLC

IsStr(l) == l.s # <<>>
IsOpen(l) == IF IsStr(l) THEN l.s[1] = 45 ELSE l.i < 0
Alnum(c) == (c \in 48..57) \/ (c \in 65..90) \/ (c \in 97..122)
Body(l) == IF IsOpen(l) THEN Tail(l.s) ELSE l.s
LegalLabel(l) == IF IsStr(l) THEN Body(l) # <<>> /\ \A k \in DOMAIN Body(l) : Alnum(Body(l)[k])
                 ELSE l.i # 0

RECURSIVE LexLt(_, _)
LexLt(a, b) == IF b = <<>> THEN FALSE
               ELSE IF a = <<>> THEN TRUE
               ELSE IF a[1] # b[1] THEN a[1] < b[1]
               ELSE LexLt(Tail(a), Tail(b))
\* default order: integers before strings; integers outwards from zero; strings in ASCII order
Before(l, m) == IF IsStr(l) # IsStr(m) THEN ~IsStr(l)
                ELSE IF IsStr(l) THEN LexLt(l.s, m.s)
                ELSE IF l.i < 0 THEN l.i > m.i ELSE l.i < m.i

Labels(net) == UNION {SetOf(net[k]) : k \in DOMAIN net}
Open(net) == {l \in Labels(net) : IsOpen(l)}
Closed(net) == {l \in Labels(net) : ~IsOpen(l)}
DefaultOut(net) == SetToSortSeq(Open(net), Before)
DefaultCon(net) == SetToSortSeq(Closed(net), Before)

Legal(ts, net) ==
  /\ Len(ts) = Len(net)
  /\ \A k \in DOMAIN ts : Len(ts[k].s) = Len(net[k])
  /\ \A l \in Labels(net) : LegalLabel(l)
  /\ \A t, u \in DOMAIN ts : \A a \in DOMAIN net[t], b \in DOMAIN net[u] :
        net[t][a] = net[u][b] => ts[t].s[a] = ts[u].s[b]
Ordering(q, S) == Distinct(q) /\ SetOf(q) = S

Value(ts, net, out) == Einsum(ts, net, out)

(***************************************************************************)
(* The contraction as a state machine: bag of labelled tensors; a step sums  *)
(* one closed label over all tensors that carry it.                          *)
(***************************************************************************)
Touch(net, l) == {k \in DOMAIN net : l \in SetOf(net[k])}
RECURSIVE Pick(_, _, _)
Pick(q, S, k) == IF k > Len(q) THEN <<>> ELSE (IF k \in S THEN <<q[k]>> ELSE <<>>) \o Pick(q, S, k + 1)
Dedup(q) == LET RECURSIVE D(_, _)
                D(r, k) == IF k > Len(q) THEN r ELSE D(IF q[k] \in SetOf(r) THEN r ELSE Append(r, q[k]), k + 1)
            IN D(<<>>, 1)
RECURSIVE Cat(_, _)
Cat(net, k) == IF k > Len(net) THEN <<>> ELSE net[k] \o Cat(net, k + 1)
\* sum label l out
SumLabel(ts, net, l) ==
  LET S == Touch(net, l)
      R == DOMAIN net \ S
      mt == Pick(ts, S, 1)
      mn == Pick(net, S, 1)
      out == Without(Dedup(Cat(mn, 1)), {l})
  IN [ts |-> Append(Pick(ts, R, 1), Einsum(mt, mn, out)),
      net |-> Append(Pick(net, R, 1), out)]
=============================================================================
