------------------------------ MODULE Quantum -------------------------------
(***************************************************************************)
(* Dense algebra behind QuOperator, QuVector, QuAdjointVector and QuScalar.  *)
(* A value is [o, i, t]: dimensions of the output and input subsystems and    *)
(* the tensor with shape o \o i. Ignored edges of a network are summed with   *)
(* the weights 1, 2, ..., d.                                                  *)
(***************************************************************************)
EXTENDS Tensor, Integers, Sequences, SequencesExt, FiniteSets, TLC
Val(o, i, t) == [o |-> o, i |-> i, t |-> t]
Scalar(t) == Val(<<>>, <<>>, t)
EqVal(a, b) == a.o = b.o /\ a.i = b.i /\ Eq(a.t, b.t)
\* the value of a network given by tensors, labels and dangling labels
Weights(d) == T(<<d>>, [k \in 1..d |-> k])
DimOf(ts, labs, x) == LET k == CHOOSE k \in DOMAIN labs : x \in SetOf(labs[k]) IN ts[k].s[IndexOf(labs[k], x)]
FromNet(ts, labs, out, inn, ign) ==
  LET ws == [k \in DOMAIN ign |-> Weights(DimOf(ts, labs, ign[k]))]
      wl == [k \in DOMAIN ign |-> <<ign[k]>>]
  IN Val([k \in DOMAIN out |-> DimOf(ts, labs, out[k])], [k \in DOMAIN inn |-> DimOf(ts, labs, inn[k])],
         Einsum(ts \o ws, labs \o wl, out \o inn))
\* every dangling label is given a role exactly once
Uses(labs, x) == SumSeq([k \in DOMAIN labs |-> Cardinality({a \in DOMAIN labs[k] : labs[k][a] = x})])
DanglingOf(labs) == {x \in AllLabels(labs) : Uses(labs, x) = 1}
NetOK(labs, out, inn, ign) == (SetOf(out) \cup SetOf(inn) \cup SetOf(ign)) = DanglingOf(labs)
\* identity on a space
Eye(d) == T(<<d, d>>, [k \in 1..(d * d) |-> IF (k - 1) \div d = (k - 1) % d THEN 1 ELSE 0])
Identity(sp) ==
  LET n == Len(sp) IN
  FromNet([k \in 1..n |-> Eye(sp[k])], [k \in 1..n |-> <<k, n + k>>], [k \in 1..n |-> k], [k \in 1..n |-> n + k], <<>>)
Adj(a) ==
  LET no == Len(a.o) ni == Len(a.i) IN
  Val(a.i, a.o, Conj(Transpose(a.t, [k \in 1..(no + ni) |-> IF k <= ni THEN no + k - 1 ELSE k - ni - 1])))
MatMulOK(a, b) == a.i = b.o
MatMul(a, b) ==
  LET no == Len(a.o) ni == Len(a.i) IN
  Val(a.o, b.i, Tensordot(a.t, b.t, [k \in 1..ni |-> no + k - 1], [k \in 1..ni |-> k - 1]))
Kron(a, b) ==
  LET na == Len(a.o) ma == Len(a.i) nb == Len(b.o) mb == Len(b.i)
      oa == [k \in 1..na |-> k] ia == [k \in 1..ma |-> na + k]
      ob == [k \in 1..nb |-> na + ma + k] ib == [k \in 1..mb |-> na + ma + nb + k]
  IN Val(a.o \o b.o, a.i \o b.i, Einsum(<<a.t, b.t>>, <<oa \o ia, ob \o ib>>, oa \o ob \o ia \o ib))
IsScalar(a) == a.o = <<>> /\ a.i = <<>>
\* trace over the subsystems in S (1-based)
PTraceOK(a, S) == S \subseteq (1..Len(a.o)) /\ S \subseteq (1..Len(a.i)) /\ \A k \in S : a.o[k] = a.i[k]
Rest(q, S) == LET ks == SelectSeq([k \in DOMAIN q |-> k], LAMBDA k : k \notin S) IN [k \in DOMAIN ks |-> q[ks[k]]]
PTrace(a, S) ==
  LET no == Len(a.o)
      lo == [k \in DOMAIN a.o |-> k]
      li == [k \in DOMAIN a.i |-> IF k \in S THEN k ELSE no + k]
  IN Val(Rest(a.o, S), Rest(a.i, S), Einsum(<<a.t>>, <<lo \o li>>, Rest(lo, S) \o Rest(li, S)))
NormSq(a) == PTrace(MatMul(Adj(a), a), 1..Len(a.i))
Projector(a) == IF a.i = <<>> THEN MatMul(a, Adj(a)) ELSE MatMul(Adj(a), a)
=============================================================================
