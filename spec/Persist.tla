------------------------------ MODULE Persist -------------------------------
(***************************************************************************)
(* What files, JSON documents and drawings of a network say.                *)
(* A network is a sequence of nodes                                          *)
(*   [k kind, nm name, an axis names, be backend, dt dtype, t tensor,        *)
(*    e edge labels by axis, en edge names by axis].                         *)
(* A label on two axes is a connected edge, on one a dangling edge; labels   *)
(* have no meaning of their own.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
ToS(q) == {q[k] : k \in DOMAIN q}
AllE(net) == FoldLeft(LAMBDA a, nd : a \o nd.e, <<>>, net)
AllEN(net) == FoldLeft(LAMBDA a, nd : a \o nd.en, <<>>, net)
FirstAt(q, x) == CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in 1..(i - 1) : q[j] # x
\* labels replaced by the place of their first appearance
Canon(net) == LET all == AllE(net) IN
  [k \in DOMAIN net |-> [net[k] EXCEPT !.e = [a \in DOMAIN net[k].e |-> FirstAt(all, net[k].e[a])]]]
Same(n1, n2) == Canon(n1) = Canon(n2)
\* the part of the network with the given nodes (positions), in that order
SubNet(net, idx) == [k \in DOMAIN idx |-> net[idx[k]]]
Labels(net) == ToS(AllE(net))
Places(net, x) == Cardinality({<<k, a>> \in UNION {{<<k, a>> : a \in DOMAIN net[k].e} : k \in DOMAIN net} : net[k].e[a] = x})
\* no edge from the part to the rest of the whole network
Closed(net, idx) == LET sub == SubNet(net, idx) IN \A x \in Labels(sub) : Places(sub, x) = Places(net, x)
NoDup(q) == Cardinality(ToS(q)) = Len(q)
\* bindings: sequence of <<key, labels>>; edges that are not included are dropped
Bound(sub, b) ==
  LET all == AllE(sub)
      cut == [k \in DOMAIN b |-> <<b[k][1], [j \in DOMAIN SelectSeq(b[k][2], LAMBDA x : x \in ToS(all)) |->
                                               FirstAt(all, SelectSeq(b[k][2], LAMBDA x : x \in ToS(all))[j])]>>]
  IN {cut[k] : k \in {k \in DOMAIN cut : Len(cut[k][2]) > 0}}
\* drawing: lines <<from, to, label>> (node positions, 0 a stub), one per edge
Hidden(nm, all) == IF all = 1 THEN nm[1] ELSE IF nm[2] = 1 THEN "" ELSE nm[1]
EndsOf(sub, x) == {<<k, a>> \in UNION {{<<k, a>> : a \in DOMAIN sub[k].e} : k \in DOMAIN sub} : sub[k].e[a] = x}
LineOf(sub, x, all) ==
  LET ends == EndsOf(sub, x)
      one == CHOOSE p \in ends : TRUE
      nm == sub[one[1]].en[one[2]]
      ks == {p[1] : p \in ends}
      lo == CHOOSE k \in ks : \A j \in ks : k <= j
      hi == CHOOSE k \in ks : \A j \in ks : k >= j
  IN IF Cardinality(ends) = 1 THEN <<0, lo, Hidden(nm, all)>> ELSE <<lo, hi, Hidden(nm, all)>>
CountIn(q, x) == Cardinality({i \in DOMAIN q : q[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CountIn(a, a[i]) = CountIn(b, a[i])
Drawing(sub, all) == LET ls == SetToSeq(Labels(sub)) IN [k \in DOMAIN ls |-> LineOf(sub, ls[k], all)]
=============================================================================
