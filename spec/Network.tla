------------------------------ MODULE Network ------------------------------
(***************************************************************************)
(* The tensor-network state machine.                                       *)
(*                                                                         *)
(* State: a function from node ids to                                      *)
(*   [t |-> tensor, e |-> edge id of every axis, an |-> axis names,        *)
(*    nm |-> name, cp |-> 1 for a copy node]                               *)
(* An edge is an id; it joins the axes that carry it (one axis: dangling,  *)
(* two axes: connected, both on one node: trace edge).                     *)
(*                                                                         *)
(* Every operation is an operator from the pre-state (and the identities   *)
(* the caller observes: returned nodes/edges) to the post-state.  Nodes of *)
(* the post-state carry                                                    *)
(*   free |-> 1  the axis order is not promised (any order consistent with *)
(*               the edges is fine)                                        *)
(*   anx |-> 1   the axis names are promised;  nmx |-> 1 the name is       *)
(***************************************************************************)
EXTENDS Tensor, Integers, Sequences, FiniteSets, SequencesExt, TLC

\* restriction and union of functions
Drop(f, S) == [x \in (DOMAIN f) \ S |-> f[x]]
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Put2(f, k, v, k2, v2) == Put(Put(f, k, v), k2, v2)

NodeRec(t, e, an, nm, cp) == [t |-> t, e |-> e, an |-> an, nm |-> nm, cp |-> cp]
Promise(r, free, anx, nmx) ==
  [t |-> r.t, e |-> r.e, an |-> r.an, nm |-> r.nm, cp |-> r.cp,
   free |-> free, anx |-> anx, nmx |-> nmx]
Plain(nf) == [i \in DOMAIN nf |-> Promise(nf[i], 0, 1, 1)]

Edges(nf) == UNION {SetOf(nf[i].e) : i \in DOMAIN nf}
\* the axes carrying edge e, as a set of <<node, axis>>
Ends(nf, e) == UNION {{<<i, a - 1>> : a \in {b \in DOMAIN nf[i].e : nf[i].e[b] = e}} :
                      i \in DOMAIN nf}
NodesOf(nf, e) == {i \in DOMAIN nf : e \in SetOf(nf[i].e)}
Live(nf, e) == e \in Edges(nf)
Dangling(nf, e) == Cardinality(Ends(nf, e)) = 1
IsTrace(nf, e) == Cardinality(Ends(nf, e)) = 2 /\ Cardinality(NodesOf(nf, e)) = 1
Connected(nf, e) == Cardinality(Ends(nf, e)) = 2
Shared(nf, m, n) ==
  IF m = n THEN {e \in SetOf(nf[m].e) : IsTrace(nf, e)}
  ELSE SetOf(nf[m].e) \cap SetOf(nf[n].e)
EdgeDim(nf, e) == LET x == CHOOSE x \in Ends(nf, e) : TRUE
                  IN nf[x[1]].t.s[x[2] + 1]
DanglingSet(nf) == {e \in Edges(nf) : Dangling(nf, e)}

(***************************************************************************)
(* Well-formedness: the invariant of the state machine (property N02).     *)
(***************************************************************************)
WF(nf) ==
  /\ \A i \in DOMAIN nf : /\ Len(nf[i].e) = Len(nf[i].t.s)
                          /\ Len(nf[i].an) = Len(nf[i].e)
                          /\ WellFormed(nf[i].t)
  /\ \A e \in Edges(nf) : /\ Cardinality(Ends(nf, e)) \in {1, 2}
                          /\ \A x, y \in Ends(nf, e) :
                               nf[x[1]].t.s[x[2] + 1] = nf[y[1]].t.s[y[2] + 1]

(***************************************************************************)
(* The meaning of a network: the tensor over its dangling edges, in the    *)
(* given order (property N01).                                             *)
(***************************************************************************)
NetValue(nf, order) ==
  LET ids == SetToSeq(DOMAIN nf)
  IN Einsum([k \in 1..Len(ids) |-> nf[ids[k]].t],
            [k \in 1..Len(ids) |-> nf[ids[k]].e], order)

DefNames(n) == [i \in 1..n |-> ToString(i - 1)]

------------------------------------------------------------------------------
\* Operations

\* a fresh node with fresh dangling edges
NewNode(nf, id, t, e, an, nm, cp) ==
  Put(Plain(nf), id, Promise(NodeRec(t, e, an, nm, cp), 0, 1, 1))

Subst(q, a, b) == [i \in DOMAIN q |-> IF q[i] = a THEN b ELSE q[i]]

CanConnect(nf, e1, e2) ==
  /\ e1 # e2 /\ Live(nf, e1) /\ Live(nf, e2)
  /\ Dangling(nf, e1) /\ Dangling(nf, e2)
  /\ EdgeDim(nf, e1) = EdgeDim(nf, e2)
Connect(nf, e1, e2, ne) ==
  Plain([i \in DOMAIN nf |-> [nf[i] EXCEPT !.e = Subst(Subst(@, e1, ne), e2, ne)]])

CanDisconnect(nf, e) == Live(nf, e) /\ Connected(nf, e)
\* both ways of assigning the two fresh edges to the two ends
Disconnect(nf, e, n1, n2) ==
  LET xs == Ends(nf, e)
  IN {Plain([i \in DOMAIN nf |->
        [nf[i] EXCEPT !.e = [a \in DOMAIN @ |->
            IF @[a] # e THEN @[a] ELSE IF <<i, a - 1>> = x THEN n1 ELSE n2]]]) : x \in xs}

\* contraction of the edges S (all between m and n, m # n) into node r
ContractPair(nf, m, n, S, r, free, an, anx, nm, nmx) ==
  LET le == Without(nf[m].e, S)
      re == Without(nf[n].e, S)
      both == SetOf(le) \cap SetOf(re)     \* become trace edges of the result
      \* distinct temporary labels for the two halves of an edge that becomes,
      \* or already is, a trace edge
      lab(q, base) == [a \in DOMAIN q |-> IF q[a] \in S THEN <<q[a], 0>> ELSE <<base, a>>]
      la == lab(nf[m].e, 1)
      lb == lab(nf[n].e, 2)
      out == SelectSeq(la, LAMBDA x : x[2] # 0) \o SelectSeq(lb, LAMBDA x : x[2] # 0)
      tt == Einsum(<<nf[m].t, nf[n].t>>, <<la, lb>>, out)
  IN Put(Plain(Drop(nf, {m, n})), r,
         Promise(NodeRec(tt, le \o re, an, nm, 0), free, anx, nmx))

\* contraction of the trace edges S of node m
ContractTrace(nf, m, S, r, free, an, anx, nm, nmx) ==
  LET la == [a \in DOMAIN nf[m].e |->
               IF nf[m].e[a] \in S THEN <<nf[m].e[a], 0>> ELSE <<1, a>>]
      out == SelectSeq(la, LAMBDA x : x[2] # 0)
      tt == Einsum(<<nf[m].t>>, <<la>>, out)
  IN Put(Plain(Drop(nf, {m})), r,
         Promise(NodeRec(tt, Without(nf[m].e, S), an, nm, 0), free, anx, nmx))

\* reorder the axes of one (promised) node by edge order; no trace edges
OrderBy(rec, order) ==
  [rec EXCEPT !.t = Transpose(rec.t, [i \in DOMAIN order |-> IndexOf(rec.e, order[i]) - 1]),
              !.an = [i \in DOMAIN order |-> rec.an[IndexOf(rec.e, order[i])]],
              !.e = order, !.free = 0]

CanReorderEdges(nf, m, order) ==
  /\ Len(order) = Len(nf[m].e) /\ Distinct(order) /\ SetOf(order) = SetOf(nf[m].e)
  /\ \A i \in DOMAIN order : ~IsTrace(nf, order[i])
ReorderEdges(nf, m, order) ==
  LET pf == Plain(nf) IN [pf EXCEPT ![m] = OrderBy(@, order)]
ReorderAxes(nf, m, perm) ==
  LET pf == Plain(nf)
  IN [pf EXCEPT ![m] = [@ EXCEPT !.t = Transpose(nf[m].t, perm),
                                 !.e = [i \in DOMAIN perm |-> nf[m].e[perm[i] + 1]],
                                 !.an = [i \in DOMAIN perm |-> nf[m].an[perm[i] + 1]]]]

OuterProduct(nf, m, n, r, an, anx, nm, nmx) ==
  ContractPair(nf, m, n, {}, r, 0, an, anx, nm, nmx)

(* Flattening: the edges es (in this order) become one edge ne whose index  *)
(* is their row-major combination, on every node that carries them.         *)
FlatNode(rec, es, ne, fl) ==
  LET tr == \E i \in DOMAIN es : Cardinality({a \in DOMAIN rec.e : rec.e[a] = es[i]}) = 2
      keep == SelectSeq([a \in DOMAIN rec.e |-> a],
                        LAMBDA a : rec.e[a] \notin SetOf(es))
      first(e) == CHOOSE a \in DOMAIN rec.e :
                    rec.e[a] = e /\ \A b \in DOMAIN rec.e : rec.e[b] = e => a <= b
      last(e) == CHOOSE a \in DOMAIN rec.e :
                    rec.e[a] = e /\ \A b \in DOMAIN rec.e : rec.e[b] = e => b <= a
      fr == [i \in DOMAIN es |-> IF fl[i] = 0 THEN first(es[i]) ELSE last(es[i])]
      bk == IF tr THEN [i \in DOMAIN es |-> IF fl[i] = 0 THEN last(es[i]) ELSE first(es[i])]
            ELSE <<>>
      axs == keep \o fr \o bk
      t1 == Transpose(rec.t, [i \in DOMAIN axs |-> axs[i] - 1])
      dim == ProdSeq([i \in DOMAIN fr |-> rec.t.s[fr[i]]])
      ks == [i \in DOMAIN keep |-> rec.t.s[keep[i]]]
      ke == [i \in DOMAIN keep |-> rec.e[keep[i]]]
      kn == [i \in DOMAIN keep |-> rec.an[keep[i]]]
  IN [rec EXCEPT !.t = Reshape(t1, ks \o (IF tr THEN <<dim, dim>> ELSE <<dim>>)),
                 !.e = ke \o (IF tr THEN <<ne, ne>> ELSE <<ne>>),
                 !.an = kn \o (IF tr THEN <<"?", "?">> ELSE <<"?">>),
                 !.free = 1, !.anx = 0]

CanFlatten(nf, es) ==
  /\ Len(es) >= 1 /\ Distinct(es)
  /\ \A i \in DOMAIN es : Live(nf, es[i])
  /\ \A i \in DOMAIN es : /\ NodesOf(nf, es[i]) = NodesOf(nf, es[1])
                          /\ Cardinality(Ends(nf, es[i])) = Cardinality(Ends(nf, es[1]))
\* pf: nodes with promises.  For trace edges it is not promised which of the two
\* axes of each edge goes to the front; fl gives one choice per edge.
FlattenP(pf, es, ne, fl) ==
  IF Len(es) = 1 THEN pf
  ELSE LET ns == NodesOf(pf, es[1])
       IN [i \in DOMAIN pf |-> IF i \in ns THEN FlatNode(pf[i], es, ne, fl) ELSE pf[i]]
FlipChoices(nf, es) ==
  IF Len(es) > 1 /\ IsTrace(nf, es[1]) THEN [1..Len(es) -> {0, 1}]
  ELSE {[i \in 1..Len(es) |-> 0]}
Flatten(nf, es, ne) ==
  {FlattenP(Plain(nf), es, ne, fl) : fl \in FlipChoices(nf, es)}
Perms(S) == {q \in [1..Cardinality(S) -> S] : Distinct(q)}
\* the order in which a set of parallel edges is combined is not promised
ParFlatP(pf, S, ne) ==
  UNION {{FlattenP(pf, q, ne, fl) : fl \in FlipChoices(pf, q)} : q \in Perms(S)}
ParFlat(nf, S, ne) == ParFlatP(Plain(nf), S, ne)

(* Splitting an edge e of dimension prod(shape) into new edges nes.         *)
SplitNodeAxes(rec, e, shape, nes) ==
  LET RECURSIVE exp(_)
      exp(a) == IF a > Len(rec.e) THEN << <<>>, <<>>, <<>> >>
                ELSE LET rest == exp(a + 1)
                     IN IF rec.e[a] = e
                        THEN <<nes \o rest[1], shape \o rest[2],
                               [i \in DOMAIN nes |-> "?"] \o rest[3]>>
                        ELSE << <<rec.e[a]>> \o rest[1], <<rec.t.s[a]>> \o rest[2],
                               <<rec.an[a]>> \o rest[3]>>
      x == exp(1)
  IN [rec EXCEPT !.t = Reshape(rec.t, x[2]), !.e = x[1], !.an = x[3],
                 !.free = 1, !.anx = 0]
CanSplit(nf, e, shape) ==
  Live(nf, e) /\ Len(shape) >= 1 /\ ProdSeq(shape) = EdgeDim(nf, e)
SplitEdge(nf, e, shape, nes) ==
  IF Len(shape) = 1 THEN Plain(nf)
  ELSE [i \in DOMAIN nf |->
          IF i \in NodesOf(nf, e) THEN SplitNodeAxes(Plain(nf)[i], e, shape, nes)
          ELSE Plain(nf)[i]]

(* Slicing *)
CanSlice(nf, e, start, len) ==
  /\ Live(nf, e) /\ len > 0
  /\ LET d == EdgeDim(nf, e)
     IN \/ 0 <= start /\ start + len <= d
        \/ start < 0 /\ -d <= start /\ start + len <= 0
SliceEdge(nf, e, start0, len) ==
  LET d == EdgeDim(nf, e)
      start == IF start0 < 0 THEN start0 + d ELSE start0
      sl(rec) ==
        [rec EXCEPT !.t = Slice(rec.t,
            [a \in DOMAIN rec.e |-> IF rec.e[a] = e THEN start ELSE 0],
            [a \in DOMAIN rec.e |-> IF rec.e[a] = e THEN len ELSE rec.t.s[a]])]
  IN [i \in DOMAIN nf |-> IF i \in NodesOf(nf, e) THEN sl(Plain(nf)[i]) ELSE Plain(nf)[i]]

(* Copying: nmap/emap are sequences of <<old, new>> pairs *)
MapOf(pairs, x) == LET p == CHOOSE p \in SetOf(pairs) : p[1] = x IN p[2]
MapDom(pairs) == {pairs[i][1] : i \in DOMAIN pairs}
MapRan(pairs) == {pairs[i][2] : i \in DOMAIN pairs}
CopyNet(nf, nmap, emap, conj) ==
  LET new == MapRan(nmap)
  IN [i \in (DOMAIN nf) \cup new |->
        IF i \in DOMAIN nf THEN Plain(nf)[i]
        ELSE LET o == CHOOSE o \in MapDom(nmap) : MapOf(nmap, o) = i
                 r == nf[o]
             IN Promise(NodeRec(IF conj = 1 THEN Conj(r.t) ELSE r.t,
                                [a \in DOMAIN r.e |-> MapOf(emap, r.e[a])],
                                r.an, r.nm, r.cp), 0, 1, 1)]
\* the reduced density matrix: a conjugate copy of everything reachable from
\* the dangling edges T, each of which becomes one edge between a node and
\* the copy of it
Densify(nf, cut, nmap, emap) ==
  LET c == CopyNet(nf, nmap, emap, 1)
  IN [i \in DOMAIN c |->
        IF i \in DOMAIN nf
        THEN [c[i] EXCEPT !.e = [a \in DOMAIN @ |-> IF @[a] \in cut THEN MapOf(emap, @[a]) ELSE @[a]]]
        ELSE c[i]]
CopyMapsOK(nf, S, nmap, emap) ==
  /\ MapDom(nmap) = S /\ Cardinality(MapRan(nmap)) = Cardinality(S)
  /\ Len(nmap) = Cardinality(S)
  /\ MapRan(nmap) \cap DOMAIN nf = {}
  /\ LET es == UNION {SetOf(nf[i].e) : i \in S}
     IN /\ MapDom(emap) = es /\ Len(emap) = Cardinality(es)
        /\ Cardinality(MapRan(emap)) = Cardinality(es)
        /\ MapRan(emap) \cap Edges(nf) = {}

(* Removing a node: every edge to another node is cut; pairs give, per axis, *)
(* the dangling edge left on the other side, rest the fresh edges on the     *)
(* removed node itself (per axis).                                           *)
RemoveNode(nf, m, byaxis, own) ==
  Plain([i \in DOMAIN nf |->
     IF i = m
     THEN [nf[i] EXCEPT !.e = [a \in DOMAIN @ |->
              IF (a - 1) \in MapDom(own) THEN MapOf(own, a - 1) ELSE @[a]]]
     ELSE [nf[i] EXCEPT !.e = [a \in DOMAIN @ |->
              IF @[a] \in SetOf(nf[m].e)
              THEN MapOf(byaxis, IndexOf(nf[m].e, @[a]) - 1) ELSE @[a]]]])
CutAxes(nf, m) == {a - 1 : a \in {b \in DOMAIN nf[m].e :
                     Connected(nf, nf[m].e[b]) /\ ~IsTrace(nf, nf[m].e[b])}}

(* Lazy contraction of a copy node with all its partners *)
CopyPartners(nf, c) == (UNION {NodesOf(nf, nf[c].e[a]) : a \in DOMAIN nf[c].e}) \ {c}
CanContractCopy(nf, c) ==
  /\ nf[c].cp = 1
  /\ \A a \in DOMAIN nf[c].e : Connected(nf, nf[c].e[a])
  /\ CopyPartners(nf, c) # {}
ContractCopy(nf, c, r, nm, nmx) ==
  LET ps == SetToSeq(CopyPartners(nf, c))
      S == SetOf(nf[c].e)
      lab(p, k) == [a \in DOMAIN nf[p].e |->
                      IF nf[p].e[a] \in S THEN <<0, 0>> ELSE <<k, a>>]
      labs == [k \in DOMAIN ps |-> lab(ps[k], k)]
      outs == FoldLeft(LAMBDA x, y : x \o y, <<>>,
                 [k \in DOMAIN ps |-> SelectSeq(labs[k], LAMBDA z : z[2] # 0)])
      oute == FoldLeft(LAMBDA x, y : x \o y, <<>>,
                 [k \in DOMAIN ps |-> Without(nf[ps[k]].e, S)])
      tt == Einsum([k \in DOMAIN ps |-> nf[ps[k]].t], labs, outs)
  IN Put(Plain(Drop(nf, {c} \cup SetOf(ps))), r,
         Promise(NodeRec(tt, oute, DefNames(Len(oute)), nm, 0), 1, 0, nmx))

(* Complete contraction of the nodes S into node r: every edge with both ends *)
(* in S is summed; the remaining edges are the axes, in the given order.      *)
OuterEdges(nf, S) ==
  {e \in UNION {SetOf(nf[i].e) : i \in S} : Dangling(nf, e) \/ ~(NodesOf(nf, e) \subseteq S)}
ContractSet(nf, S, order, r, free, cp) ==
  Put(Plain(Drop(nf, S)), r,
      Promise(NodeRec(NetValue([i \in S |-> nf[i]], order), order, <<>>, "", cp), free, 0, 0))

(* Bucket elimination: contract the copy nodes one after the other.  The new  *)
(* nodes get the temporary ids base+1, base+2, ...                            *)
RECURSIVE CanBucket(_, _, _, _), Bucket(_, _, _, _)
CanBucket(nf, order, k, base) ==
  IF k > Len(order) THEN TRUE
  ELSE /\ order[k] \in DOMAIN nf /\ CanContractCopy(nf, order[k])
       /\ CanBucket(Plain(ContractCopy(nf, order[k], base + k, "", 0)), order, k + 1, base)
Bucket(nf, order, k, base) ==
  IF k > Len(order) THEN nf
  ELSE Bucket(Plain(ContractCopy(nf, order[k], base + k, "", 0)), order, k + 1, base)

(* Moving an edge (with the same axis number) from one node to another *)
CanRedirect(nf, e, new, old) ==
  /\ e \in SetOf(nf[old].e) /\ new # old
------------------------------------------------------------------------------
(* Structure queries *)
Neighbours(nf, m) ==
  {i \in (DOMAIN nf) \ {m} : SetOf(nf[i].e) \cap SetOf(nf[m].e) # {}}
RECURSIVE Closure(_, _)
Closure(nf, S) ==
  LET N == S \cup UNION {Neighbours(nf, i) : i \in S}
  IN IF N = S THEN S ELSE Closure(nf, N)
SubgraphDangling(nf, S) ==
  {e \in UNION {SetOf(nf[i].e) : i \in S} :
      Dangling(nf, e) \/ ~(NodesOf(nf, e) \subseteq S)}
=============================================================================
