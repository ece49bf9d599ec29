------------------------------- MODULE NetModel -------------------------------
(* All short edit programs of small networks.  The model checks the state      *)
(* machine itself (incidence stays well formed, contraction, flattening and    *)
(* splitting keep the value); every complete program is replayed on the real    *)
(* library.                                                                     *)
EXTENDS Network, Json, IOUtils
CONSTANTS MaxLen
VARIABLES nf, prog, nn, ne
vars == <<nf, prog, nn, ne>>

Shapes == { << <<2, 2>>, <<2, 2>>, <<2>> >>, << <<2, 2, 2>>, <<2, 2>> >>, << <<2, 2, 2, 2>> >>,
            << <<4, 2>>, <<2, 4>>, <<2>> >> }
RECURSIVE EdgeBase(_, _)
EdgeBase(sh, k) == IF k = 1 THEN 0 ELSE EdgeBase(sh, k - 1) + Len(sh[k - 1])
Fill(s, k) == [s |-> s, d |-> [i \in 1..ProdSeq(s) |-> (((7 * i) + (3 * k)) % 5) - 2], c |-> 0]
Strip(f) == [i \in DOMAIN f |-> NodeRec(f[i].t, f[i].e, DefNames(Len(f[i].e)), "", 0)]
Init == \E sh \in Shapes :
          /\ nf = [k \in 1..Len(sh) |-> NodeRec(Fill(sh[k], k), [a \in 1..Len(sh[k]) |-> EdgeBase(sh, k) + a], DefNames(Len(sh[k])), "", 0)]
          /\ nn = Len(sh)
          /\ ne = EdgeBase(sh, Len(sh)) + Len(sh[Len(sh)])
          /\ prog = << <<"init", sh>> >>

Step(p, f) == /\ nf' = Strip(f)
              /\ prog' = Append(prog, p)
              /\ IF Len(prog) = MaxLen THEN PrintT("PROG " \o ToJson(prog')) ELSE TRUE
DoConnect(e1, e2) == CanConnect(nf, e1, e2) /\ Step(<<"connect", e1, e2>>, Connect(nf, e1, e2, ne + 1)) /\ ne' = ne + 1 /\ UNCHANGED nn
\* the first of the two new edges stays with the older node
DoDisconnect(e) ==
  /\ CanDisconnect(nf, e) /\ ~IsTrace(nf, e)
  /\ LET m == CHOOSE m \in NodesOf(nf, e) : \A n \in NodesOf(nf, e) : m <= n
         f == CHOOSE f \in Disconnect(nf, e, ne + 1, ne + 2) : (ne + 1) \in SetOf(f[m].e)
     IN Step(<<"disconnect", e>>, f)
  /\ ne' = ne + 2 /\ UNCHANGED nn
Result(m, n, S) == IF m = n THEN ContractTrace(nf, m, S, nn + 1, 0, <<>>, 0, "", 0) ELSE ContractPair(nf, m, n, S, nn + 1, 0, <<>>, 0, "", 0)
EndPair(e) == LET N == NodesOf(nf, e) m == CHOOSE m \in N : \A n \in N : m <= n IN <<m, CHOOSE n \in N : \A k \in N : k <= n>>
DoContract(how, e) ==
  /\ Connected(nf, e)
  /\ LET p == EndPair(e) IN Step(<<how, e>>, Result(p[1], p[2], IF how = "contract" THEN {e} ELSE Shared(nf, p[1], p[2])))
  /\ nn' = nn + 1 /\ UNCHANGED ne
DoBetween(m, n) ==
  /\ m < n
  /\ Step(<<"between", m, n>>, Result(m, n, Shared(nf, m, n)))
  /\ nn' = nn + 1 /\ UNCHANGED ne
DoTraces(m) == /\ Shared(nf, m, m) # {}
               /\ Step(<<"tracedges", m>>, Result(m, m, Shared(nf, m, m)))
               /\ nn' = nn + 1 /\ UNCHANGED ne
DoFlatten(e1, e2) == /\ e1 # e2 /\ CanFlatten(nf, <<e1, e2>>)
                     /\ Step(<<"flatten", e1, e2>>, CHOOSE f \in Flatten(nf, <<e1, e2>>, ne + 1) : TRUE)
                     /\ ne' = ne + 1 /\ UNCHANGED nn
DoSplit(e) == /\ CanSplit(nf, e, <<2, 2>>) /\ Step(<<"split", e, 2, 2>>, SplitEdge(nf, e, <<2, 2>>, <<ne + 1, ne + 2>>))
              /\ ne' = ne + 2 /\ UNCHANGED nn
DoSlice(e) == /\ CanSlice(nf, e, 1, 1) /\ Step(<<"slice", e, 1, 1>>, SliceEdge(nf, e, 1, 1)) /\ UNCHANGED <<nn, ne>>
DoAxes(m) == /\ Len(nf[m].e) > 1
             /\ Step(<<"axes", m>>, ReorderAxes(nf, m, [a \in 1..Len(nf[m].e) |-> Len(nf[m].e) - a])) /\ UNCHANGED <<nn, ne>>
First == Len(prog) = 1
Live2 == {e \in Edges(nf) : TRUE}
Next == /\ Len(prog) <= MaxLen
        /\ \/ \E e1, e2 \in Live2 : e1 < e2 /\ DoConnect(e1, e2)
           \/ ~First /\ \E e \in Live2 : DoDisconnect(e)
           \/ \E how \in {"contract", "parallel"}, e \in Live2 : DoContract(how, e)
           \/ ~First /\ \E m, n \in DOMAIN nf : DoBetween(m, n)
           \/ \E m \in DOMAIN nf : DoTraces(m)
           \/ \E e1, e2 \in Live2 : DoFlatten(e1, e2)
           \/ \E e \in Live2 : DoSplit(e)
           \/ ~First /\ \E e \in Live2 : DoSlice(e)
           \/ ~First /\ \E m \in DOMAIN nf : DoAxes(m)
Spec == Init /\ [][Next]_vars
WellConnected == WF(nf)
\* N01 for the state machine itself: contraction steps and axis orders keep the value
Keeps == {"contract", "parallel", "between", "tracedges", "axes"}
ValueKept == [][prog'[Len(prog')][1] \in Keeps =>
                  LET D == SetToSeq(DanglingSet(nf))
                  IN DanglingSet(nf') = DanglingSet(nf) /\ NetValue(nf', D) = NetValue(nf, D)]_vars
\* no edge id refers to two different things: contracted edges are gone
Gone == [][\A e \in Edges(nf') : e \in Edges(nf) \/ e > ne]_vars
=============================================================================
