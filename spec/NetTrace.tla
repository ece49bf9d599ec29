------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded executions with the network state machine.      *)
(* Every step is judged against Network.tla from the recorded pre-state;   *)
(* the verdict is the set of violated clauses "<property>:<clause>".       *)
(***************************************************************************)
EXTENDS Network, TraceLib

VARIABLES tr, l, st

B(x) == IF x THEN 1 ELSE 0
If(c, S) == IF c THEN S ELSE {}
Rec(lg) == NodeRec(IF lg.cp = 1 THEN (IF Len(lg.t.s) = 0 THEN T(<<>>, <<1>>) ELSE Delta(Len(lg.t.s), lg.t.s[1]))
                   ELSE [s |-> lg.t.s, d |-> lg.t.d, c |-> lg.t.c],
                   lg.e, lg.an, lg.nm, lg.cp)
ToNF(post) ==
  TLCEval([i \in {post.nodes[k].id : k \in DOMAIN post.nodes} |->
     Rec(post.nodes[CHOOSE k \in DOMAIN post.nodes : post.nodes[k].id = i])])
EdgeNames(post) ==
  [x \in {post.edges[k].id : k \in DOMAIN post.edges} |->
     post.edges[CHOOSE k \in DOMAIN post.edges : post.edges[k].id = x].nm]

\* the projected objects are internally consistent
Consistent(lf, post) ==
  UNION {
    If(\E k \in DOMAIN post.nodes : Len(post.nodes[k].e) # Len(post.nodes[k].t.s), {"N02:edge_count"}),
    If(\E k \in DOMAIN post.nodes : Len(post.nodes[k].an) # Len(post.nodes[k].t.s), {"N04:names_len", "N02:names_len"}),
    If(\E k \in DOMAIN post.nodes : ~Distinct(post.nodes[k].an), {"N04:names_distinct"}),
    If(\E k \in DOMAIN post.nodes : post.nodes[k].cp = 1 /\ Len(post.nodes[k].t.s) > 0 /\
         \E a \in DOMAIN post.nodes[k].t.s : post.nodes[k].t.s[a] # post.nodes[k].t.s[1], {"N08:copy_shape"}),
    UNION {LET g == post.edges[k]
               es == Ends(lf, g.id)
           IN If(g.bad = 1, {"N02:stale_edge"}) \cup
              If(g.bad = 0 /\ (Len(g.ends) # Cardinality(es) \/
                   {<<g.ends[j][1], g.ends[j][2]>> : j \in DOMAIN g.ends} # es), {"N02:incidence"}) \cup
              If(g.bad = 0 /\ g.dang # B(Cardinality(es) = 1), {"N02:is_dangling", "N06:is_dangling"}) \cup
              If(g.bad = 0 /\ g.tr # B(IsTrace(lf, g.id)), {"N02:is_trace", "N06:is_trace"}) \cup
              If(g.bad = 0 /\ g.used # 1, {"N02:is_being_used"}) \cup
              If(g.bad = 0 /\ \E x \in es : g.dim # lf[x[1]].t.s[x[2] + 1], {"N02:dimension"})
           : k \in DOMAIN post.edges} }
Usable(lf) ==
  /\ \A i \in DOMAIN lf : Len(lf[i].e) = Len(lf[i].t.s) /\ WellFormed(lf[i].t) /\ Len(lf[i].an) = Len(lf[i].e)
  /\ \A e \in Edges(lf) : Cardinality(Ends(lf, e)) \in {1, 2} /\
       \A x, y \in Ends(lf, e) : lf[x[1]].t.s[x[2] + 1] = lf[y[1]].t.s[y[2] + 1]

------------------------------------------------------------------------------
\* one promised node against the logged one; P the property of the operation
CmpNode(P, p, q) ==
  LET same == p.e = q.e
      maps == IF same THEN {} ELSE AxisMaps(p.e, q.e)
      labelsok == same \/ maps # {}
      valok == IF same /\ p.free = 0 THEN Eq(p.t, q.t)
               ELSE IF same /\ Eq(p.t, q.t) THEN TRUE
               ELSE SameUpToOrder(p.e, p.t, q.e, q.t)
  IN UNION {
       If(~labelsok, {P \o ":edges", "N02:edges"}),
       If(labelsok /\ p.free = 0 /\ ~same, {"N04:order", P \o ":order"}),
       If(labelsok /\ ~valok, {P \o ":value"} \cup If(p.t.s # q.t.s /\ same, {P \o ":shape"})),
       If(p.anx = 1 /\ p.an # q.an, {"N04:axis_names"} \cup If(P = "N05", {"N05:axis_names"})),
       If(p.nmx = 1 /\ p.nm # q.nm, {"N04:node_name"} \cup If(P = "N05", {"N05:node_name"})),
       If(p.cp # q.cp, {P \o ":kind"}) }

Cmp(P, pf, lf) ==
  IF DOMAIN pf # DOMAIN lf THEN {P \o ":nodes", "N02:nodes"}
  ELSE UNION {CmpNode(P, pf[i], lf[i]) : i \in DOMAIN pf}

\* least bad alternative
CmpAny(P, alts, lf) ==
  LET res == {Cmp(P, pf, lf) : pf \in alts}
  IN IF {} \in res THEN {} ELSE IF res = {} THEN {P \o ":no_successor"}
     ELSE CHOOSE r \in res : \A q \in res : Cardinality(r) <= Cardinality(q)

\* names of the edges that survive unchanged, and given names of new ones
EdgeNameFails(P, pre, lf, en0, en1, given) ==
  LET kept == ((DOMAIN en0) \cap (DOMAIN en1))
  IN If(\E x \in kept : en0[x] # en1[x], {"N04:edge_name"} \cup If(P = "N05", {"N05:edge_name"})) \cup
     If(\E g \in given : g[1] \in DOMAIN en1 /\ en1[g[1]] # g[2], {"N04:edge_name"})

Fresh(pre, q) == Distinct(q) /\ SetOf(q) \cap Edges(pre) = {}
FreshN(pre, i) == i \notin DOMAIN pre

\* expectation: must = 1 must succeed, 0 must raise, 2 either
E1(P, alts, given) == [must |-> 1, P |-> P, alts |-> alts, given |-> given, extra |-> {}]
EX(P, alts, given, extra) == [must |-> 1, P |-> P, alts |-> alts, given |-> given, extra |-> extra]
E0(P) == [must |-> 0, P |-> P, alts |-> {}, given |-> {}, extra |-> {}]
E2(P) == [must |-> 2, P |-> P, alts |-> {}, given |-> {}, extra |-> {}]
\* success required but the call raised: only the property matters
ER(P) == E1(P, {}, {})
Same(P, pre, extra) == EX(P, {Plain(pre)}, {}, extra)

DerivedEmap(pre, lf, nmap) ==
  LET prs == UNION {{<<pre[nmap[k][1]].e[a], lf[nmap[k][2]].e[a]>> : a \in DOMAIN pre[nmap[k][1]].e} : k \in DOMAIN nmap}
  IN SetToSeq(prs)
MapsUsable(pre, lf, nmap) ==
  \A k \in DOMAIN nmap : /\ nmap[k][1] \in DOMAIN pre /\ nmap[k][2] \in DOMAIN lf
                         /\ Len(pre[nmap[k][1]].e) = Len(lf[nmap[k][2]].e)
CopyExp(pre, lf, S, nmap, emap, conj) ==
  IF ~MapsUsable(pre, lf, nmap) THEN EX("N05", {}, {}, {"N05:maps"})
  ELSE IF ~CopyMapsOK(pre, S, nmap, emap) THEN EX("N05", {}, {}, {"N05:maps"})
  ELSE EX("N05", {CopyNet(pre, nmap, emap, conj)}, {}, {})

ContractExp(pre, m, n, S, r, a, free) ==
  IF m = n THEN ContractTrace(pre, m, S, r, free, a.an, a.anx, a.nm, a.nmx)
  ELSE ContractPair(pre, m, n, S, r, free, a.an, a.anx, a.nm, a.nmx)
NoNames == [an |-> <<>>, anx |-> 0, nm |-> "", nmx |-> 0]

BetweenOut(pre, m, n) ==
  LET S == Shared(pre, m, n)
  IN Without(pre[m].e, S) \o (IF m = n THEN <<>> ELSE Without(pre[n].e, S))

QueryFails(pre, a, r) ==
  LET S == SetOf(a.S)
      ES == UNION {SetOf(pre[i].e) : i \in S}
      comp == Closure(pre, S)
      c1 == Closure(pre, {a.S[1]})
      eq(q, X, nm) == If(SetOf(q) # X \/ ~Distinct(q), {"N06:" \o nm})
      nd(i) == {e \in SetOf(pre[i].e) : ~Dangling(pre, e)}
      dg(i) == {e \in SetOf(pre[i].e) : Dangling(pre, e)}
  IN UNION {
       eq(r.reach_set, comp, "reachable_set"),
       eq(r.reach_list, comp, "reachable_list"),
       eq(r.reach_one, c1, "reachable_node"),
       If(a.e # 0, eq(r.reach_edge, Closure(pre, NodesOf(pre, a.e)), "reachable_edge")),
       eq(r.alledges, ES, "get_all_edges"),
       If(a.e # 0, eq(r.allnodes, NodesOf(pre, a.e), "get_all_nodes")),
       eq(r.alln2, UNION {NodesOf(pre, e) : e \in ES}, "get_all_nodes"),
       eq(r.nondang, UNION {nd(i) : i \in S}, "get_all_nondangling"),
       eq(r.dang, UNION {dg(i) : i \in S}, "get_all_dangling"),
       If(Len(a.S) > 0 /\ r.dang # FoldLeft(LAMBDA x, y : x \o y, <<>>,
            [k \in DOMAIN a.S |-> SelectSeq(pre[a.S[k]].e, LAMBDA e : Dangling(pre, e))]), {"N06:get_all_dangling_order"}),
       eq(r.sub, SubgraphDangling(pre, S), "get_subgraph_dangling"),
       eq(r.neigh, Neighbours(pre, a.i), "get_neighbors"),
       eq(r.shared, Shared(pre, a.i, a.j), "get_shared_edges"),
       If(r.parx = 1, LET ns == NodesOf(pre, a.e)
                      IN eq(r.parallel, IF Cardinality(ns) = 1 THEN Shared(pre, CHOOSE x \in ns : TRUE, CHOOSE x \in ns : TRUE)
                                        ELSE {e \in Edges(pre) : NodesOf(pre, e) = ns}, "get_parallel_edges")),
       If(r.has_nd # B(nd(a.i) # {}), {"N06:has_nondangling_edge"}),
       If(r.has_d # B(dg(a.i) # {}), {"N06:has_dangling_edge"}),
       eq(r.n_nd, nd(a.i), "node_get_all_nondangling"),
       eq(r.n_d, dg(a.i), "node_get_all_dangling"),
       If(r.conn # B(S \subseteq c1), {"N06:check_connected"}),
       If(r.corr # 1, {"N06:check_correct"}),
       If(r.corrc # B(S \subseteq c1), {"N06:check_correct_connected"}) }

LookupFails(nd, r) ==
  LET n == Len(nd.e)
  IN UNION {
       If(Distinct(nd.an) /\ r.axn # Range0(n), {"N04:axis_by_name"}),
       If(r.axi # Range0(n), {"N04:axis_by_number"}),
       If(Distinct(nd.an) /\ r.edn # nd.e, {"N04:edge_by_name"}),
       If(Distinct(nd.an) /\ r.getn # nd.e, {"N04:edge_by_name"}),
       If(r.edi # nd.e, {"N04:edge_by_number"}),
       If(Distinct(nd.an) /\ r.dimn # nd.t.s, {"N04:dimension_by_name"}),
       If(r.dimi # nd.t.s, {"N04:dimension_by_number"}),
       If(r.sl # nd.e \/ r.all # nd.e, {"N04:edges"}),
       If(r.rank # n, {"N04:rank"}),
       If(r.bad # 0, {"N04:bad_lookup_accepted"}) }

TT(x) == [s |-> x.s, d |-> x.d, c |-> x.c]
RetT(P, x, t) == If(x.x # 1 \/ ~Eq(TT(x), t), {P \o ":value"})

\* flatten_all_edges: the new edge of a group is the one that now joins its nodes
RECURSIVE FlatAll(_, _, _, _)
FlatAll(pfs, pre, groups, lf) ==
  IF groups = <<>> THEN pfs
  ELSE LET g == Head(groups)
           S == SetOf(g)
           ns == NodesOf(pre, g[1])
           cand == {e \in Edges(lf) : Cardinality(Ends(lf, e)) = 2 /\ NodesOf(lf, e) = ns}
       IN IF Cardinality(S) = 1 THEN FlatAll(pfs, pre, Tail(groups), lf)
          ELSE IF Cardinality(cand) # 1 \/ cand \subseteq Edges(pre) THEN {}
          ELSE FlatAll(UNION {ParFlatP(pf, S, CHOOSE e \in cand : TRUE) : pf \in pfs}, pre, Tail(groups), lf)

\* the expectation for event ev from pre (lf, the logged post-state, only
\* supplies the identities of fresh objects)
Exp(pre, ev, lf) ==
  LET a == ev.a
      r == ev.ret
      op == ev.op
      ok == ev.ok = 1
  IN
  CASE op = "new" ->
        IF ~ok THEN ER("N02")
        ELSE EX("N02", {LET p == NewNode(pre, r.n, TT(a.t), r.e, a.an, a.nm, 0)
                        IN [p EXCEPT ![r.n].nmx = a.nmx]}, {},
                If(~FreshN(pre, r.n) \/ ~Fresh(pre, r.e), {"N02:fresh"}))
    [] op = "newcopy" ->
        IF ~ok THEN ER("N02")
        ELSE EX("N02", {LET p == NewNode(pre, r.n, Delta(a.rank, a.dim), r.e, a.an, a.nm, 1)
                        IN [p EXCEPT ![r.n].nmx = a.nmx]}, {},
                If(~FreshN(pre, r.n) \/ ~Fresh(pre, r.e), {"N02:fresh"}))
    [] op = "connect" ->
        IF ~CanConnect(pre, a.x, a.y) THEN E0("N02")
        ELSE IF ~ok THEN ER("N02")
        ELSE EX("N02", {Connect(pre, a.x, a.y, r.e[1])}, If(a.enx = 1, {<<r.e[1], a.en>>}), If(~Fresh(pre, r.e), {"N02:fresh"}))
    [] op = "disconnect" ->
        IF ~CanDisconnect(pre, a.e) THEN E0("N02")
        ELSE IF ~ok THEN ER("N02")
        ELSE EX("N02", Disconnect(pre, a.e, r.e[1], r.e[2]),
                If(a.enx = 1, {<<r.e[1], a.en[1]>>, <<r.e[2], a.en[2]>>}),
                If(~Fresh(pre, r.e), {"N02:fresh"}))
    [] op = "contract" ->
        IF ~(Live(pre, a.e) /\ Connected(pre, a.e)) THEN E0("N01")
        ELSE IF ~ok THEN ER("N01")
        ELSE LET ns == NodesOf(pre, a.e)
                 m == CHOOSE x \in ns : TRUE
                 n == IF Cardinality(ns) = 1 THEN m ELSE CHOOSE x \in ns : x # m
             IN EX("N01", {ContractExp(pre, m, n, {a.e}, r.n, a, 1)}, {}, If(~FreshN(pre, r.n), {"N02:fresh"}))
    [] op = "between" ->
        LET S == Shared(pre, a.m, a.n)
            out == BetweenOut(pre, a.m, a.n)
            can == IF a.m = a.n THEN S # {} ELSE S # {} \/ a.outer = 1
            ordok == a.orderx = 0 \/ (Len(a.order) = Len(out) /\ Distinct(a.order) /\ SetOf(a.order) = SetOf(out))
        IN IF ~can \/ ~ordok THEN E0("N01")
           ELSE IF ~ok THEN ER("N01")
           ELSE LET base == ContractExp(pre, a.m, a.n, S, r.n, a, IF a.m = a.n THEN 1 ELSE 0)
                    pf == IF a.orderx = 1
                          THEN [base EXCEPT ![r.n] = [OrderBy([base[r.n] EXCEPT !.an = DefNames(Len(out))], a.order) EXCEPT !.an = a.an]]
                          ELSE base
                IN EX("N01", {pf}, {}, If(~FreshN(pre, r.n), {"N02:fresh"}))
    [] op = "parallel" ->
        IF ~(Live(pre, a.e) /\ Connected(pre, a.e)) THEN E0("N01")
        ELSE IF ~ok THEN ER("N01")
        ELSE LET ns == NodesOf(pre, a.e)
                 m == CHOOSE x \in ns : TRUE
                 n == IF Cardinality(ns) = 1 THEN m ELSE CHOOSE x \in ns : x # m
             IN EX("N01", {ContractExp(pre, m, n, Shared(pre, m, n), r.n, NoNames, 1)}, {}, If(~FreshN(pre, r.n), {"N02:fresh"}))
    [] op = "tracedges" ->
        LET S == Shared(pre, a.m, a.m)
        IN IF ~ok THEN ER("N01")
           ELSE IF S = {} THEN Same("N01", pre, If(r.n # a.m, {"N01:nodes"}))
           ELSE EX("N01", {ContractTrace(pre, a.m, S, r.n, 1, <<>>, 0, "", 0)}, {}, If(~FreshN(pre, r.n), {"N02:fresh"}))
    [] op = "outer" ->
        IF ~ok THEN ER("N01")
        ELSE EX("N01", {OuterProduct(pre, a.m, a.n, r.n, a.an, a.anx, a.nm, a.nmx)}, {}, If(~FreshN(pre, r.n), {"N02:fresh"}))
    [] op = "outerfinal" ->
        IF \/ \E k \in DOMAIN a.ids : \E e \in SetOf(pre[a.ids[k]].e) : ~Dangling(pre, e)
           \/ ~Distinct(a.order)
           \/ SetOf(a.order) # UNION {SetOf(pre[a.ids[k]].e) : k \in DOMAIN a.ids}
        THEN E0("N01")
        ELSE IF ~ok THEN ER("N01")
        ELSE LET sub == [i \in SetOf(a.ids) |-> pre[i]]
             IN EX("N01", {Put(Plain(Drop(pre, SetOf(a.ids))), r.n,
                        Promise(NodeRec(NetValue(sub, a.order), a.order, <<>>, "",
                                        IF Len(a.ids) = 1 THEN pre[a.ids[1]].cp ELSE 0), 0, 0, 0))}, {}, {})
    [] op = "flatten" ->
        IF ~CanFlatten(pre, a.es) THEN E0("N01")
        ELSE IF ~ok THEN ER("N01")
        ELSE EX("N01", Flatten(pre, a.es, r.e[1]), If(a.enx = 1, {<<r.e[1], a.en>>}),
                IF Len(a.es) = 1 THEN If(r.e # a.es, {"N02:edges"}) ELSE If(~Fresh(pre, r.e), {"N02:fresh"}))
    [] op = "flatbetween" ->
        LET S == Shared(pre, a.m, a.n)
        IN IF ~ok THEN ER("N01")
           ELSE IF S = {} THEN Same("N01", pre, If(r.e # <<>>, {"N01:edges"}))
           ELSE IF Len(r.e) # 1 THEN EX("N01", {}, {}, {"N01:edges"})
           ELSE IF Cardinality(S) = 1 THEN Same("N01", pre, If(SetOf(r.e) # S, {"N01:edges"}))
           ELSE EX("N01", ParFlat(pre, S, r.e[1]), {}, If(~Fresh(pre, r.e), {"N02:fresh"}))
    [] op = "flatall" ->
        IF ~ok THEN ER("N01")
        ELSE LET alts == FlatAll({Plain(pre)}, pre, a.groups, lf)
                 want == {e \in Edges(lf) : Cardinality(Ends(lf, e)) = 2 /\
                            \E k \in DOMAIN a.groups : NodesOf(lf, e) = NodesOf(pre, a.groups[k][1])}
             IN EX("N01", alts, {}, If(SetOf(r.e) # want \/ ~Distinct(r.e), {"N01:returned_edges"}))
    [] op = "split" ->
        IF ~CanSplit(pre, a.e, a.shape) THEN E0("N01")
        ELSE IF ~ok THEN ER("N01")
        ELSE IF Len(r.e) # Len(a.shape) THEN EX("N01", {}, {}, {"N01:edges"})
        ELSE EX("N01", {SplitEdge(pre, a.e, a.shape, r.e)},
                If(a.enx = 1, {<<r.e[k], a.en[k]>> : k \in DOMAIN r.e}),
                IF Len(a.shape) = 1 THEN If(r.e # <<a.e>>, {"N02:edges"}) ELSE If(~Fresh(pre, r.e), {"N02:fresh"}))
    [] op = "slice" ->
        IF ~CanSlice(pre, a.e, a.start, a.len) THEN E0("N07")
        ELSE IF ~ok THEN ER("N07")
        ELSE EX("N07", {SliceEdge(pre, a.e, a.start, a.len)}, {}, If(r.e # <<a.e>>, {"N07:edges"}))
    [] op = "reorderedges" ->
        IF ~CanReorderEdges(pre, a.m, a.order) THEN E0("N04")
        ELSE IF ~ok THEN ER("N04")
        ELSE EX("N04", {ReorderEdges(pre, a.m, a.order)}, {}, {})
    [] op = "reorderaxes" ->
        IF ~IsPerm(a.perm, Len(pre[a.m].e)) THEN E0("N04")
        ELSE IF ~ok THEN ER("N04")
        ELSE EX("N04", {ReorderAxes(pre, a.m, a.perm)}, {}, {})
    [] op = "axisnames" ->
        IF Len(a.an) # Len(pre[a.m].e) \/ ~Distinct(a.an) THEN E0("N04")
        ELSE IF ~ok THEN ER("N04")
        ELSE EX("N04", {[Plain(pre) EXCEPT ![a.m].an = a.an]}, {}, {})
    [] op = "copy" ->
        IF ~ok THEN ER("N05")
        ELSE IF ~MapsUsable(pre, lf, r.nm) THEN EX("N05", {}, {}, {"N05:maps"})
        ELSE LET x == CopyExp(pre, lf, SetOf(a.S), r.nm, r.em, a.conj)
             IN [x EXCEPT !.extra = @ \cup
                   If(SetOf(DerivedEmap(pre, lf, r.nm)) # SetOf(r.em), {"N05:edge_map"})]
    [] op = "replicate" ->
        IF ~ok THEN ER("N05")
        ELSE IF Len(r.n) # Len(a.S) THEN EX("N05", {}, {}, {"N05:maps"})
        ELSE LET nm == [k \in DOMAIN a.S |-> <<a.S[k], r.n[k]>>]
             IN IF ~MapsUsable(pre, lf, nm) THEN EX("N05", {}, {}, {"N05:maps"})
                ELSE CopyExp(pre, lf, SetOf(a.S), nm, DerivedEmap(pre, lf, nm), a.conj)
    [] op = "density" ->
        LET cut == SetOf(a.T)
            S == Closure(pre, UNION {NodesOf(pre, e) : e \in cut})
        IN IF \E e \in cut : ~Dangling(pre, e) THEN E0("N05")
           ELSE IF ~ok THEN ER("N05")
           ELSE IF ~MapsUsable(pre, lf, r.nm) \/ ~CopyMapsOK(pre, S, r.nm, r.em) THEN EX("N05", {}, {}, {"N05:maps"})
           ELSE EX("N05", {Densify(pre, cut, r.nm, r.em)}, {},
                   If(SetOf(DerivedEmap(pre, lf, r.nm)) # SetOf(r.em), {"N05:edge_map"}))
    [] op = "nodecopy" ->
        IF ~ok THEN ER("N05")
        ELSE LET nm == << <<a.m, r.n>> >>
             IN IF ~MapsUsable(pre, lf, nm) THEN EX("N05", {}, {}, {"N05:maps"})
                ELSE CopyExp(pre, lf, {a.m}, nm, DerivedEmap(pre, lf, nm), a.conj)
    [] op = "remove" ->
        IF ~ok THEN ER("N05")
        ELSE LET cut == CutAxes(pre, a.m)
             IN IF MapDom(r.byaxis) # cut \/ Len(r.byaxis) # Cardinality(cut) \/ MapDom(r.own) # cut
                   \/ Cardinality(MapRan(r.byaxis)) # Cardinality(cut)
                THEN EX("N05", {}, {}, {"N05:removed_axes"})
                ELSE EX("N05", {RemoveNode(pre, a.m, r.byaxis, r.own)}, {},
                        If(SetOf(r.byname) # {<<pre[a.m].an[b[1] + 1], b[2]>> : b \in SetOf(r.byaxis)},
                           {"N05:removed_names"}) \cup
                        If((MapRan(r.byaxis) \cup MapRan(r.own)) \cap Edges(pre) # {}, {"N05:fresh"}))
    [] op = "contractcopy" ->
        IF ~CanContractCopy(pre, a.m) THEN E0("N08")
        ELSE IF ~ok THEN ER("N08")
        ELSE EX("N08", {ContractCopy(pre, a.m, r.n, a.nm, a.nmx)}, {}, If(~FreshN(pre, r.n), {"N02:fresh"}))
    [] op = "contractor" ->
        LET S == SetOf(a.S)
            outs == OuterEdges(pre, S)
            ordok == IF a.ign = 1 THEN TRUE
                     ELSE IF a.orderx = 1 THEN Distinct(a.order) /\ SetOf(a.order) = outs
                     ELSE Cardinality(outs) <= 1
            order == IF a.orderx = 1 THEN a.order ELSE SetToSeq(outs)
        IN IF ~ordok THEN E0("C02")
           ELSE IF ~ok THEN ER("C02")
           ELSE EX("C02", {ContractSet(pre, S, order, r.n, a.ign, IF Cardinality(S) = 1 /\ Shared(pre, a.S[1], a.S[1]) = {} THEN pre[a.S[1]].cp ELSE 0)}, {}, {})
    [] op = "bucket" ->
        IF ~CanBucket(pre, a.order, 1, 900000) THEN E2("C02")
        ELSE IF ~ok THEN ER("C02")
        ELSE LET full == Bucket(pre, a.order, 1, 900000)
                 temps == {i \in DOMAIN full : i > 900000}
                 fr == (DOMAIN lf) \ (DOMAIN pre)
                 ms == {f \in [temps -> fr] : \A i, j \in temps : (i # j => f[i] # f[j])}
                 fit == {f \in ms : \A i \in temps : SetOf(full[i].e) = SetOf(lf[f[i]].e)}
                 ren(f) == [i \in ((DOMAIN full) \ temps) \cup {f[j] : j \in temps} |->
                              IF i \in DOMAIN pre THEN Plain(full)[i]
                              ELSE LET j == CHOOSE j \in temps : f[j] = i
                                   IN Promise(full[j], 1, 0, 0)]
                 want(f) == (SetOf(a.S) \cap DOMAIN full) \cup {f[j] : j \in temps}
             IN EX("C02", {ren(f) : f \in fit}, {},
                   If(fit # {} /\ \A f \in fit : SetOf(r.n) # want(f), {"C02:returned_nodes", "N08:returned_nodes"}))
    [] op = "copytensor" ->
        IF ~ok THEN ER("N08") ELSE Same("N08", pre, RetT("N08", r.t, pre[a.m].t))
    [] op = "lookup" ->
        IF ~ok THEN ER("N04") ELSE Same("N04", pre, LookupFails(pre[a.m], r))
    [] op = "edgeorder" ->
        IF ~CanReorderEdges(pre, a.m, a.order) THEN E0("N04")
        ELSE IF ~ok THEN ER("N04")
        ELSE Same("N04", pre, RetT("N04", r.t, OrderBy(Plain(pre)[a.m], a.order).t))
    [] op = "query" ->
        IF ~ok THEN ER("N06") ELSE Same("N06", pre, QueryFails(pre, a, r))
    [] op = "arith" ->
        IF ~ok THEN ER("B02")
        ELSE LET x == pre[a.m].t
                 y == IF a.n = 0 THEN Const(x.s, a.c) ELSE pre[a.n].t
                 t == CASE a.f = "add" -> Add(x, y) [] a.f = "sub" -> Sub(x, y) [] a.f = "mul" -> Mul(x, y)
             IN EX("B02", {LET p == NewNode(pre, r.n, t, r.e, DefNames(Len(t.s)), "", 0)
                           IN [p EXCEPT ![r.n].nmx = 0, ![r.n].anx = 0]}, {},
                   If(~FreshN(pre, r.n) \/ ~Fresh(pre, r.e), {"B02:fresh"}))
    [] op = "switch" ->       \* switch_backend: only from numpy; moves every tensor, changes nothing else
        LET kind(b) == IF b = "numpy" THEN "numpy" ELSE "other"
        IN IF \E k \in DOMAIN a.S : a.before[k] # "numpy"
           THEN [E0("N01") EXCEPT !.extra = If(a.after # a.before \/ a.tens # [k \in DOMAIN a.S |-> kind(a.before[k])],
                                               {"N03:backend_after_error"})]
           ELSE IF ~ok THEN ER("N01")
           ELSE Same("N01", pre, If(\E k \in DOMAIN a.S : a.after[k] # a.to \/ a.tens[k] # kind(a.to), {"N01:backend"}))
    [] op = "bad" -> E0("N02")

\* nothing observable changed between two logged states (names included)
Unchanged(pre, en0, lf, en1) == pre = lf /\ en0 = en1

\* a failing call also breaks the property its operation belongs to
Contracting == {"contract", "between", "parallel", "tracedges", "outer", "outerfinal", "contractcopy", "contractor", "bucket"}
Spread(pre, lf, ev, P, fs) ==
  IF fs = {} THEN fs
  ELSE fs \cup {P \o ":effect"}
       \cup If(ev.op \in Contracting, {"C02:effect", "N01:effect"})
       \cup If(\E i \in DOMAIN pre : pre[i].cp = 1 /\ (IF i \in DOMAIN lf THEN lf[i] # pre[i] ELSE TRUE), {"N08:effect"})
Judge(pre, post0, ev) ==
  LET lf == ToNF(ev.post)
      en0 == EdgeNames(post0)
      en1 == EdgeNames(ev.post)
      x == Exp(pre, ev, lf)
      inexact == \E k \in DOMAIN ev.post.nodes : ev.post.nodes[k].t.x # 1
  IN IF x.must = 2 THEN {}
     ELSE IF x.must = 1 /\ ev.ok = 1
     THEN Spread(pre, lf, ev, x.P,
           x.extra \cup Consistent(lf, ev.post)
          \cup If(inexact, {x.P \o ":value"})
          \cup (IF ~Usable(lf) THEN {"N02:unusable"}
                ELSE CmpAny(x.P, x.alts, lf)
                     \cup EdgeNameFails(x.P, pre, lf, en0, en1, x.given))
          \cup If(\E k \in DOMAIN ev.dead : ev.dead[k] # 1, {"N02:consumed_edge"})
          \cup If(\E k \in DOMAIN ev.deadn : ev.deadn[k] # 1, {"N02:consumed_node"}))
     ELSE IF x.must = 1
     THEN {x.P \o ":spurious_error"} \cup If(ev.op = "bucket", {"N08:spurious_error"})
          \cup If(ev.op \in Contracting, {"C02:spurious_error", "N01:spurious_error"}) \cup If(~Unchanged(pre, en0, lf, en1) \/ Consistent(lf, ev.post) # {}, {"N03:changed_after_error"})
     ELSE x.extra \cup If(ev.ok = 1, {"N03:accepted_invalid"} \cup If(x.P = "C02", {"C02:accepted_invalid"}))
          \cup If(ev.ok = 0 /\ (~Unchanged(pre, en0, lf, en1) \/ Consistent(lf, ev.post) # {}), {"N03:changed_after_error"})

Init == /\ tr \in 1..Len(Traces)
        /\ l = 0
        /\ st = ToNF(Traces[tr].init)
Post0(k) == IF k = 0 THEN Traces[tr].init ELSE Traces[tr].steps[k].post
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1
  /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op,
                  IF Usable(st) THEN Judge(st, Post0(l), ev) ELSE {})
        /\ st' = ToNF(ev.post)
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
