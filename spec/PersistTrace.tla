---------------------------- MODULE PersistTrace ----------------------------
(* Histories of one network that is edited, saved, drawn and read back; the   *)
(* state is the network as last observed and the content of every file.       *)
EXTENDS Persist, TraceLib
VARIABLES tr, l, net, file
If(b, s) == IF b THEN s ELSE {}
\* a save must be refused when it would cut edges, lists a node twice or the
\* file cannot be written; then the network is as before
SaveOK(ev) == ev.a.bad = 0 /\ NoDup(ev.a.idx) /\ Closed(net, ev.a.idx)
P(ev) == IF ev.op \in {"save", "load"} THEN "X02" ELSE IF ev.op = "json" THEN "X03" ELSE "X04"
Judge(ev) ==
  IF ev.op \in {"init", "edit"} THEN {}
  ELSE If(ev.net # net, {P(ev) \o ":network_changed"})
  \cup (IF ev.op = "save" THEN If((ev.ok = 1) # SaveOK(ev), {IF ev.ok = 1 THEN "X02:accepted_invalid" ELSE "X02:spurious_error"})
   ELSE IF ev.op = "load" THEN
     (IF ev.ok = 0 THEN {"X02:spurious_error"}
      ELSE If(ev.r.well # 1, {"X02:incidence"})
           \cup If(~Same(ev.r.net, file[ev.a.slot]), {"X02:loaded"})
           \cup If(ev.r.shared # 0, {"X02:shared"}))
   ELSE IF ev.op = "json" THEN
     LET sub == SubNet(net, ev.a.idx) IN
     \* (a malformed binding of a network without any edge may pass unnoticed)
     IF ev.a.bad = 1 /\ Labels(sub) = {} THEN {}
     ELSE IF ev.a.bad = 1 \/ \E k \in DOMAIN sub : sub[k].k # "Node" THEN If(ev.ok = 1, {"X03:accepted_invalid"})
     ELSE IF ev.ok = 0 THEN {"X03:spurious_error"}
     ELSE If(ev.r.well # 1, {"X03:incidence"})
          \cup If(~Same(ev.r.net, sub), {"X03:loaded"})
          \cup If(ev.r.shared # 0, {"X03:shared"})
          \cup If({<<ev.r.bind[k][1], ev.r.bind[k][2]>> : k \in DOMAIN ev.r.bind} # Bound(sub, ev.a.bind), {"X03:bindings"})
   ELSE \* draw
     LET sub == SubNet(net, ev.a.idx) IN
     IF ev.ok = 0 THEN {"X04:spurious_error"}
     ELSE If(~SameBag(ev.r.nodes, [k \in DOMAIN sub |-> <<k, Hidden(sub[k].dn, ev.a.all)>>]), {"X04:nodes"})
          \cup If(~SameBag(ev.r.lines, Drawing([k \in DOMAIN sub |-> [e |-> sub[k].e, en |-> sub[k].den]], ev.a.all)), {"X04:edges"})
          \cup If(ev.r.stubs # 1 \/ ev.r.extra # 0, {"X04:stubs"}))
Init == tr \in 1..Len(Traces) /\ l = 0 /\ net = <<>> /\ file = [k \in 1..3 |-> <<>>]
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
        /\ net' = ev.net
        /\ file' = IF ev.op = "save" /\ ev.ok = 1 THEN [file EXCEPT ![ev.a.slot] = SubNet(net, ev.a.idx)] ELSE file
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
