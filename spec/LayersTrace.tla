---------------------------- MODULE LayersTrace ------------------------------
(* Histories of Keras layers (L01). State: the layer's weights.               *)
EXTENDS Layers, TraceLib
VARIABLES tr, l, ws
If(b, s) == IF b THEN s ELSE {}
Plain(v) == [k \in DOMAIN v |-> T(v[k].s, v[k].d)]
Same(t, e) == t.x = 1 /\ t.s = e.s /\ (IF t.c = 0 THEN t.d = e.d ELSE FALSE)
Judge(ev) ==
  LET a == ev.a
      c == a.c
  IN CASE ev.op = "make" -> If(ev.ok = 0 /\ c.bad = "", {"L01:spurious_error"})
       [] ev.op = "build" ->
            IF ev.ok = 0 THEN If(c.bad = "", {"L01:spurious_error"})
            ELSE IF c.bad = "dim" THEN {}
            ELSE If(c.bad # "", {"L01:accepted_invalid"}) \cup (IF c.bad = "" THEN If(ev.r.ws # WeightShapes(c), {"L01:weights"}) ELSE {})
       [] ev.op = "badcall" -> If(ev.ok = 1, {"L01:accepted_invalid"})
       [] ev.ok = 0 -> {"L01:spurious_error"}
       [] ev.op = "set" -> If(\E k \in DOMAIN a.ws : ~Same(ev.r.ws[k], a.ws[k]), {"L01:weights"})
       [] ev.op = "outshape" -> If(ev.r.s # OutShape(c, a.s), {"L01:output_shape"})
       [] ev.op = "call" -> If(~Same(ev.r.y, Output(c, ws, T(a.x.s, a.x.d))), {"L01:output"})
                            \cup If(ev.r.same # 1, {"L01:input_changed"}) \cup If(ev.r.dt # 1, {"L01:dtype"})
                            \cup If(Len(ev.r.ws) # Len(ws) \/ (Len(ev.r.ws) = Len(ws) /\ \E k \in DOMAIN ws : ~Same(ev.r.ws[k], ws[k])), {"L01:weights_changed"})
       [] ev.op = "clone" -> If(~Same(ev.r.y, Output(c, ws, T(a.x.s, a.x.d))), {"L01:clone_output"})
                             \cup If(ev.r.c # c, {"L01:config"})
Init == tr \in 1..Len(Traces) /\ l = 0 /\ ws = <<>>
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
        /\ ws' = IF ev.op = "set" THEN Plain(ev.a.ws) ELSE ws
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
