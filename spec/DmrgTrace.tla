----------------------------- MODULE DmrgTrace ------------------------------
(* Histories of one DMRG object (M05).                                        *)
EXTENDS Dmrg, TraceLib
VARIABLES tr, l, st
None == [psi |-> 0, c |-> -1, W |-> <<>>, H |-> 0, w0 |-> 0]
N == Len(st.W)
Tol == 64
One1 == A(<<>>, <<F>>, 0, F, 0)
Re(a) == ReE(a.c, a.d[1])
Same(ev) == NearA(ev.psi, st.psi) /\ ev.c = st.c
Envs(ev, ws) ==
  If(~LeftOK(ev.L, ev.ts, ws, ev.c), {"M05:left_env"}) \cup If(~RightOK(ev.R, ev.ts, ws, ev.c), {"M05:right_env"})
  \cup If(~CanonLeft(ev.ts, ev.c) \/ ~CanonRight(ev.ts, ev.c), {"M05:canonical"})
  \cup If(ev.alias # 0, {"M05:inputs_changed"})
\* the expectation value of the state that is left behind
Expected(ev) == Energy(st.H, ev.psi)
Reported(ev) ==
  If(ev.r.im # 0, {"M05:energy_not_real"})
  \cup If(ev.r.E.d[1] + Tol < st.w0, {"M05:below_ground_state"})
Judge(ev) ==
  LET a == ev.a IN
  IF ev.op = "init" THEN
    IF ev.ok = 0 THEN If(a.valid = 1, {"M05:spurious_error"})
    ELSE IF a.valid = 0 THEN {"M05:accepted_invalid"}
    ELSE IF ~SpectrumOK(a.H, a.V, a.w) THEN {"M05:certificate"}
    ELSE Envs(ev, a.W) \cup If(Keys(ev.L) # {0} \/ Keys(ev.R) # {Len(a.W) - 1}, {"M05:initial_envs"})
  ELSE IF ev.op = "position" THEN
    IF a.site < 0 \/ a.site >= N THEN If(ev.ok = 1, {"M05:accepted_invalid"}) \cup If(~Same(ev), {"M05:state_changed"}) \cup Envs(ev, st.W)
    ELSE IF ev.ok = 0 THEN {"M05:spurious_error"}
    ELSE Envs(ev, st.W) \cup If(ev.c # a.site, {"M05:centre"}) \cup If(ev.r.self # 1, {"M05:result"})
         \cup (IF a.site = st.c THEN If(~Same(ev), {"M05:state_changed"})
               ELSE If(~SameRay(ev.psi, st.psi), {"M05:state_changed"})
                    \cup If((\E k \in Keys(ev.L) : k > a.site) \/ (\E k \in Keys(ev.R) : k < a.site), {"M05:stale_envs"})
                    \cup If(a.site > st.c /\ ~(a.site \in Keys(ev.L)), {"M05:missing_env"})
                    \cup If(a.site < st.c /\ ~(a.site \in Keys(ev.R)), {"M05:missing_env"}))
  ELSE IF ev.ok = 0 THEN {"M05:spurious_error"}
  ELSE IF ev.op = "left" THEN
    Envs(ev, st.W) \cup If(~Same(ev), {"M05:state_changed"}) \cup If(Keys(ev.L) # 0..st.c, {"M05:missing_env"})
  ELSE IF ev.op = "right" THEN
    Envs(ev, st.W) \cup If(~Same(ev), {"M05:state_changed"}) \cup If(Keys(ev.R) # st.c..(N - 1), {"M05:missing_env"})
  ELSE IF ev.op = "energy" \/ a.sweeps = 0 THEN
    Envs(ev, st.W) \cup If(~SameRay(ev.psi, st.psi), {"M05:state_changed"}) \cup If(ev.r.im # 0, {"M05:energy_not_real"})
    \cup If(~NearA(ev.r.E, Expected(ev)), {"M05:energy"})
  ELSE \* sweeps
    LET nn == To(NormSqA(ev.psi))
        before == To(NormSqA(st.psi))
        eb == Energy(st.H, st.psi)
        scaled == To(AEin2(ev.r.E, <<>>, before, <<>>, <<>>))
        trunc == ev.op = "run2" /\ a.max1 = 0
    IN Envs(ev, st.W) \cup Reported(ev)
       \cup (IF trunc THEN If(Re(nn) > F + nn.e + Tol, {"M05:not_normalised"})
             ELSE If(~NearA(nn, One1), {"M05:not_normalised"})
                  \cup If(ev.r.E.e + Expected(ev).e + Tol < AbsI(Re(Expected(ev)) - ev.r.E.d[1]), {"M05:energy"})
                  \cup If(Re(scaled) > Re(eb) + scaled.e + eb.e + Tol, {"M05:energy_increased"}))
       \cup If(a.full = 1 /\ ev.r.E.d[1] > st.w0 + 164, {"M05:not_ground_state"})
       \cup If(ev.op = "run2" /\ \E k \in 1..(Len(ev.ts) - 1) : ev.ts[k].s[3] > a.maxb, {"M05:bond"})
Init == tr \in 1..Len(Traces) /\ l = 0 /\ st = None
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
        /\ st' = IF ev.op = "init" THEN (IF ev.ok = 1 THEN [psi |-> ev.psi, c |-> ev.c, W |-> ev.a.W, H |-> ev.a.H, w0 |-> ev.a.w.d[1]] ELSE None)
                 ELSE [st EXCEPT !.psi = ev.psi, !.c = ev.c]
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
