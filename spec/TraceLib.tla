------------------------------ MODULE TraceLib ------------------------------
(* Reading recorded traces and reporting verdicts. *)
EXTENDS Json, IOUtils, TLC, Integers, Sequences, SequencesExt, FiniteSets
Traces == ndJsonDeserialize(IOEnv.TRACE)
\* always TRUE; prints one line per failing step
Report(tid, k, op, fails) ==
  IF fails = {} THEN TRUE
  ELSE PrintT("FAIL " \o ToJson([id |-> tid, step |-> k, op |-> op, clauses |-> SetToSeq(fails)]))
Done(b, tid, n) == IF ~b THEN TRUE ELSE PrintT("DONE " \o ToJson([id |-> tid, steps |-> n]))
=============================================================================
