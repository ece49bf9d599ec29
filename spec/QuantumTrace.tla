---------------------------- MODULE QuantumTrace ----------------------------
(* Histories over a growing family of quantum objects: every operation yields *)
(* the value of the dense algebra, and leaves every other object as it was.    *)
EXTENDS Quantum, TraceLib
VARIABLES tr, l, vals
If(b, s) == IF b THEN s ELSE {}
Zero == Val(<<>>, <<>>, T(<<>>, <<0>>))
\* <<allowed, value>>
Want(ev) ==
  LET a == ev.a
      x == IF a.x > 0 THEN vals[a.x] ELSE Zero
      y == IF a.y > 0 THEN vals[a.y] ELSE Zero
      S == {a.sub[k] : k \in DOMAIN a.sub}
      t == IF ev.op = "leaf" THEN NetOK(a.labs, a.out, a.inn, a.ign) /\ a.bad = 0
           ELSE IF ev.op = "matmul" THEN MatMulOK(x, y)
           ELSE IF ev.op = "mul" THEN IsScalar(x) \/ IsScalar(y)
           ELSE IF ev.op = "scale" THEN a.num.s = <<>>
           ELSE IF ev.op = "ptrace" THEN PTraceOK(x, S)
           ELSE IF ev.op = "trace" THEN PTraceOK(x, 1..Len(x.i))
           ELSE IF ev.op = "reduced" THEN PTraceOK(Projector(x), S)
           ELSE TRUE
  IN <<t, IF ~t THEN Zero
          ELSE IF ev.op = "leaf" THEN FromNet(a.ts, a.labs, a.out, a.inn, a.ign)
          ELSE IF ev.op = "identity" THEN Identity(a.sub)
          ELSE IF ev.op = "adjoint" THEN Adj(x)
          ELSE IF ev.op = "matmul" THEN MatMul(x, y)
          ELSE IF ev.op \in {"kron", "mul"} THEN Kron(x, y)
          ELSE IF ev.op = "scale" THEN Kron(x, Scalar(a.num))
          ELSE IF ev.op = "ptrace" THEN PTrace(x, S)
          ELSE IF ev.op = "trace" THEN PTrace(x, 1..Len(x.i))
          ELSE IF ev.op = "norm" THEN NormSq(x)
          ELSE IF ev.op = "projector" THEN Projector(x)
          ELSE IF ev.op = "reduced" THEN PTrace(Projector(x), S)
          ELSE x>>
Kind(v) == IF IsScalar(v) THEN "QuScalar" ELSE IF v.o = <<>> THEN "QuAdjointVector" ELSE IF v.i = <<>> THEN "QuVector" ELSE "QuOperator"
Judge(ev) ==
  LET n == Len(vals)
      w == TLCEval(Want(ev))
      kept == Len(ev.vals) >= n /\ \A k \in 1..n : EqVal(ev.vals[k], vals[k])
  IN If(~kept, {"Q01:operand_changed"})
     \cup If(ev.ok = 1 /\ ~w[1], {"Q01:accepted_mismatch"})
     \cup If(ev.ok = 0 /\ w[1], {"Q01:spurious_error"})
     \cup (IF ev.ok = 0 \/ ~w[1] THEN {}
           ELSE IF ev.op = "contract" THEN If(ev.r.single # 1, {"Q01:not_contracted"}) \cup If(ev.r.self # 1, {"Q01:not_self"})
           ELSE IF ev.op = "eval" THEN
             LET no == Len(w[2].o \o w[2].i) IN
             If(ev.r.t.x # 1, {"Q01:eval"})
             \cup If(ev.r.t.x = 1 /\ ~Eq(ev.r.t, IF ev.a.sub = <<>> THEN w[2].t ELSE Transpose(w[2].t, ev.a.sub)), {"Q01:eval"})
           ELSE IF Len(ev.vals) # n + 1 THEN {"Q01:no_result"}
           ELSE LET v == ev.vals[n + 1] IN
             If(v.t.x # 1, {"Q01:value"})
             \cup If(v.t.x = 1 /\ ~EqVal(v, w[2]), {"Q01:value"})
             \cup If(ev.r.kind # Kind(w[2]) /\ (ev.r.kind # "QuOperator" \/ ev.op # "leaf"), {"Q01:class"})
             \cup If(ev.r.flags # <<IF IsScalar(w[2]) THEN 1 ELSE 0, IF w[2].o # <<>> /\ w[2].i = <<>> THEN 1 ELSE 0,
                                    IF w[2].o = <<>> /\ w[2].i # <<>> THEN 1 ELSE 0>>, {"Q01:flags"}))
Init == tr \in 1..Len(Traces) /\ l = 0 /\ vals = <<>>
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
        /\ vals' = ev.vals
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
