---------------------------- MODULE ChargeTrace -----------------------------
(* Recorded histories of charge objects: the state is the pool of charge     *)
(* objects built so far; every operation names its operands by pool index,   *)
(* so any dependence on how an object came about shows up.                   *)
EXTENDS Charge, TraceLib
VARIABLES tr, l, pool
If(b, s) == IF b THEN s ELSE {}
V(b) == IF b THEN {} ELSE {"S02:value"}
X(ev) == pool[ev.a.x + 1]
Y(ev) == pool[ev.a.y + 1]
Qs(ev) == [k \in DOMAIN ev.a.xs |-> pool[ev.a.xs[k] + 1].q]
M1(ev) == pool[ev.a.xs[1] + 1].m
Obj(r, m, q) == r.m = m /\ r.q = q
Fused(ev) == QFuseAll(M1(ev), Qs(ev), ev.a.f)
Dims(ev) == [k \in DOMAIN ev.a.xs |-> Len(Qs(ev)[k])]
ToSet2(q) == {q[k] : k \in DOMAIN q}
UniqueRes(q, r) ==
  /\ IsUnique(q, r.u)
  /\ (r.hasix = 1 => IsIndex(q, r.u, r.ix))
  /\ (r.hasinv = 1 => IsInverse(q, r.u, r.inv))
  /\ (r.hascnt = 1 => IsCounts(q, r.u, r.cnt))
InterRes(q, p, r) ==
  /\ QDistinct(r.u) /\ QSet(r.u) = QSet(q) \cap QSet(p)
  /\ (r.hasix = 1 => IsIndex(q, r.u, r.ia) /\ IsIndex(p, r.u, r.ib))
ValidCall(ev) ==
  CASE ev.op = "new" -> \A i \in DOMAIN ev.a.q : CValid(ev.a.m, ev.a.q[i])
    [] ev.op = "matmul" -> Len(X(ev).q) = Len(Y(ev).q)
    [] ev.op = "zn" -> ev.a.n >= 2
    [] OTHER -> TRUE
Value(ev) ==
  CASE ev.op = "new" -> Obj(ev.r, ev.a.m, ev.a.q) /\ ev.r.dim = Len(ev.a.q) /\ ev.r.len = Len(ev.a.q)
    [] ev.op = "zn" -> TRUE
    [] ev.op = "random" -> Len(ev.r.q) = ev.a.n /\ \A i \in DOMAIN ev.r.q : ev.r.q[i][1] \in ev.a.lo..ev.a.hi
    [] ev.op = "labels" -> QDistinct(ev.r.u) /\ IsInverse(X(ev).q, ev.r.u, ev.r.inv) /\ ev.r.nu = Cardinality(QSet(X(ev).q))
    [] ev.op = "add" -> Obj(ev.r, X(ev).m, QFuse(X(ev).m, X(ev).q, Y(ev).q))
    [] ev.op = "dual" -> Obj(ev.r, X(ev).m, QDual(X(ev).m, X(ev).q, ev.a.f))
    [] ev.op = "matmul" -> Obj(ev.r, X(ev).m \o Y(ev).m, QProduct(X(ev).q, Y(ev).q))
    [] ev.op = "getitem" -> Obj(ev.r, X(ev).m, QTake(X(ev).q, ev.a.ix))
    [] ev.op = "copy" -> Obj(ev.r, X(ev).m, X(ev).q)
    [] ev.op = "iter" -> ev.r.q = X(ev).q
    [] ev.op = "identity" -> Obj(ev.r, X(ev).m, [k \in 1..ev.a.n |-> CZero(X(ev).m)])
    [] ev.op = "eq" -> LET p == IF ev.a.y >= 0 THEN Y(ev).q ELSE ev.a.t
                       IN ev.r = [i \in 1..Len(X(ev).q) |-> [j \in 1..Len(p) |-> IF X(ev).q[i] = p[j] THEN 1 ELSE 0]]
    [] ev.op = "charge_equal" -> ev.r = (IF X(ev).q = Y(ev).q THEN 1 ELSE 0)
    [] ev.op = "unique" -> ev.r.m = X(ev).m /\ UniqueRes(X(ev).q, ev.r)
    [] ev.op = "intersect" -> ev.r.m = X(ev).m /\ InterRes(X(ev).q, IF ev.a.y >= 0 THEN Y(ev).q ELSE ev.a.t, ev.r)
    [] ev.op = "reduce" -> LET S == ToSet2(ev.a.t)
                               ps == QPositions(X(ev).q, S)
                           IN Obj(ev.r, X(ev).m, QTake(X(ev).q, ps))
                              /\ (ev.a.loc = 1 => ev.r.loc = [k \in DOMAIN ps |-> ps[k] * ev.a.st])
    [] ev.op = "fuse" -> Obj(ev.r, M1(ev), Fused(ev))
    [] ev.op = "index" -> ev.r.q = Fused(ev) /\ ev.r.dim = Len(Fused(ev)) /\ ev.r.flat = ev.a.f
                           /\ ev.r.flip = QFuseAll(M1(ev), Qs(ev), [k \in DOMAIN ev.a.f |-> 1 - ev.a.f[k]])
    [] ev.op = "index_eq" -> ev.r = (IF Qs(ev) = [k \in DOMAIN ev.a.ys |-> pool[ev.a.ys[k] + 1].q] /\ ev.a.f = ev.a.g THEN 1 ELSE 0)
    [] ev.op = "degen" -> {<<ev.r.u[k], ev.r.cnt[k]>> : k \in DOMAIN ev.r.u} = QBagAll(M1(ev), Qs(ev), ev.a.f) /\ QDistinct(ev.r.u)
    [] ev.op = "unique_fused" -> IsUnique(Fused(ev), ev.r.u)
    [] ev.op = "num_nonzero" -> ev.r = QCount(Fused(ev), CZero(M1(ev)))
    [] ev.op = "reduce_charges" ->
         LET S == ToSet2(ev.a.t)
             ps == QPositions(Fused(ev), S)
         IN Obj(ev.r, M1(ev), QTake(Fused(ev), ps))
            /\ (ev.a.loc = 1 => ev.r.loc = [k \in DOMAIN ps |-> IF ev.a.hasst = 1 THEN StridePos(ps[k], Dims(ev), ev.a.st) ELSE ps[k]])
    [] ev.op = "lookup" ->
         LET S == QSet(Y(ev).q)
         IN ev.r.q = QTake(Fused(ev), QPositions(Fused(ev), S)) /\ IsUnique(Fused(ev), ev.r.u)
            /\ {ev.r.u[ev.r.lab[k] + 1] : k \in DOMAIN ev.r.lab} = S \cap QSet(Fused(ev))
    [] ev.op = "aunique" -> UniqueRes(ev.a.t, ev.r)
    [] ev.op = "aintersect" -> InterRes(ev.a.t, ev.a.t2, ev.r)
    [] ev.op = "fuse_ndarrays" -> ev.r = [k \in DOMAIN ev.r |-> StridePos2(k, ev.a.arrs)] /\ Len(ev.r) = ProdLen(ev.a.arrs)
    [] ev.op = "fuse_strides" -> Len(ev.r) = ProdI(ev.a.dims) /\ ev.r = [k \in 1..Len(ev.r) |-> StridePos(k - 1, ev.a.dims, ev.a.st)]
Judge(ev) ==
  (IF ev.ok = 0 THEN If(ValidCall(ev), {"S02:spurious_error"})
   ELSE IF ~ValidCall(ev) THEN {"S02:missing_error"}
   ELSE V(Value(ev)))
  \cup If(\E k \in DOMAIN ev.look : pool[ev.look[k].i + 1].q # ev.look[k].q \/ pool[ev.look[k].i + 1].m # ev.look[k].m, {"S02:operand_modified"})
Init == tr \in 1..Len(Traces) /\ l = 0 /\ pool = <<>>
Next ==
  /\ l < Len(Traces[tr].steps)
  /\ l' = l + 1 /\ tr' = tr
  /\ LET ev == Traces[tr].steps[l + 1]
     IN /\ Report(Traces[tr].id, l + 1, ev.op, Judge(ev))
        /\ pool' = IF ev.ok = 1 /\ ev.push = 1 THEN Append(pool, [m |-> ev.r.m, q |-> ev.r.q]) ELSE pool
  /\ Done(l' = Len(Traces[tr].steps), Traces[tr].id, l')
=============================================================================
