----------------------------- MODULE SparseModel -----------------------------
(* All short programs over one small symmetric tensor: every permutation,      *)
(* regrouping of the elementary legs, conjugation, storage normalisation,      *)
(* trace and contraction with the conjugate of the initial tensor.  Checked    *)
(* here: the charge constraint is closed under all of them, shapes fit the     *)
(* legs, and moving data about keeps the norm.  Every program is replayed.     *)
EXTENDS BlockSparse, Json, Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS MaxLen
VARIABLES m, cur, orig, prog
vars == <<m, cur, orig, prog>>
E(q, f) == [q |-> [k \in 1..Len(q) |-> <<q[k]>>], f |-> f]
A == <<0, 1, 1>>
B == <<1, 0>>
Inits == { << <<E(A, 0)>>, <<E(A, 1)>>, <<E(B, 0)>> >>,
           << <<E(A, 0), E(B, 0)>>, <<E(A, 1), E(B, 1)>> >>,
           << <<E(B, 0), E(B, 1)>>, <<E(A, 1)>>, <<E(A, 0)>> >>,
           << <<E(B, 1)>>, <<E(A, 0), E(B, 0)>>, <<E(B, 1)>> >>,
           << <<E(B, 0)>>, <<E(B, 1)>>, <<E(B, 0)>>, <<E(B, 1)>> >> }
Dense(L) == LET s == LegShape(L) IN [s |-> s, d |-> [i \in 1..ProdSeq(s) |-> ((7 * i) % 5) - 2], c |-> 0]
Tsr(L, t) == [leg |-> L, t |-> t]
PickL(L, q) == [k \in 1..Len(q) |-> L[q[k] + 1]]
Others(r, q) == SelectSeq([k \in 1..r |-> k - 1], LAMBDA k : k \notin {q[i] : i \in DOMAIN q})
Init == /\ m \in {<<0>>, <<2>>, <<3>>}
        /\ \E L \in Inits : /\ cur = Tsr(L, Masked(m, L, Dense(L)))
                            /\ orig = cur
                            /\ prog = << <<"init", m, L>> >>
Step(p, c) == /\ cur' = c /\ prog' = Append(prog, p) /\ UNCHANGED <<m, orig>>
              /\ IF Len(prog) = MaxLen THEN PrintT("PROG " \o ToJson(prog')) ELSE TRUE
R == Len(cur.leg)
Prev == prog[Len(prog)][1]
DoTranspose(p) == /\ Prev # "transpose" /\ p # [k \in 1..R |-> k - 1]
                  /\ Step(<<"transpose", p>>, Tsr(PickL(cur.leg, p), Transpose(cur.t, p)))
\* every way of cutting the sequence of elementary legs into axes
RECURSIVE Groupings(_)
Groupings(e) == IF Len(e) = 0 THEN {<<>>}
                ELSE UNION {{<<SubSeq(e, 1, k)>> \o g : g \in Groupings(SubSeq(e, k + 1, Len(e)))} : k \in 1..Len(e)}
DoReshape(g) == /\ Prev # "reshape" /\ g # cur.leg
                /\ Step(<<"reshape", LegShape(g)>>, Tsr(g, Reshape(cur.t, LegShape(g))))
DoConj == Prev # "conj" /\ Step(<<"conj">>, Tsr(FlipLegs(cur.leg), Conj(cur.t)))
DoContiguous == Prev = "transpose" /\ Step(<<"contiguous">>, cur)
DoTrace(i, j) == /\ Mirror(cur.leg[i], cur.leg[j])
                 /\ Step(<<"trace", i - 1, j - 1>>, Tsr(PickL(cur.leg, Others(R, <<i - 1, j - 1>>)), TraceAxes(cur.t, i - 1, j - 1)))
\* contraction with the conjugate of the initial tensor
DoDot(ax, bx) ==
  LET L == FlipLegs(orig.leg)
      lx == Others(R, ax)
      ly == Others(Len(L), bx)
      leg == PickL(cur.leg, lx) \o PickL(L, ly)
  IN /\ \A k \in DOMAIN ax : Mirror(cur.leg[ax[k] + 1], L[bx[k] + 1])
     /\ ProdSeq(LegShape(leg)) <= 81
     /\ Step(<<"dot", ax, bx>>, Tsr(leg, Tensordot(cur.t, orig.t, ax, bx)))
Next ==
  /\ Len(prog) <= MaxLen
  /\ Len(FlatLegs(cur.leg)) <= 6
  /\ \/ /\ R > 1 /\ R <= 4
        /\ \E p \in {p \in [1..R -> 0..(R - 1)] : \A i, j \in 1..R : i # j => p[i] # p[j]} : DoTranspose(p)
     \/ R > 0 /\ \E g \in Groupings(FlatLegs(cur.leg)) : DoReshape(g)
     \/ DoConj
     \/ DoContiguous
     \/ \E i, j \in 1..R : i < j /\ DoTrace(i, j)
     \/ \E i \in 1..R, j \in 1..Len(orig.leg) : DoDot(<<i - 1>>, <<j - 1>>)
     \/ \E i, k \in 1..R, j, n \in 1..Len(orig.leg) : i # k /\ j < n /\ DoDot(<<i - 1, k - 1>>, <<j - 1, n - 1>>)
Spec == Init /\ [][Next]_vars
ChargeConserved == Symmetric(m, cur.leg, cur.t)
Fits == cur.t.s = LegShape(cur.leg) /\ WellFormed(cur.t)
Norm2(t) == FoldLeft(LAMBDA a, v : a + (v * v), 0, t.d)
NormKept == [][prog'[Len(prog')][1] \in {"transpose", "reshape", "conj", "contiguous"} =>
                 Norm2(cur'.t) = Norm2(cur.t) /\ NAllowed(m, cur'.leg) = NAllowed(m, cur.leg)]_vars
=============================================================================
