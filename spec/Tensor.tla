------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Exact dense tensors.  A tensor is a record                              *)
(*    [s |-> shape, d |-> row-major entries, c |-> 0 | 1]                   *)
(* with entries integers (c = 0) or Gaussian integers <<re, im>> (c = 1).  *)
(* All index arguments are 0-based, as in the implementation.              *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE FiniteSets
LOCAL INSTANCE SequencesExt
LOCAL INSTANCE TLC

Plus(a, b) == a + b
Times(a, b) == a * b
SumSeq(q) == FoldLeft(Plus, 0, q)
ProdSeq(q) == FoldLeft(Times, 1, q)
Range0(n) == [i \in 1..n |-> i - 1]
SetOf(q) == {q[i] : i \in DOMAIN q}
IndexOf(q, x) == CHOOSE i \in DOMAIN q : q[i] = x
Distinct(q) == Cardinality(SetOf(q)) = Len(q)
Without(q, S) == SelectSeq(q, LAMBDA x : x \notin S)

CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CNeg(a) == <<-a[1], -a[2]>>
CConj(a) == <<a[1], -a[2]>>
CSumSeq(q) == FoldLeft(CAdd, <<0, 0>>, q)
CProdSeq(q) == FoldLeft(CMul, <<1, 0>>, q)

T(s, d) == [s |-> s, d |-> d, c |-> 0]
TC(s, d) == [s |-> s, d |-> d, c |-> 1]
Size(t) == ProdSeq(t.s)
Rank(t) == Len(t.s)
WellFormed(t) == Len(t.d) = ProdSeq(t.s)
ToC(t) == IF t.c = 1 THEN t ELSE TC(t.s, TLCEval([i \in 1..Len(t.d) |-> <<t.d[i], 0>>]))
\* equality as tensors (a real tensor equals the complex tensor with zero imaginary part)
Eq(a, b) == IF a.c = b.c THEN a.s = b.s /\ a.d = b.d
            ELSE a.s = b.s /\ ToC(a).d = ToC(b).d

\* stride of every axis
Strides(s) == [a \in 1..Len(s) |-> ProdSeq(SubSeq(s, a + 1, Len(s)))]
\* multi-index (0-based) of flat position k (0-based)
Unflat(k, s) == LET w == Strides(s) IN [a \in 1..Len(s) |-> (k \div w[a]) % s[a]]
Flat(ix, s) == LET w == Strides(s) IN SumSeq([a \in 1..Len(s) |-> ix[a] * w[a]])

(***************************************************************************)
(* Labelled sum of products.  labs[t] gives one label per axis of ts[t];   *)
(* out is a sequence of distinct labels; every other label is summed.      *)
(* A label may repeat within a tensor (trace) and over any number of       *)
(* tensors (hyper-edge).                                                    *)
(***************************************************************************)
LOCAL Weight(st, lab, l) ==
  SumSeq([a \in 1..Len(lab) |-> IF lab[a] = l THEN st[a] ELSE 0])

RECURSIVE OffTable(_, _, _)
\* offsets, for every flat index over the labels ls with dimensions ds
OffTable(wts, ds, n) ==
  IF n = 0 THEN <<0>>
  ELSE LET prev == TLCEval(OffTable(wts, ds, n - 1))
           d == ds[n]
           w == wts[n]
       IN [k \in 1..(Len(prev) * d) |->
             prev[((k - 1) \div d) + 1] + ((k - 1) % d) * w]

LOCAL LabDim(ts, labs, l) ==
  LET t == CHOOSE t \in DOMAIN labs : l \in SetOf(labs[t])
  IN ts[t].s[IndexOf(labs[t], l)]

AllLabels(labs) == UNION {SetOf(labs[t]) : t \in DOMAIN labs}

EinsumOK(ts, labs, out) ==
  /\ Len(ts) = Len(labs)
  /\ \A t \in DOMAIN ts : Len(labs[t]) = Len(ts[t].s) /\ WellFormed(ts[t])
  /\ Distinct(out)
  /\ SetOf(out) \subseteq AllLabels(labs)
  /\ \A t, u \in DOMAIN ts : \A a \in DOMAIN labs[t], b \in DOMAIN labs[u] :
        labs[t][a] = labs[u][b] => ts[t].s[a] = ts[u].s[b]

Einsum(ts0, labs, out) ==
  LET cx == \E t \in DOMAIN ts0 : ts0[t].c = 1
      ts == TLCEval(IF cx THEN [t \in DOMAIN ts0 |-> ToC(ts0[t])] ELSE ts0)
      inn == TLCEval(SetToSeq(AllLabels(labs) \ SetOf(out)))
      ods == TLCEval([i \in 1..Len(out) |-> LabDim(ts, labs, out[i])])
      ids == TLCEval([i \in 1..Len(inn) |-> LabDim(ts, labs, inn[i])])
      no == ProdSeq(ods)
      ni == ProdSeq(ids)
      nt == Len(ts)
      st == TLCEval([t \in 1..nt |-> Strides(ts[t].s)])
      D == TLCEval([t \in 1..nt |-> ts[t].d])
      A == TLCEval([t \in 1..nt |-> TLCEval(
              OffTable(TLCEval([i \in 1..Len(out) |-> Weight(st[t], labs[t], out[i])]), ods, Len(out)))])
      B == TLCEval([t \in 1..nt |-> TLCEval(
              OffTable(TLCEval([i \in 1..Len(inn) |-> Weight(st[t], labs[t], inn[i])]), ids, Len(inn)))])
  IN IF cx
     THEN TC(ods, TLCEval([o \in 1..no |->
            CSumSeq([k \in 1..ni |->
              CProdSeq([t \in 1..nt |-> D[t][1 + A[t][o] + B[t][k]]])])]))
     ELSE IF ni = 1
     THEN T(ods, TLCEval([o \in 1..no |->
              ProdSeq([t \in 1..nt |-> D[t][1 + A[t][o] + B[t][1]]])]))
     ELSE T(ods, TLCEval([o \in 1..no |->
            SumSeq([k \in 1..ni |->
              ProdSeq([t \in 1..nt |-> D[t][1 + A[t][o] + B[t][k]]])])]))

\* numpy-style transpose: axis i of the result is axis perm[i] of t
Transpose(t, perm) ==
  Einsum(<<t>>, <<Range0(Len(t.s))>>, perm)

IsPerm(p, n) == Len(p) = n /\ SetOf(p) = 0..(n - 1)

Reshape(t, s) == [t EXCEPT !.s = s]

\* contiguous block
Slice(t, start, size) ==
  LET st == Strides(t.s)
      tab == TLCEval(OffTable(st, size, Len(size)))
      base == SumSeq([a \in 1..Len(st) |-> st[a] * start[a]])
  IN [s |-> size, d |-> TLCEval([k \in 1..Len(tab) |-> t.d[1 + base + tab[k]]]), c |-> t.c]

Tensordot(a, b, ax, bx) ==
  LET ra == Len(a.s)
      rb == Len(b.s)
      la == Range0(ra)
      lb == [i \in 1..rb |-> IF (i - 1) \in SetOf(bx)
                             THEN ax[IndexOf(bx, i - 1)] ELSE ra + i - 1]
  IN Einsum(<<a, b>>, <<la, lb>>,
            Without(la, SetOf(ax)) \o Without(lb, SetOf(ax)))

Outer(a, b) == Tensordot(a, b, <<>>, <<>>)

\* trace over two axes, remaining axes in order
TraceAxes(t, i, j) ==
  LET r == Len(t.s)
      l == [a \in 1..r |-> IF a - 1 = j THEN i ELSE a - 1]
  IN Einsum(<<t>>, <<l>>, Without(Range0(r), {i, j}))

MapD(t, Op(_)) == [t EXCEPT !.d = TLCEval([k \in 1..Len(t.d) |-> Op(t.d[k])])]
Conj(t) == IF t.c = 1 THEN MapD(t, CConj) ELSE t
Neg(t) == IF t.c = 1 THEN MapD(t, CNeg) ELSE MapD(t, LAMBDA x : -x)
\* scale by integer or Gaussian integer
ScaleC(t, z) == LET u == ToC(t) IN MapD(u, LAMBDA x : CMul(x, z))
Scale(t, n) == IF t.c = 1 THEN MapD(t, LAMBDA x : <<x[1] * n, x[2] * n>>)
               ELSE MapD(t, LAMBDA x : x * n)
Add(a, b) == IF a.c = 0 /\ b.c = 0
             THEN T(a.s, TLCEval([k \in 1..Len(a.d) |-> a.d[k] + b.d[k]]))
             ELSE LET u == ToC(a)
                      v == ToC(b)
                  IN TC(a.s, TLCEval([k \in 1..Len(a.d) |-> CAdd(u.d[k], v.d[k])]))
Sub(a, b) == Add(a, Neg(b))
Mul(a, b) == IF a.c = 0 /\ b.c = 0
             THEN T(a.s, TLCEval([k \in 1..Len(a.d) |-> a.d[k] * b.d[k]]))
             ELSE LET u == ToC(a)
                      v == ToC(b)
                  IN TC(a.s, TLCEval([k \in 1..Len(a.d) |-> CMul(u.d[k], v.d[k])]))

\* rank-r, dimension-n Kronecker delta
Delta(r, n) ==
  T([i \in 1..r |-> n],
    TLCEval([k \in 1..ProdSeq([i \in 1..r |-> n]) |->
       LET ix == TLCEval(Unflat(k - 1, [i \in 1..r |-> n]))
       IN IF \A i, j \in 1..r : ix[i] = ix[j] THEN 1 ELSE 0]))
EyeNM(n, m) == T(<<n, m>>, TLCEval([k \in 1..(n * m) |->
                   IF (k - 1) \div m = (k - 1) % m THEN 1 ELSE 0]))
Const(s, v) == T(s, TLCEval([k \in 1..ProdSeq(s) |-> v]))
Matmul(a, b) == Einsum(<<a, b>>, << <<0, 1>>, <<1, 2>> >>, <<0, 2>>)
Dagger(m) == Conj(Transpose(m, <<1, 0>>))

(***************************************************************************)
(* The same labelled tensor with its axes in another order: some bijection *)
(* of equally labelled axes carries one onto the other.                    *)
(***************************************************************************)
LOCAL Occ(q, i) == Cardinality({j \in 1..i : q[j] = q[i]})
LOCAL Count(q, x) == Cardinality({j \in DOMAIN q : q[j] = x})
\* labels occur once or twice; both assignments of a repeated label are tried
AxisMaps(from, to) ==
  IF Len(from) # Len(to) \/ SetOf(from) # SetOf(to)
     \/ \E x \in SetOf(from) : Count(from, x) # Count(to, x) \/ Count(from, x) > 2
  THEN {}
  ELSE LET dup == {x \in SetOf(from) : Count(from, x) = 2}
           pos(x, k) == CHOOSE i \in DOMAIN from : from[i] = x /\ Occ(from, i) = k
       IN {[i \in 1..Len(to) |->
              pos(to[i], IF to[i] \in sw THEN 3 - Occ(to, i) ELSE Occ(to, i))] : sw \in SUBSET dup}

SameUpToOrder(labA, a, labB, b) ==
  \E f \in AxisMaps(labA, labB) :
     Eq(Transpose(a, [i \in 1..Len(labB) |-> f[i] - 1]), b)
=============================================================================
