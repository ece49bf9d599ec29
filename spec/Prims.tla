------------------------------- MODULE Prims -------------------------------
(***************************************************************************)
(* The tensor primitives of the backend interface as mathematical           *)
(* functions on exact tensors: Valid says when a request is meaningful,     *)
(* Val gives its value.  Axes may be negative, as in the implementation.    *)
(***************************************************************************)
EXTENDS Tensor, Integers, Sequences, FiniteSets, SequencesExt, TLC
Nax(r, a) == IF a < 0 THEN a + r ELSE a
NaxS(r, q) == [i \in DOMAIN q |-> Nax(r, q[i])]
AxOK(r, a) == -r <= a /\ a < r
MaxN(a, b) == IF a > b THEN a ELSE b
MinN(a, b) == IF a < b THEN a ELSE b
IAbs(x) == IF x < 0 THEN -x ELSE x

(* broadcasting *)
PadShape(s, n) == [i \in 1..n |-> IF i <= n - Len(s) THEN 1 ELSE s[i - (n - Len(s))]]
BOK(s, u) == LET n == MaxN(Len(s), Len(u))
                 p == PadShape(s, n)
                 q == PadShape(u, n)
             IN \A i \in 1..n : p[i] = q[i] \/ p[i] = 1 \/ q[i] = 1
BShape(s, u) == LET n == MaxN(Len(s), Len(u))
                    p == PadShape(s, n)
                    q == PadShape(u, n)
                IN [i \in 1..n |-> IF p[i] = 1 THEN q[i] ELSE p[i]]
BTo(t, s) ==
  LET p == PadShape(t.s, Len(s))
      w == Strides(p)
      tab == TLCEval(OffTable([i \in DOMAIN s |-> IF p[i] = 1 THEN 0 ELSE w[i]], s, Len(s)))
  IN [s |-> s, d |-> TLCEval([k \in DOMAIN tab |-> t.d[1 + tab[k]]]), c |-> t.c]
Bin(Op(_, _), a, b) == LET s == BShape(a.s, b.s) IN Op(BTo(a, s), BTo(b, s))

(* diagonals *)
DiagLen(di, dj, k) == MaxN(0, MinN(di - MaxN(0, -k), dj - MaxN(0, k)))
Diagonal(t, k, i, j) ==
  LET r == Len(t.s)
      w == Strides(t.s)
      rest == Without(Range0(r), {i, j})
      rs == [a \in DOMAIN rest |-> t.s[rest[a] + 1]]
      tab == TLCEval(OffTable([a \in DOMAIN rest |-> w[rest[a] + 1]], rs, Len(rs)))
      n == DiagLen(t.s[i + 1], t.s[j + 1], k)
      base == IF k >= 0 THEN k * w[j + 1] ELSE (-k) * w[i + 1]
      step == w[i + 1] + w[j + 1]
  IN [s |-> Append(rs, n), c |-> t.c,
      d |-> TLCEval([o \in 1..(Len(tab) * n) |->
              t.d[1 + tab[((o - 1) \div n) + 1] + base + ((o - 1) % n) * step]])]
SumAxes(t, axs) ==
  LET r == Len(t.s) IN Einsum(<<t>>, <<Range0(r)>>, Without(Range0(r), axs))
Zeros(s, c) == IF c = 1 THEN TC(s, [k \in 1..ProdSeq(s) |-> <<0, 0>>]) ELSE T(s, [k \in 1..ProdSeq(s) |-> 0])
DTrace(t, k, i, j) ==
  LET g == Diagonal(t, k, i, j)
      rs == SubSeq(g.s, 1, Len(g.s) - 1)
  IN IF g.s[Len(g.s)] = 0 THEN Zeros(rs, t.c) ELSE SumAxes(g, {Len(g.s) - 1})
DiagFlat(t, k) ==
  LET n == Len(t.d)
      m == n + IAbs(k)
      z == IF t.c = 1 THEN <<0, 0>> ELSE 0
  IN [s |-> <<m, m>>, c |-> t.c,
      d |-> TLCEval([o \in 1..(m * m) |->
              LET p == (o - 1) \div m
                  q == (o - 1) % m
              IN IF q - p = k THEN t.d[1 + MinN(p, q)] ELSE z])]
SumKeep(t, axs, keep) ==
  LET u == SumAxes(t, axs)
  IN IF keep = 1 THEN Reshape(u, [i \in DOMAIN t.s |-> IF (i - 1) \in axs THEN 1 ELSE t.s[i]]) ELSE u

(* stacks of matrices *)
MMOK(a, b) ==
  /\ Len(a.s) >= 2 /\ Len(b.s) >= 2
  /\ a.s[Len(a.s)] = b.s[Len(b.s) - 1]
  /\ BOK(SubSeq(a.s, 1, Len(a.s) - 2), SubSeq(b.s, 1, Len(b.s) - 2))
MM(a, b) ==
  LET ba == SubSeq(a.s, 1, Len(a.s) - 2)
      bb == SubSeq(b.s, 1, Len(b.s) - 2)
      bs == BShape(ba, bb)
      n == Len(bs)
      A2 == BTo(a, bs \o SubSeq(a.s, Len(a.s) - 1, Len(a.s)))
      B2 == BTo(b, bs \o SubSeq(b.s, Len(b.s) - 1, Len(b.s)))
      z == Range0(n)
  IN Einsum(<<A2, B2>>, <<z \o <<n, n + 1>>, z \o <<n + 1, n + 2>> >>, z \o <<n, n + 2>>)

RECURSIVE PowI(_, _)
PowI(x, n) == IF n = 0 THEN 1 ELSE x * PowI(x, n - 1)
EPow(a, b) == T(a.s, TLCEval([k \in DOMAIN a.d |-> PowI(a.d[k], b.d[k])]))
SignI(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Kron(a, b) ==
  LET ra == Len(a.s)
      rb == Len(b.s)
      inn == Range0(ra \div 2) \o [i \in 1..(rb \div 2) |-> ra + i - 1]
      out == [i \in 1..(ra - ra \div 2) |-> (ra \div 2) + i - 1] \o [i \in 1..(rb - rb \div 2) |-> ra + (rb \div 2) + i - 1]
  IN Transpose(Outer(a, b), inn \o out)
Pivot(t, p) == Reshape(t, <<ProdSeq(SubSeq(t.s, 1, p)), ProdSeq(SubSeq(t.s, p + 1, Len(t.s)))>>)
\* numpy slicing rule for a pivot position: negative counts from the right
PivPos(r, p) == IF p < 0 THEN MaxN(0, p + r) ELSE p
Concat(ts, ax) ==
  \* by recursion on pairs
  LET two(a, b) ==
        LET pre == ProdSeq(SubSeq(a.s, 1, ax))
            pa == ProdSeq(SubSeq(a.s, ax + 1, Len(a.s)))
            pb == ProdSeq(SubSeq(b.s, ax + 1, Len(b.s)))
        IN [s |-> [a.s EXCEPT ![ax + 1] = a.s[ax + 1] + b.s[ax + 1]], c |-> a.c,
            d |-> TLCEval([o \in 1..(pre * (pa + pb)) |->
                 LET h == (o - 1) \div (pa + pb)
                     q == (o - 1) % (pa + pb)
                 IN IF q < pa THEN a.d[1 + h * pa + q] ELSE b.d[1 + h * pb + (q - pa)]])]
  IN FoldLeft(two, ts[1], SubSeq(ts, 2, Len(ts)))

RevPerm(r) == [i \in 1..r |-> r - i]
PermOf(r, p) == IF p.has = 1 THEN NaxS(r, p.perm) ELSE RevPerm(r)
PermOK(r, p) == IF p.has = 1 THEN (\A i \in DOMAIN p.perm : AxOK(r, p.perm[i])) /\ IsPerm(NaxS(r, p.perm), r) ELSE TRUE
PairOK(r, p) == r >= 2 /\ AxOK(r, p.i) /\ AxOK(r, p.j) /\ Nax(r, p.i) # Nax(r, p.j)
DotOK(a, b, p) ==
  LET ra == Len(a.s)
      rb == Len(b.s)
  IN Len(p.ax) = Len(p.bx) /\ (\A i \in DOMAIN p.ax : AxOK(ra, p.ax[i])) /\ (\A i \in DOMAIN p.bx : AxOK(rb, p.bx[i]))
     /\ Distinct(NaxS(ra, p.ax)) /\ Distinct(NaxS(rb, p.bx))
     /\ \A i \in DOMAIN p.ax : a.s[Nax(ra, p.ax[i]) + 1] = b.s[Nax(rb, p.bx[i]) + 1]

Valid(f, ts, p) ==
  LET t == ts[1]
      r == Len(t.s)
  IN CASE f = "tensordot" -> DotOK(ts[1], ts[2], p)
     [] f = "reshape" -> ProdSeq(p.shape) = Len(t.d)
     [] f \in {"transpose", "hconj"} -> PermOK(r, p)
     [] f = "slice" -> Len(p.start) = Len(p.size) /\ Len(p.start) = r
                       /\ \A i \in DOMAIN p.start : p.start[i] >= 0 /\ p.size[i] >= 0 /\ p.start[i] + p.size[i] <= t.s[i]
     [] f = "concat" -> AxOK(r, p.ax) /\ \A k \in DOMAIN ts : Len(ts[k].s) = r /\
                          \A i \in 1..r : i = Nax(r, p.ax) + 1 \/ ts[k].s[i] = t.s[i]
     [] f = "einsum" -> EinsumOK(ts, p.labs, p.out)
     [] f \in {"add", "sub", "mul", "div", "pow"} -> BOK(ts[1].s, ts[2].s)
     [] f = "right" -> Len(ts[2].s) = 1 /\ BOK(ts[1].s, ts[2].s)
     [] f = "left" -> Len(ts[1].s) = 1 /\ Len(ts[2].s) >= 1 /\ (ts[1].s[1] = ts[2].s[1] \/ ts[1].s[1] = 1 \/ ts[2].s[1] = 1)
     [] f = "sum" -> p.has = 0 \/ ((\A i \in DOMAIN p.axes : AxOK(r, p.axes[i])) /\ Distinct(NaxS(r, p.axes)))
     [] f = "matmul" -> MMOK(ts[1], ts[2])
     [] f \in {"diagonal", "trace"} -> PairOK(r, p)
     [] f = "pivot" -> p.p <= r /\ p.p >= -r
     [] f = "item" -> Len(t.d) = 1
     [] f \in {"inv", "expm"} -> r = 2 /\ t.s[1] = t.s[2]
     [] f = "kron" -> Len(ts[1].s) % 2 = 0 /\ Len(ts[2].s) % 2 = 0
     [] f = "index_update" -> TRUE
     [] OTHER -> TRUE

\* elementary functions at small integers, in thousandths
ExpTab == <<50, 135, 368, 1000, 2718, 7389, 20086>>          \* -3 .. 3
SinTab == <<-141, -909, -841, 0, 841, 909, 141>>             \* -3 .. 3
CosTab == <<-990, -416, 540, 1000, 540, -416, -990>>         \* -3 .. 3
LogTab == <<0, 0, 0, 0, 693, 1099, 1386, 1609, 1792, 1946>>  \* 1 .. 7 in places 4 .. 10
Tabulated(t, tab) == IF t.c = 1 THEN MapD(t, LAMBDA x : <<tab[x[1] + (IF tab = LogTab THEN 3 ELSE 4)], 0>>)
                     ELSE MapD(t, LAMBDA x : tab[x + (IF tab = LogTab THEN 3 ELSE 4)])

Val(f, ts, p) ==
  LET t == ts[1]
      r == Len(t.s)
  IN CASE f = "tensordot" -> Tensordot(ts[1], ts[2], NaxS(Len(ts[1].s), p.ax), NaxS(Len(ts[2].s), p.bx))
     [] f = "reshape" -> Reshape(t, p.shape)
     [] f = "transpose" -> Transpose(t, PermOf(r, p))
     [] f = "hconj" -> Transpose(Conj(t), PermOf(r, p))
     [] f = "slice" -> Slice(t, p.start, p.size)
     [] f = "concat" -> Concat(ts, Nax(r, p.ax))
     [] f = "outer" -> Outer(ts[1], ts[2])
     [] f = "einsum" -> Einsum(ts, p.labs, p.out)
     [] f = "conj" -> Conj(t)
     [] f = "add" -> Bin(Add, ts[1], ts[2])
     [] f = "sub" -> Bin(Sub, ts[1], ts[2])
     [] f = "mul" -> Bin(Mul, ts[1], ts[2])
     [] f = "right" -> Bin(Mul, ts[1], ts[2])
     [] f = "left" -> Bin(Mul, Reshape(ts[1], <<ts[1].s[1]>> \o [i \in 1..(Len(ts[2].s) - 1) |-> 1]), ts[2])
     [] f = "pow" -> Bin(EPow, ts[1], ts[2])
     [] f = "sum" -> SumKeep(t, IF p.has = 1 THEN SetOf(NaxS(r, p.axes)) ELSE 0..(r - 1), p.keep)
     [] f = "matmul" -> MM(ts[1], ts[2])
     [] f = "diagonal" -> Diagonal(t, p.k, Nax(r, p.i), Nax(r, p.j))
     [] f = "trace" -> DTrace(t, p.k, Nax(r, p.i), Nax(r, p.j))
     [] f = "diagflat" -> DiagFlat(t, p.k)
     [] f = "abs" -> MapD(t, IAbs)
     [] f = "sign" -> MapD(t, SignI)
     [] f = "pivot" -> Pivot(t, PivPos(r, p.p))
     [] f \in {"serialize", "item", "copy", "convert", "jit"} -> IF f = "item" THEN Reshape(t, <<>>) ELSE t
     [] f = "squeeze" -> Reshape(t, SelectSeq(t.s, LAMBDA x : x # 1))
     [] f = "ravel" -> Reshape(t, <<Len(t.d)>>)
     [] f = "kron" -> Kron(ts[1], ts[2])
     [] f = "eye" -> EyeNM(p.n, p.m)
     [] f = "const" -> Const(p.shape, p.v)
     [] f = "shape" -> T(<<r>>, t.s)
     [] f = "prod" -> T(<<>>, <<ProdSeq(p.vals)>>)
     [] f = "eps" -> T(<<>>, <<IF p.bits = 64 THEN 52 ELSE 23>>)
     [] f = "index_update" -> [t EXCEPT !.d = TLCEval([k \in DOMAIN t.d |-> IF p.mask[k] = 1 THEN (IF t.c = 1 THEN <<p.v, 0>> ELSE p.v) ELSE t.d[k]])]
     \* entries 0 / 1 only: exact values of the elementary functions
     [] f = "exp0" -> Const(t.s, 1)
     [] f = "sin0" -> Const(t.s, 0)
     [] f = "cos0" -> Const(t.s, 1)
     [] f = "log1" -> Const(t.s, 0)
     \* small integers, in thousandths
     [] f = "exptab" -> Tabulated(t, ExpTab)
     [] f = "sintab" -> Tabulated(t, SinTab)
     [] f = "costab" -> Tabulated(t, CosTab)
     [] f = "logtab" -> Tabulated(t, LogTab)
     \* N with N^3 = 0 and even entries
     [] f = "expm" -> LET n2 == Matmul(t, t)
                      IN Add(Add(EyeNM(t.s[1], t.s[1]), t), IF t.c = 1 THEN MapD(n2, LAMBDA x : <<x[1] \div 2, x[2] \div 2>>) ELSE MapD(n2, LAMBDA x : x \div 2))

\* functions whose value is characterised by an equation
Relation(f, ts, p, res) ==
  LET t == ts[1]
  IN CASE f = "div" -> res.s = BShape(ts[1].s, ts[2].s) /\ Eq(Bin(Mul, res, ts[2]), BTo(ts[1], res.s))
     [] f = "sqrt" -> res.s = t.s /\ Eq(Mul(res, res), t) /\ res.c = 0 /\ \A k \in DOMAIN res.d : res.d[k] >= 0
     [] f = "inv" -> res.s = t.s /\ Eq(Matmul(t, res), EyeNM(t.s[1], t.s[1]))
     [] f = "normsq" -> res.s = <<>> /\ res.c = 0 /\
          res.d[1] = (IF t.c = 1 THEN SumSeq([k \in DOMAIN t.d |-> t.d[k][1] * t.d[k][1] + t.d[k][2] * t.d[k][2]])
                      ELSE SumSeq([k \in DOMAIN t.d |-> t.d[k] * t.d[k]]))
Relational == {"div", "sqrt", "inv", "normsq"}
=============================================================================
