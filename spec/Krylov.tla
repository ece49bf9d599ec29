------------------------------- MODULE Krylov -------------------------------
(***************************************************************************)
(* Iterative solvers as functions of their arguments.                        *)
(* An operator is an exact integer matrix h on the coordinates of the space,  *)
(* vectors are exact integer vectors, results are approximations.             *)
(***************************************************************************)
EXTENDS Approx
F == 8192
To(a) == IF a.f > F THEN ARescale(a, F) ELSE a
HA(h) == A(h.s, h.d, h.c, 1, 0)
VA(v) == A(v.s, v.d, v.c, 1, 0)
Apply(h, v) == AEin2(HA(h), <<1, 2>>, v, <<2>>, <<1>>)
TimesW(w, v) == To(AEin2(ARescale(w, 1024), <<>>, v, <<1>>, <<1>>))
NormSq(v) == To(AEin2(AConj(v), <<1>>, v, <<1>>, <<>>))
UnitV(v) == NearA(NormSq(v), A(<<>>, <<F>>, 0, F, 0))
\* (w, v) is an eigenpair
Slack(a, k) == [a EXCEPT !.e = a.e + k]
EigenPair(h, w, v, slack) == NearA(Slack(Apply(h, v), slack), TimesW(w, v))
\* the k-th column of a matrix
Column(m, k) == A(<<m.s[1]>>, [j \in 1..m.s[1] |-> m.d[(j - 1) * m.s[2] + k]], m.c, m.f, m.e)
Entry(v, k) == A(<<>>, <<v.d[k]>>, v.c, v.f, v.e)
\* w, V list eigenpairs of h (one for every dimension)
Spectrum(h, cert) == \A k \in 1..cert.w.s[1] : EigenPair(h, Entry(cert.w, k), Column(cert.V, k), 4)
Rounded(a) == LET c == ToCA(a) IN <<c.d[1][1], c.d[1][2]>>
CloseTo(x, y, tol) == LET p == Rounded(x)
                          q == Rounded(y)
                      IN AbsI(p[1] - q[1]) <= tol /\ AbsI(p[2] - q[2]) <= tol
\* exact integers
IDot(u, v) == LET t == Einsum(<<[u EXCEPT !.d = IF u.c = 1 THEN [k \in DOMAIN u.d |-> CConj(u.d[k])] ELSE u.d], v>>, << <<1>>, <<1>> >>, <<>>) IN t.d[1]
INormSq(v) == LET x == IDot(v, v) IN IF v.c = 1 THEN x[1] ELSE x
IRayleigh(h, v) == LET x == IDot(v, Einsum(<<h, v>>, << <<1, 2>>, <<2>> >>, <<1>>)) IN IF v.c = 1 \/ h.c = 1 THEN x[1] ELSE x
SqrtUp(n) == CHOOSE k \in 0..200 : k * k >= n /\ (k = 0 \/ (k - 1) * (k - 1) < n)
\* sums of squares in units of 1/256
Coarse(v) == LET c == ToCA(IF v.f > 256 THEN ARescale(v, 256) ELSE AScaleI([v EXCEPT !.f = 256], 256 \div v.f))
             IN SumSeq([k \in DOMAIN c.d |-> c.d[k][1] * c.d[k][1] + c.d[k][2] * c.d[k][2]])
Residual(h, x, b) == LET y == Apply(h, x)
                         t == ExactA(b, x.f)
                         yc == ToCA(y)
                         tc == ToCA(t)
                     IN A(y.s, TLCEval([k \in DOMAIN yc.d |-> <<tc.d[k][1] - yc.d[k][1], tc.d[k][2] - yc.d[k][2]>>]), 1, y.f, y.e)
MaxComp(v) == MaxAbs(v)
=============================================================================
