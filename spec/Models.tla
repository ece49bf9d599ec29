------------------------------- MODULE Models -------------------------------
(***************************************************************************)
(* The documented Hamiltonians, entry by entry, in the basis of occupation  *)
(* (spin) strings: site 0 is the most significant bit, 0 = down / empty.     *)
(* Everything is multiplied by 4, so that it is integer for integer couplings.*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
LOCAL Pow2(n) == 2 ^ n
Bit(x, k, n) == (x \div Pow2(n - 1 - k)) % 2
LOCAL SumOver(f, n) == FoldLeft(LAMBDA a, k : a + f[k], 0, [k \in 1..n |-> k])
Sgn(b) == 2 * b - 1                      \* spin up = 1, down = -1
\* x and y differ exactly on sites i and j
DiffersAt(x, y, q, n) == \A k \in 0..(n - 1) : (Bit(x, k, n) # Bit(y, k, n)) <=> (k \in q)
\* 4 * (sum Jz Sz Sz + Jxy (Sx Sx + Sy Sy) + Bz Sz)
XXZEntry(Jz, Jxy, Bz, x, y) ==
  LET n == Len(Bz)
  IN IF x = y
     THEN SumOver([k \in 1..n |-> 2 * Bz[k] * Sgn(Bit(x, k - 1, n))], n)
          + SumOver([k \in 1..(n - 1) |-> Jz[k] * Sgn(Bit(x, k - 1, n)) * Sgn(Bit(x, k, n))], n - 1)
     ELSE SumOver([k \in 1..(n - 1) |-> IF DiffersAt(x, y, {k - 1, k}, n) /\ Bit(x, k - 1, n) # Bit(x, k, n)
                                        THEN 2 * Jxy[k] ELSE 0], n - 1)
\* 4 * (sum Jx sigma_x sigma_x + Bz sigma_z)
TFIEntry(Jx, Bz, x, y) ==
  LET n == Len(Bz)
  IN IF x = y THEN SumOver([k \in 1..n |-> 4 * Bz[k] * Sgn(Bit(x, k - 1, n))], n)
     ELSE SumOver([k \in 1..(n - 1) |-> IF DiffersAt(x, y, {k - 1, k}, n) THEN 4 * Jx[k] ELSE 0], n - 1)
\* 4 * (t1 sum_vertical (c+ c + h.c.) + t2 sum_horizontal (c+ c + h.c.) + v sum n)
\* site = row + N1 * column; fermions are ordered by site
Hop(x, y, i, j, n) ==                    \* <x| c+_i c_j + c+_j c_i |y>,  i < j
  IF DiffersAt(x, y, {i, j}, n) /\ Bit(y, i, n) # Bit(y, j, n)
  THEN (IF Cardinality({k \in (i + 1)..(j - 1) : Bit(y, k, n) = 1}) % 2 = 0 THEN 1 ELSE -1)
  ELSE 0
FFEntry(t1, t2, v, N1, N2, x, y) ==
  LET n == N1 * N2
      vert == {<<k, k + 1>> : k \in {k \in 0..(n - 2) : (k + 1) % N1 # 0}}
      hor == {<<k, k + N1>> : k \in 0..(n - N1 - 1)}
  IN IF x = y THEN 4 * v * Cardinality({k \in 0..(n - 1) : Bit(x, k, n) = 1})
     ELSE FoldLeft(LAMBDA a, p : a + 4 * t1 * Hop(x, y, p[1], p[2], n), 0, SetToSeq(vert))
          + FoldLeft(LAMBDA a, p : a + 4 * t2 * Hop(x, y, p[1], p[2], n), 0, SetToSeq(hor))
MatOf(Entry(_, _), n) ==
  LET m == Pow2(n) IN TLCEval([k \in 1..(m * m) |-> Entry((k - 1) \div m, (k - 1) % m)])
XXZ(Jz, Jxy, Bz) == LET E(x, y) == XXZEntry(Jz, Jxy, Bz, x, y) IN MatOf(E, Len(Bz))
TFI(Jx, Bz) == LET E(x, y) == TFIEntry(Jx, Bz, x, y) IN MatOf(E, Len(Bz))
FreeFermion(t1, t2, v, N1, N2) == LET E(x, y) == FFEntry(t1, t2, v, N1, N2, x, y) IN MatOf(E, N1 * N2)
=============================================================================
