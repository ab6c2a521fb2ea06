-------------------------------- MODULE Ring --------------------------------
(* Z_M[X]/(X^N+1) on sequences of N integers (index 1 holds the constant     *)
(* coefficient), and small integer helpers.                                  *)
EXTENDS Integers, Sequences, FiniteSets

Abs(x) == IF x < 0 THEN -x ELSE x

MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b

\* Bit length of a natural number.
RECURSIVE BitLen(_)
BitLen(x) == IF x = 0 THEN 0 ELSE 1 + BitLen(x \div 2)

RECURSIVE SumF(_, _, _)
SumF(F(_), lo, hi) == IF lo > hi THEN 0 ELSE F(lo) + SumF(F, lo + 1, hi)

RECURSIVE L1(_)
L1(p) == IF Len(p) = 0 THEN 0 ELSE Abs(Head(p)) + L1(Tail(p))

\* Component-wise operations modulo M.
RAdd(M, a, b) == [i \in 1..Len(a) |-> (a[i] + b[i]) % M]
RSub(M, a, b) == [i \in 1..Len(a) |-> (a[i] - b[i]) % M]
RNeg(M, a) == [i \in 1..Len(a) |-> (0 - a[i]) % M]
RScale(M, c, a) == [i \in 1..Len(a) |-> (c * a[i]) % M]
RMod(M, a) == [i \in 1..Len(a) |-> a[i] % M]

\* X^d * a, for any integer d.
RMono(M, d, a) ==
  LET n == Len(a)
      s == d % (2 * n)
  IN [i \in 1..n |->
        LET j == (i - 1 - s) % (2 * n)
        IN IF j < n THEN a[j + 1] % M ELSE (0 - a[j - n + 1]) % M]

\* Negacyclic product, coefficients reduced modulo M.
RMul(M, p, a) ==
  LET n == Len(a)
      pi(i) == IF i <= Len(p) THEN p[i] ELSE 0
      nz == {i \in 1..Len(p) : p[i] # 0}
      RECURSIVE Acc(_, _)
      Acc(S, k) ==
        IF S = {} THEN 0
        ELSE LET i == CHOOSE x \in S : TRUE
                 j == k - (i - 1)
             IN (IF j >= 1 THEN p[i] * a[j] ELSE 0 - p[i] * a[j + n]) + Acc(S \ {i}, k)
  IN [k \in 1..n |-> Acc(nz, k) % M]

\* The image of a under X -> X^d (d odd).
RPerm(M, d, a) ==
  LET n == Len(a)
      dd == d % (2 * n)
      \* the inverse of d modulo 2n
      inv == CHOOSE e \in 1..(2 * n - 1) : (e * dd) % (2 * n) = 1
  IN [i \in 1..n |->
        LET j == ((i - 1) * inv) % (2 * n)
        IN IF j < n THEN a[j + 1] % M ELSE (0 - a[j - n + 1]) % M]

\* Constant polynomial / zero extension to length n.
RExt(n, p) == [i \in 1..n |-> IF i <= Len(p) THEN p[i] ELSE 0]
=============================================================================
