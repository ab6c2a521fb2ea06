-------------------------------- MODULE Words --------------------------------
(* Fixed-width words and big integers.  A word (at most 64 bits) is a sequence *)
(* of six digits in base 2^11, least significant first; a big natural number   *)
(* is such a sequence of any length.                                           *)
EXTENDS Integers, Sequences

WB == 2048

\* Carries the columns c[1..6] (any sign) and truncates to w bits.
WNorm(c, w) ==
  LET full == w \div 11                      \* number of complete digits
      top == 2 ^ (w - 11 * full)
      D(i, t) == IF i <= full THEN t % WB ELSE IF i = full + 1 THEN t % top ELSE 0
      t1 == c[1]
      t2 == c[2] + (t1 \div WB)
      t3 == c[3] + (t2 \div WB)
      t4 == c[4] + (t3 \div WB)
      t5 == c[5] + (t4 \div WB)
      t6 == c[6] + (t5 \div WB)
  IN <<D(1, t1), D(2, t2), D(3, t3), D(4, t4), D(5, t5), D(6, t6)>>

WZero == <<0, 0, 0, 0, 0, 0>>
WAdd(a, b, w) == WNorm(<<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4], a[5] + b[5], a[6] + b[6]>>, w)
WSub(a, b, w) == WNorm(<<a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4], a[5] - b[5], a[6] - b[6]>>, w)
WNeg(a, w) == WSub(WZero, a, w)
\* Column sums of the product (truncated to six columns).
WCols(a, b) ==
  <<a[1] * b[1],
    a[1] * b[2] + a[2] * b[1],
    a[1] * b[3] + a[2] * b[2] + a[3] * b[1],
    a[1] * b[4] + a[2] * b[3] + a[3] * b[2] + a[4] * b[1],
    a[1] * b[5] + a[2] * b[4] + a[3] * b[3] + a[4] * b[2] + a[5] * b[1],
    a[1] * b[6] + a[2] * b[5] + a[3] * b[4] + a[4] * b[3] + a[5] * b[2] + a[6] * b[1]>>
WMul(a, b, w) == WNorm(WCols(a, b), w)
\* A (possibly negative) small integer |n| < 2^30 as a word.
WOf(n, w) == WNorm(<<n, 0, 0, 0, 0, 0>>, w)
WTrunc(a, w) == WNorm(a, w)

\* Sign extension of a w-bit word to v bits.
WBit(a, i) == (a[1 + (i \div 11)] \div (2 ^ (i % 11))) % 2
WNegative(a, w) == WBit(a, w - 1) = 1

--------------------------------------------------------------------------
(* Big natural numbers. *)
At(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
LenMax(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE NCarry(_, _, _)
NCarry(c, i, t) ==
  IF i > Len(c) THEN (IF t = 0 THEN <<>> ELSE <<t % WB>> \o NCarry(c, i, t \div WB))
  ELSE LET s == c[i] + t IN <<s % WB>> \o NCarry(c, i + 1, s \div WB)

RECURSIVE NTrimN(_, _)
NTrimN(a, n) == IF n = 0 THEN <<>> ELSE IF a[n] # 0 THEN SubSeq(a, 1, n) ELSE NTrimN(a, n - 1)
NTrim(a) == NTrimN(a, Len(a))

NAdd(a, b) == NTrim(NCarry([i \in 1..LenMax(a, b) |-> At(a, i) + At(b, i)], 1, 0))
RECURSIVE NCmpAt(_, _, _)
NCmpAt(a, b, i) == IF i = 0 THEN 0 ELSE IF At(a, i) < At(b, i) THEN -1 ELSE IF At(a, i) > At(b, i) THEN 1 ELSE NCmpAt(a, b, i - 1)
NCmp(a, b) == NCmpAt(a, b, LenMax(a, b))
\* a - b for a >= b
RECURSIVE NBorrow(_, _, _, _, _)
NBorrow(a, b, i, n, t) == IF i > n THEN <<>> ELSE LET s == At(a, i) - At(b, i) + t IN <<s % WB>> \o NBorrow(a, b, i + 1, n, s \div WB)
NSub(a, b) == NTrim(NBorrow(a, b, 1, LenMax(a, b), 0))
RECURSIVE ColSum(_, _, _, _)
ColSum(a, b, k, i) == IF i > Len(a) THEN 0 ELSE a[i] * At(b, k - i + 1) + ColSum(a, b, k, i + 1)
NMul(a, b) == NTrim(NCarry([k \in 1..(Len(a) + Len(b)) |-> ColSum(a, b, k, 1)], 1, 0))
RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % WB>> \o NOf(n \div WB)
NPow2(k) == [i \in 1..(k \div 11 + 1) |-> IF i = k \div 11 + 1 THEN 2 ^ (k % 11) ELSE 0]

(* Big integers <<sign, magnitude>> with sign in {-1, 0, 1}. *)
ZMk(s, m) == LET t == NTrim(m) IN IF t = <<>> THEN <<0, <<>>>> ELSE <<s, t>>
Z0 == <<0, <<>>>>
ZOf(n) == IF n < 0 THEN ZMk(-1, NOf(0 - n)) ELSE ZMk(1, NOf(n))
ZNeg(x) == <<0 - x[1], x[2]>>
ZAbs(x) == IF x[1] < 0 THEN ZNeg(x) ELSE x
ZAdd(x, y) ==
  IF x[1] = 0 THEN y ELSE IF y[1] = 0 THEN x
  ELSE IF x[1] = y[1] THEN ZMk(x[1], NAdd(x[2], y[2]))
  ELSE LET c == NCmp(x[2], y[2]) IN IF c = 0 THEN Z0 ELSE IF c > 0 THEN ZMk(x[1], NSub(x[2], y[2])) ELSE ZMk(y[1], NSub(y[2], x[2]))
ZSub(x, y) == ZAdd(x, ZNeg(y))
ZMul(x, y) == IF x[1] = 0 \/ y[1] = 0 THEN Z0 ELSE ZMk(x[1] * y[1], NMul(x[2], y[2]))
ZCmp(x, y) == ZSub(x, y)[1]
ZLe(x, y) == ZCmp(x, y) <= 0
ZLt(x, y) == ZCmp(x, y) < 0
ZPow2(k) == ZMk(1, NPow2(k))
\* The value of a w-bit word.
ZOfWord(a, w, signed) == IF signed /\ WNegative(a, w) THEN ZSub(ZMk(1, a), ZPow2(w)) ELSE ZMk(1, a)
=============================================================================
