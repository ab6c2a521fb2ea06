------------------------------ MODULE NumTrace ------------------------------
(* Number helpers and vector helpers: every recorded call satisfies the       *)
(* mathematical definition of the function over the integers / Z_{2^w}.        *)
EXTENDS Ring, Words, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* ---- scalars: arguments and results are big integers [s, m] ---- *)
A(e, i) == ZMk(e.a[i].s, e.a[i].m)
X(e) == A(e, 1)
Y(e) == A(e, 2)
R(e) == ZMk(e.r.s, e.r.m)

\* |2 (x - r y)| <= |y|; ties are rounded away from zero
IsDivRound(x, y, r) ==
  LET d == ZSub(x, ZMul(r, y))
      t == ZAbs(ZAdd(d, d))
      c == ZCmp(t, ZAbs(y))
  IN c < 0 \/ (c = 0 /\ ZLe(ZAbs(x), ZAbs(ZMul(r, y))))

IsNearest(x, y, r) == LET d == ZSub(x, ZMul(r, y)) IN ZLe(ZAbs(ZAdd(d, d)), ZAbs(y))

\* r in [0, m) and r = x (mod m), certified by the quotient k
Congruent(x, r, m, k) == ZLe(Z0, r) /\ ZLt(r, m) /\ x = ZAdd(r, ZMul(k, m))

RECURSIVE GCDi(_, _)
GCDi(a, b) == IF b = 0 THEN a ELSE GCDi(b, a % b)
RECURSIVE PowMod(_, _, _)
PowMod(x, y, m) == IF y = 0 THEN 1 % m ELSE LET h == PowMod((x * x) % m, y \div 2, m) IN IF y % 2 = 1 THEN (h * x) % m ELSE h

RECURSIVE Ex2(_)
Ex2(k) == NPow2(k)
IsPow2(x) == x[1] = 1 /\ \E k \in 0..64 : x[2] = NTrim(NPow2(k))

MaxZ(S) == CHOOSE x \in S : \A y \in S : ZLe(y, x)
MinZ(S) == CHOOSE x \in S : \A y \in S : ZLe(x, y)
Args(e) == {A(e, i) : i \in 1..Len(e.a)}

NumOK(e) ==
  CASE e.f = "Abs" -> R(e) = ZAbs(X(e))
    [] e.f = "MaxT" -> R(e) = IF e.sg THEN ZSub(ZPow2(e.w - 1), ZOf(1)) ELSE ZSub(ZPow2(e.w), ZOf(1))
    [] e.f = "MinT" -> R(e) = IF e.sg THEN ZNeg(ZPow2(e.w - 1)) ELSE Z0
    [] e.f = "SizeT" -> R(e) = ZOf(e.w)
    [] e.f = "ByteSizeT" -> R(e) = ZOf(e.w \div 8)
    [] e.f = "IsSigned" -> e.b = e.sg
    [] e.f = "IsPowerOfTwo" -> e.b = IsPow2(X(e))
    [] e.f = "Log2" -> IF X(e)[1] <= 0 THEN e.st = "panic"
                       ELSE e.st = "ok" /\ R(e)[1] >= 0 /\ LET k == e.ri IN ZLe(ZPow2(k), X(e)) /\ ZLt(X(e), ZPow2(k + 1))
    [] e.f = "DivRound" -> IsDivRound(X(e), Y(e), R(e))
    [] e.f = "DivRoundBits" -> IsNearest(X(e), ZPow2(e.k), R(e))
    [] e.f = "Min" -> R(e) = MinZ(Args(e))
    [] e.f = "Max" -> R(e) = MaxZ(Args(e))
    [] e.f = "MinN" -> R(e) = IF Len(e.a) = 0 THEN Z0 ELSE MinZ(Args(e))
    [] e.f = "MaxN" -> R(e) = IF Len(e.a) = 0 THEN Z0 ELSE MaxZ(Args(e))
    [] e.f = "Sqrt" -> IF X(e)[1] < 0 THEN e.st = "panic"
                       ELSE e.st = "ok" /\ ZLe(ZMul(R(e), R(e)), X(e)) /\ LET q == ZAdd(R(e), ZOf(1)) IN ZLt(X(e), ZMul(q, q))
    [] e.f = "ModInverse" ->
         IF e.small THEN
           LET x == e.x  m == e.m IN
           IF m <= 0 \/ GCDi(Abs(x), m) # 1 THEN e.st = "panic"
           ELSE e.st = "ok" /\ (IF m = 1 THEN e.ri = 0 ELSE e.ri >= 1 /\ e.ri < m /\ (((x % m) * e.ri) % m) = 1)
         ELSE \* large operands, coprime by construction: x r = 1 + k m
           e.st = "ok" /\ Congruent(ZMul(X(e), R(e)), ZOf(1), Y(e), A(e, 3)) /\ ZLe(Z0, R(e)) /\ ZLt(R(e), Y(e))
    [] e.f = "ModExp" ->
         IF e.small THEN
           LET x == e.x  y == e.y  m == e.m IN
           IF m <= 0 \/ (y < 0 /\ GCDi(Abs(x), m) # 1) THEN e.st = "panic"
           ELSE e.st = "ok" /\ e.ri >= 0 /\ e.ri < m /\
                (IF y >= 0 THEN e.ri = PowMod(x % m, y, m) ELSE (PowMod(x % m, 0 - y, m) * e.ri) % m = 1 % m)
         ELSE \* x^2 or x^3 of a large operand with certificates
           e.st = "ok" /\ Congruent(IF e.y = 2 THEN ZMul(X(e), X(e)) ELSE ZMul(X(e), A(e, 4)), R(e), Y(e), A(e, 3))
             /\ (e.y = 3 => Congruent(ZMul(X(e), X(e)), A(e, 4), Y(e), A(e, 5)))
    [] OTHER -> FALSE

(* ---- vectors of words ---- *)
VW(e, f(_, _)) == Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.r[i] = f(i, e.w)
WordOp(e, i) ==
  LET w == e.w IN
  CASE e.f = "Add" -> WAdd(e.a[i], e.b[i], w)
    [] e.f = "Sub" -> WSub(e.a[i], e.b[i], w)
    [] e.f = "Neg" -> WNeg(e.a[i], w)
    [] e.f = "ScalarMul" -> WMul(e.c, e.a[i], w)
    [] e.f = "ScalarMulAdd" -> WAdd(e.o[i], WMul(e.c, e.a[i], w), w)
    [] e.f = "ScalarMulSub" -> WSub(e.o[i], WMul(e.c, e.a[i], w), w)
    [] e.f = "Mul" -> WMul(e.a[i], e.b[i], w)
    [] e.f = "MulAdd" -> WAdd(e.o[i], WMul(e.a[i], e.b[i], w), w)
    [] e.f = "MulSub" -> WSub(e.o[i], WMul(e.a[i], e.b[i], w), w)
    [] e.f = "Cast" -> WTrunc(e.a[i], w)
    [] OTHER -> <<>>

RECURSIVE DotCols(_, _, _, _)
DotCols(a, b, i, w) == IF i > Len(a) THEN WZero ELSE WAdd(WMul(a[i], b[i], w), DotCols(a, b, i + 1, w), w)

(* ---- vectors of small integers stored in floating-point (or complex) numbers ---- *)
FOp(e, i) ==
  CASE e.f = "Add" -> e.a[i] + e.b[i]
    [] e.f = "Sub" -> e.a[i] - e.b[i]
    [] e.f = "Neg" -> 0 - e.a[i]
    [] e.f = "ScalarMul" -> e.c * e.a[i]
    [] e.f = "ScalarMulAdd" -> e.o[i] + e.c * e.a[i]
    [] e.f = "ScalarMulSub" -> e.o[i] - e.c * e.a[i]
    [] e.f = "Mul" -> e.a[i] * e.b[i]
    [] e.f = "MulAdd" -> e.o[i] + e.a[i] * e.b[i]
    [] e.f = "MulSub" -> e.o[i] - e.a[i] * e.b[i]
    [] OTHER -> e.a[i]
CMulI(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
CAddI(x, y) == <<x[1] + y[1], x[2] + y[2]>>
CSubI(x, y) == <<x[1] - y[1], x[2] - y[2]>>
COp(e, i) ==
  CASE e.f = "Add" -> CAddI(e.a[i], e.b[i])
    [] e.f = "Sub" -> CSubI(e.a[i], e.b[i])
    [] e.f = "Neg" -> CSubI(<<0, 0>>, e.a[i])
    [] e.f = "ScalarMul" -> CMulI(e.c, e.a[i])
    [] e.f = "ScalarMulAdd" -> CAddI(e.o[i], CMulI(e.c, e.a[i]))
    [] e.f = "ScalarMulSub" -> CSubI(e.o[i], CMulI(e.c, e.a[i]))
    [] e.f = "Mul" -> CMulI(e.a[i], e.b[i])
    [] e.f = "MulAdd" -> CAddI(e.o[i], CMulI(e.a[i], e.b[i]))
    [] e.f = "MulSub" -> CSubI(e.o[i], CMulI(e.a[i], e.b[i]))
    [] OTHER -> <<0, 0>>

RECURSIVE RevBits(_, _)
RevBits(x, k) == IF k = 0 THEN 0 ELSE (x % 2) * 2 ^ (k - 1) + RevBits(x \div 2, k - 1)
RECURSIVE Lg(_)
Lg(n) == IF n <= 1 THEN 0 ELSE 1 + Lg(n \div 2)

(* ---- vectors of plain integers: rearrangements ---- *)
RearrOK(e) ==
  LET n == Len(e.a) IN
  e.guard /\
  CASE e.f = "Rotate" -> e.st = "ok" /\ Len(e.r) = n /\ \A i \in 1..n : e.r[((i - 1 + e.l) % n) + 1] = e.a[i]
    [] e.f = "Reverse" -> Len(e.r) = n /\ \A i \in 1..n : e.r[n + 1 - i] = e.a[i]
    [] e.f = "BitReverse" -> Len(e.r) = n /\ \A i \in 0..(n - 1) : e.r[RevBits(i, Lg(n)) + 1] = e.a[i + 1]
    [] e.f = "Copy" -> e.r = e.a /\ ~e.shared
    [] e.f = "Fill" -> Len(e.r) = n /\ \A i \in 1..n : e.r[i] = e.c
    [] e.f = "Cast" -> e.r = e.a
    [] e.f = "Equals" -> e.eq = (e.a = e.b)
    [] e.f = "Float4" -> \* complex numbers <-> interleaved blocks of four
         /\ Len(e.r) = 2 * n /\ n % 4 = 0
         /\ \A i \in 0..(n - 1) : /\ e.r[8 * (i \div 4) + (i % 4) + 1] = e.a[i + 1][1]
                                 /\ e.r[8 * (i \div 4) + 4 + (i % 4) + 1] = e.a[i + 1][2]
    [] OTHER -> FALSE

VecOK(e) ==
  /\ e.st = "ok"
  /\ e.guard                                  \* nothing outside the destination was written
  /\ IF e.f = "Dot" THEN e.r[1] = DotCols(e.a, e.b, 1, e.w)
     ELSE Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.r[i] = WordOp(e, i)
FVecOK(e) ==
  /\ e.st = "ok" /\ e.guard
  /\ IF e.f = "Dot" THEN e.r[1] = SumF(LAMBDA i : e.a[i] * e.b[i], 1, Len(e.a))
     ELSE Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.r[i] = FOp(e, i)
CVecOK(e) ==
  /\ e.st = "ok" /\ e.guard
  /\ Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.r[i] = COp(e, i)

OK(e) ==
  CASE e.ev = "num" -> NumOK(e)
    [] e.ev = "vec" -> VecOK(e)
    [] e.ev = "fvec" -> FVecOK(e)
    [] e.ev = "cvec" -> CVecOK(e)
    [] e.ev = "rearr" -> RearrOK(e)
    [] e.ev = "mismatch" -> e.st = "panic"      \* vectors of different lengths are rejected
    [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ (OK(Trace[l]) = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
