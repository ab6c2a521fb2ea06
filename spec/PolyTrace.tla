------------------------------ MODULE PolyTrace ------------------------------
(* Polynomial arithmetic in Z_{2^w}[X]/(X^N+1): every recorded call of the    *)
(* polynomial evaluator returns the exact ring element (or, for products and   *)
(* transforms of full-size coefficients, one within the stated rounding error).*)
EXTENDS Ring, Words, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

(* ---- ring operations on words ---- *)
PAdd(a, b, w) == [i \in 1..Len(a) |-> WAdd(a[i], b[i], w)]
PSub(a, b, w) == [i \in 1..Len(a) |-> WSub(a[i], b[i], w)]
PNeg(a, w) == [i \in 1..Len(a) |-> WNeg(a[i], w)]
PScale(c, a, w) == [i \in 1..Len(a) |-> WMul(c, a[i], w)]
PMono(d, a, w) ==
  LET n == Len(a)
      s == d % (2 * n)
  IN [i \in 1..n |-> LET j == (i - 1 - s) % (2 * n) IN IF j < n THEN a[j + 1] ELSE WNeg(a[j - n + 1], w)]
POne(n) == [i \in 1..n |-> IF i = 1 THEN <<1, 0, 0, 0, 0, 0>> ELSE WZero]
\* a(X^d) for odd d: coefficient i moves to exponent i d
PPerm(d, a, w) ==
  LET n == Len(a)
      dd == d % (2 * n)
      inv == CHOOSE e \in 1..(2 * n - 1) : (e * dd) % (2 * n) = 1
  IN [i \in 1..n |-> LET j == ((i - 1) * inv) % (2 * n) IN IF j < n THEN a[j + 1] ELSE WNeg(a[j - n + 1], w)]
PMul(a, b, w) ==
  LET n == Len(a)
      nz == SelectSeq([i \in 1..n |-> i], LAMBDA i : a[i] # WZero)
      m == Len(nz)
      RECURSIVE Acc(_, _, _)
      Acc(k, t, s) ==
        IF t > m THEN s
        ELSE LET i == nz[t]
                 j == k - (i - 1)
             IN Acc(k, t + 1, IF j >= 1 THEN WAdd(s, WMul(a[i], b[j], w), w) ELSE WSub(s, WMul(a[i], b[j + n], w), w))
  IN [k \in 1..n |-> Acc(k, 1, WZero)]

(* ---- meaning of the evaluator's functions: <<ring operation, -1 | 0 | 1>>,
        the second component says whether the result replaces the destination
        or is added to / subtracted from it ---- *)
Sem(f) ==
  CASE f \in {"AddPoly", "AddFFTPoly"} -> <<"add", 0>>
    [] f \in {"SubPoly", "SubFFTPoly"} -> <<"sub", 0>>
    [] f \in {"NegPoly", "NegFFTPoly"} -> <<"neg", 0>>
    [] f \in {"ScalarMulPoly", "FloatMulFFTPoly"} -> <<"smul", 0>>
    [] f \in {"ScalarMulAddPoly", "FloatMulAddFFTPoly"} -> <<"smul", 1>>
    [] f \in {"ScalarMulSubPoly", "FloatMulSubFFTPoly"} -> <<"smul", -1>>
    [] f = "CmplxMulFFTPoly" -> <<"cmul", 0>>
    [] f = "CmplxMulAddFFTPoly" -> <<"cmul", 1>>
    [] f = "CmplxMulSubFFTPoly" -> <<"cmul", -1>>
    [] f \in {"MulPoly", "ShortFFTPolyMulPoly", "FFTPolyMulPoly", "MulFFTPoly", "PolyMulFFTPoly"} -> <<"mul", 0>>
    [] f \in {"MulAddPoly", "ShortFFTPolyMulAddPoly", "FFTPolyMulAddPoly", "MulAddFFTPoly", "PolyMulAddFFTPoly"} -> <<"mul", 1>>
    [] f \in {"MulSubPoly", "ShortFFTPolyMulSubPoly", "FFTPolyMulSubPoly", "MulSubFFTPoly", "PolyMulSubFFTPoly"} -> <<"mul", -1>>
    [] f = "MonomialMulPoly" -> <<"mono", 0>>
    [] f = "MonomialMulAddPoly" -> <<"mono", 1>>
    [] f = "MonomialMulSubPoly" -> <<"mono", -1>>
    [] f \in {"PermutePoly", "PermuteFFTPoly"} -> <<"perm", 0>>
    [] f \in {"PermuteAddPoly", "PermuteAddFFTPoly"} -> <<"perm", 1>>
    [] f \in {"PermuteSubPoly", "PermuteSubFFTPoly"} -> <<"perm", -1>>
    [] f \in {"FwdFFT", "InvFFT", "InvFFTUnsafe"} -> <<"id", 0>>
    [] f \in {"FwdFFTAdd", "InvFFTAdd", "InvFFTAddUnsafe"} -> <<"id", 1>>
    [] f \in {"FwdFFTSub", "InvFFTSub", "InvFFTSubUnsafe"} -> <<"id", -1>>
    [] f = "MonomialFwdFFT" -> <<"xd", 0>>
    [] f = "MonomialSubOneFwdFFT" -> <<"xd1", 0>>
    [] f = "MonomialFwdFFTMul" -> <<"mono", 0>>
    [] f = "MonomialSubOneFwdFFTMul" -> <<"mono1", 0>>
    [] OTHER -> <<"none", 0>>

Val(e, s) ==
  LET w == e.w  n == Len(e.a) IN
  CASE s = "add" -> PAdd(e.a, e.b, w)
    [] s = "sub" -> PSub(e.a, e.b, w)
    [] s = "neg" -> PNeg(e.a, w)
    [] s = "smul" -> PScale(e.c, e.a, w)
    \* the transform evaluates at roots of X^(N/2) = i
    [] s = "cmul" -> PAdd(PScale(e.c, e.a, w), PMono(n \div 2, PScale(e.ci, e.a, w), w), w)
    [] s = "mul" -> PMul(e.b, e.a, w)
    [] s = "mono" -> PMono(e.d, e.a, w)
    [] s = "perm" -> PPerm(e.d, e.a, w)
    [] s = "id" -> e.a
    [] s = "mono1" -> PSub(PMono(e.d, e.a, w), e.a, w)
    [] s = "xd" -> PMono(e.d, POne(n), w)
    [] s = "xd1" -> PSub(PMono(e.d, POne(n), w), POne(n), w)
    [] OTHER -> <<>>

Result(e) ==
  LET s == Sem(e.f)
      v == Val(e, s[1])
  IN IF s[2] = 0 THEN v ELSE IF s[2] = 1 THEN PAdd(e.o, v, e.w) ELSE PSub(e.o, v, e.w)

\* x and y agree up to an error of at most 2^tol (cyclically)
Near(x, y, w, tol) ==
  LET d == WSub(x, y, w)
      m == IF WNegative(d, w) THEN WNeg(d, w) ELSE d
  IN ZLe(ZMk(1, m), ZPow2(tol))

PermEven(e) == Sem(e.f)[1] = "perm" /\ e.d % 2 = 0

PolyOK(e) ==
  IF PermEven(e) THEN e.st = "panic"
  ELSE
    /\ e.st = "ok" /\ e.guard /\ Len(e.a) = e.N
    /\ IF e.tol < 0 THEN e.r = Result(e)
       ELSE LET x == Result(e) IN Len(e.r) = Len(x) /\ \A i \in 1..Len(x) : Near(e.r[i], x[i], e.w, e.tol)

(* Single coefficients of a product with a sparse polynomial b of a polynomial of large rank:
   coefficient j of a X^d is a_{j-d}, or -a_{j-d+N} when the exponent wraps around. *)
AtOK(e) ==
  LET sem == Sem(e.f)
      Term(s, k) == LET d == e.b[k][1] IN
        IF s.j >= d THEN WMul(s.as[k][2], e.b[k][2], e.w) ELSE WNeg(WMul(s.as[k][2], e.b[k][2], e.w), e.w)
      RECURSIVE Sum(_, _)
      Sum(s, k) == IF k = 0 THEN WZero ELSE WAdd(Sum(s, k - 1), Term(s, k), e.w)
      Want(s) == LET v == Sum(s, Len(e.b)) IN IF sem[2] = 0 THEN v ELSE IF sem[2] = 1 THEN WAdd(s.o, v, e.w) ELSE WSub(s.o, v, e.w)
  IN /\ sem[1] \in {"mul", "id", "mono"} /\ e.same
     /\ \A t \in 1..Len(e.sm) : LET s == e.sm[t] IN
          /\ \A k \in 1..Len(e.b) : s.as[k][1] = (s.j - e.b[k][1]) % e.N
          /\ IF e.tol < 0 THEN s.r = Want(s) ELSE Near(s.r, Want(s), e.w, e.tol)

IsPow2I(n) == n \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
MetaOK(e) ==
  CASE e.f = "New" -> (e.st = "ok") = (IsPow2I(e.N) /\ e.N >= 16) /\ (e.st = "ok" => e.rank = e.N /\ Len(e.r) = e.N /\ \A i \in 1..e.N : e.r[i] = 0)
    [] e.f = "From" -> e.st = "ok" /\ Len(e.r) = e.N /\ ~e.shared /\ \A i \in 1..e.N : e.r[i] = IF i <= Len(e.a) THEN e.a[i] ELSE 0
    [] e.f = "Copy" -> e.st = "ok" /\ e.r = e.a /\ ~e.shared
    [] e.f = "Clear" -> e.st = "ok" /\ Len(e.r) = Len(e.a) /\ \A i \in 1..Len(e.a) : e.r[i] = 0
    [] e.f = "Equals" -> e.st = "ok" /\ e.eq = (e.a = e.b)
    [] e.f = "Approx" -> e.st = "ok" /\ e.eq = (\A i \in 1..Len(e.a) : Abs(e.a[i] - e.b[i]) <= e.N)
    [] OTHER -> FALSE

OK(e) ==
  CASE e.ev = "poly" -> PolyOK(e)
    [] e.ev = "at" -> AtOK(e)
    [] e.ev = "meta" -> MetaOK(e)
    [] e.ev = "mismatch" -> e.st = "panic"
    [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ (OK(Trace[l]) = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
