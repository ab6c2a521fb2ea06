------------------------------ MODULE CodecTrace ------------------------------
(* Encoding and decoding of messages, gadget decomposition, look-up tables.   *)
(* Values are words (see Words.tla); messages and moduli are big integers      *)
(* {s, m}.  Integer divisions of big numbers come with the quotient as a       *)
(* certificate, which the specification checks.                                *)
EXTENDS Ring, Words, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Z(x) == ZMk(x.s, x.m)
InRange(r, p) == ZLe(Z0, r) /\ ZLt(r, p)
ZWord(z, w) == WTrunc([i \in 1..6 |-> At(z[2], i)], w)         \* non-negative z
ZWordS(z, w) == IF z[1] < 0 THEN WNeg(ZWord(ZNeg(z), w), w) ELSE ZWord(z, w)

(* ---- encoding: m -> (m mod p) scale, and no reduction if p = 0 ---- *)
EncOne(e, i) ==
  LET m == Z(e.m[i])  p == Z(e.p)
      r == IF p = Z0 THEN m ELSE ZSub(m, ZMul(Z(e.k[i]), p))
  IN /\ (p = Z0 \/ InRange(r, p))
     /\ e.r[i] = WMul(ZWordS(r, e.w), e.s, e.w)
EncOK(e) ==
  LET n == MinI(Len(e.m), e.n) IN
  /\ e.st = "ok" /\ Len(e.r) = e.n
  /\ \A i \in 1..n : EncOne(e, i)
  /\ \A i \in (n + 1)..e.n : e.r[i] = WZero        \* short inputs are padded, long ones are cut

(* ---- decoding: v -> round(v / scale) mod p; p = 0 stands for round(Q / scale) ---- *)
DecOne(e, i) ==
  LET v == ZMk(1, e.v[i])  s == ZMk(1, e.s)
      d == ZSub(v, ZMul(Z(e.q[i]), s))                            \* q is the claimed nearest integer
      p0 == Z(e.p)
      p == IF p0 # Z0 THEN p0 ELSE Z(e.pq)
      qp == ZSub(ZPow2(e.w), ZMul(p, s))
      r == Z(e.r[i])
  IN /\ ZLt(ZAbs(ZAdd(d, d)), s)                                  \* (ties are not exercised)
     /\ (p0 # Z0 \/ ZLe(ZAbs(ZAdd(qp, qp)), s))                   \* pq really is round(Q / scale)
     /\ InRange(r, p) /\ Z(e.q[i]) = ZAdd(r, ZMul(Z(e.k[i]), p))
DecOK(e) ==
  /\ e.st = "ok" /\ Len(e.r) = e.n
  /\ \A i \in 1..MinI(e.n, Len(e.v)) : DecOne(e, i)
  /\ \A i \in (Len(e.v) + 1)..e.n : Z(e.r[i]) = ZOf(e.keep)        \* beyond the ring rank nothing is written

(* ---- booleans: true is +Q/8, false is -Q/8; decoding looks at the sign ---- *)
EncBOK(e) == e.r = IF e.b THEN ZWord(ZPow2(e.w - 3), e.w) ELSE WNeg(ZWord(ZPow2(e.w - 3), e.w), e.w)
DecBOK(e) == e.b = ~WNegative(e.v, e.w)

(* ---- gadget decomposition in base 2^lb with lv digits ---- *)
Prec(e) == e.w - e.lb * e.lv
RECURSIVE Recomp(_, _, _, _)
Recomp(ds, i, e, dummy) == IF i > Len(ds) THEN WZero
  ELSE WAdd(WMul(ds[i], ZWord(ZPow2(e.w - i * e.lb), e.w), e.w), Recomp(ds, i + 1, e, dummy), e.w)
Balanced(d, e) ==
  LET z == ZOfWord(d, e.w, TRUE)
      h == ZPow2(e.lb - 1)
  IN ZLe(ZNeg(h), z) /\ ZLt(z, h)
\* cyclic distance of x and y
WDist(x, y, w) == LET d == WSub(x, y, w) IN IF WNegative(d, w) THEN WNeg(d, w) ELSE d
Closest(x, r, e) ==
  LET d == ZMk(1, WDist(x, r, e.w)) IN IF Prec(e) = 0 THEN d = Z0 ELSE ZLe(d, ZPow2(Prec(e) - 1))
DcmpOne(e, x, ds) == /\ Len(ds) = e.lv
                     /\ \A j \in 1..e.lv : Balanced(ds[j], e)
                     /\ Closest(x, Recomp(ds, 1, e, 0), e)
DcmpOK(e) == e.st = "ok" /\ Len(e.d) = Len(e.x) /\ \A i \in 1..Len(e.x) : DcmpOne(e, e.x[i], e.d[i])
RcmpOK(e) == e.st = "ok" /\ Len(e.r) = Len(e.d) /\ \A i \in 1..Len(e.d) : e.r[i] = Recomp(e.d[i], 1, e, 0)
\* gadget parameters: base, level and the precisions of the digits
GadOK(e) ==
  /\ Z(e.base) = ZPow2(e.lb) /\ e.logbase = e.lb /\ e.level = e.lv
  /\ Len(e.lbq) = e.lv /\ \A i \in 1..e.lv : e.lbq[i] = e.w - i * e.lb /\ Z(e.bq[i]) = ZPow2(e.w - i * e.lb)
  /\ e.first = e.w - e.lb /\ e.last = e.w - e.lv * e.lb
  /\ Z(e.firstq) = ZPow2(e.w - e.lb) /\ Z(e.lastq) = ZPow2(e.w - e.lv * e.lb)

(* ---- look-up tables: position k of a table of size L stands for the phase
        k / (2 L), i.e. for the message round(k p / L); beyond the last message
        the table continues negacyclically ---- *)
LutVal(e, i) == \* encoded value of f(i), i in 0..p-1; i = p is the negacyclic continuation
  LET y(j) == IF e.full THEN e.y[j + 1] ELSE WMul(WOf(e.f[j + 1] % e.pm, e.w), e.s, e.w)
  IN IF i < e.p THEN y(i) ELSE WNeg(y(0), e.w)
\* messages whose rounding interval contains k; when the boundaries of the intervals are not
\* integers a boundary position may belong to either neighbour
Near(e, k) ==
  LET L == e.L  p == e.p
      exact == L % (2 * p) = 0
      hi == (2 * k * p + L) \div (2 * L)                       \* round half up of k p / L
  IN IF exact THEN {hi}
     ELSE {m \in {hi - 1, hi, hi + 1} : /\ m >= 0 /\ m <= p
                                        /\ 2 * k * p + 2 * p >= (2 * m - 1) * L
                                        /\ 2 * k * p - 2 * p < (2 * m + 1) * L}
LutOK(e) ==
  /\ e.st = "ok" /\ Len(e.t) = e.ext
  /\ \A i \in 1..e.ext : Len(e.t[i]) = e.N
  /\ \A k \in 0..(e.L - 1) :
       LET v == e.t[(k % e.ext) + 1][(k \div e.ext) + 1]
       IN \E m \in Near(e, k) : v = LutVal(e, m)

OK(e) ==
  CASE e.ev = "enc" -> EncOK(e)
    [] e.ev = "dec" -> DecOK(e)
    [] e.ev = "encb" -> EncBOK(e)
    [] e.ev = "decb" -> DecBOK(e)
    [] e.ev = "dcmp" -> DcmpOK(e)
    [] e.ev = "rcmp" -> RcmpOK(e)
    [] e.ev = "gad" -> GadOK(e)
    [] e.ev = "lut" -> LutOK(e)
    [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ (OK(Trace[l]) = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
