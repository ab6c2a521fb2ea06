------------------------------ MODULE EncTrace ------------------------------
(* Encryption and decryption of every ciphertext form.  A row of a ciphertext  *)
(* is what its exact phase under the secret key says: a class v (the phase in   *)
(* units of the scale of the row, modulo a bounded modulus) and the bit length  *)
(* of the distance to it.                                                        *)
EXTENDS Noise, Words, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

ZWordOf(z, w) == WTrunc([i \in 1..6 |-> At(z[2], i)], w)
Plain == {"LWE", "GLWE", "FFTGLWE"}
Scalar == {"LWE", "Lev", "GSW"}
Ggsw == {"GSW", "GGSW", "FFTGGSW"}
Lv(e) == IF e.f \in Plain THEN 1 ELSE e.lv
Comps(e) == IF e.f \in Ggsw THEN 1 + (IF e.f = "GSW" THEN e.dim ELSE e.rank) ELSE 1
Dim(e) == IF e.f \in Scalar THEN 1 ELSE e.N
FErr(e) == IF e.logq = 64 THEN 11 + (BitLen(e.N) - 1) + 4 ELSE 2
Fresh(e) ==
  LET ls == IF e.f \in Scalar THEN e.ls ELSE e.lg
      f == IF e.pub = 1 THEN MaxI(ls, 0) + LogRoot(e.rank * e.N + e.N) + 4 ELSE MaxI(ls, 0) + 5
      fft == e.f \notin Scalar \/ e.pub = 1
  IN IF fft THEN MaxI(f, FErr(e)) + 1 ELSE f

\* The encrypted constant: messages are reduced modulo p; scalars and polynomials are taken as they are.
Const(e) == IF e.sub \in {"", "Plaintext"} THEN RExt(Dim(e), [i \in 1..MinI(Len(e.c), Dim(e)) |-> e.c[i] % e.p]) ELSE RExt(Dim(e), e.c)
\* Integer polynomial encrypted by component j: the constant times the j-th key element.
Sym(x) == LET H == 2 ^ 29 IN ((x + H) % (2 * H)) - H
Comp(e, j) == LET c == Const(e) IN
  IF j = 0 THEN c ELSE IF Dim(e) = 1 THEN <<c[1] * e.key[j][1]>>
  ELSE LET r == RMul(2 ^ 30, e.key[j], c) IN [i \in 1..Len(r) |-> Sym(r[i])]
\* The scale is round(Q / 2p) for messages and the precision of the gadget level otherwise.
ScaleOK(e) == LET d == ZSub(ZMul(ZOf(2 * e.p), ZMk(1, e.sc)), ZPow2(e.logq)) IN ZLe(ZAbs(d), ZOf(e.p))
RowScale(e, i) == IF e.f \in Plain THEN e.sc ELSE ZWordOf(ZPow2(e.logq - e.lb * (i + 1)), e.logq)

WLen(a) == LET T == {i \in 1..6 : a[i] # 0} IN IF T = {} THEN 0 ELSE LET t == CHOOSE i \in T : \A j \in T : j <= i IN 11 * (t - 1) + BitLen(a[t])
WDist(x, y, w) == LET d == WSub(x, y, w) IN IF WNegative(d, w) THEN WNeg(d, w) ELSE d

RowOK(e, r) ==
  LET c == Comp(e, r.j)  sc == RowScale(e, r.i)  f == Fresh(e)
  IN Len(r.w) = Dim(e) /\ \A k \in 1..Dim(e) : WLen(WDist(r.w[k], WMul(WOf(c[k], e.logq), sc, e.logq), e.logq)) <= f

DecWant(e) == LET c == Const(e) IN
  IF e.f \in Plain THEN c
  ELSE IF e.decsub = "" THEN [i \in 1..Dim(e) |-> (c[i] % (2 ^ e.lb)) % e.p]
  ELSE [i \in 1..Dim(e) |-> c[i] % (2 ^ e.lb)]

EdOK(e) ==
  /\ e.st = "ok" /\ e.dst = "ok"
  /\ ScaleOK(e)
  /\ Len(e.rows) = Comps(e) * Lv(e)
  /\ \A k \in 1..Len(e.rows) : e.rows[k].j = (k - 1) \div Lv(e) /\ e.rows[k].i = (k - 1) % Lv(e) /\ RowOK(e, e.rows[k])
  /\ LET w == DecWant(e) IN
     /\ e.keep = 0 => Len(e.dec) = Dim(e)
     /\ \A i \in 1..Len(e.dec) : e.dec[i] = IF i <= Dim(e) THEN w[i] ELSE e.keep
  /\ e.dph <= IF e.f = "LWE" THEN 0 ELSE FErr(e)

(* bits: little-endian two's complement, truncated to n bits *)
BitsOK(e) ==
  /\ e.st = "ok" /\ Len(e.v) = e.n
  /\ \A i \in 1..e.n : e.v[i] = IF WBit(e.m, MinI(i - 1, 63)) = 1 THEN 1 ELSE 7
  /\ e.nb <= IF e.pub = 1 THEN MaxI(MaxI(e.lg, 0) + LogRoot(e.rank * e.N + e.N) + 4, FErr(e)) + 1 ELSE e.ls + 5
  /\ e.dec = WTrunc(e.m, MinI(e.n, 64))
  /\ Cardinality({e.fp[i] : i \in 1..e.n}) = e.n                 \* every bit has a mask of its own

OK(e) == CASE e.ev = "ed" -> EdOK(e) [] e.ev = "bits" -> BitsOK(e) [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ (OK(Trace[l]) = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
