------------------------------ MODULE KeyTrace ------------------------------
(* Generated key material.  A key object is announced with the plain secrets it  *)
(* must encrypt; its rows follow, each with its exact phase.  The specification   *)
(* computes the content of every row, requires every row of the object to be       *)
(* there, in order, and every phase to be the content times the precision of its   *)
(* gadget level, up to fresh noise.  How the rows were produced (one worker, many   *)
(* workers, any schedule) must not matter: nothing else is accepted.                 *)
EXTENDS Noise, Words, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, o, r                \* o: the announced object (its line, 0 = none), r: rows seen so far

ZWordOf(z, w) == WTrunc([i \in 1..6 |-> At(z[2], i)], w)
WLen(a) == LET T == {i \in 1..6 : a[i] # 0} IN IF T = {} THEN 0 ELSE LET t == CHOOSE i \in T : \A j \in T : j <= i IN 11 * (t - 1) + BitLen(a[t])
WDist(x, y, w) == LET d == WSub(x, y, w) IN IF WNegative(d, w) THEN WNeg(d, w) ELSE d

Comps(e) == IF e.kind \in {"brk", "fbrk", "ggsw"} THEN 1 + e.rank ELSE 1
Dim(e) == IF e.kind = "lksk" THEN 1 ELSE e.N
Count(e) == e.n * Comps(e) * e.lv
Index(e, k) == <<k \div (Comps(e) * e.lv), (k \div e.lv) % Comps(e), k % e.lv>>

\* X^a * p in Z[X]/(X^N + 1), any integer a
Rot(p, a) == LET N == Len(p)  t == a % (2 * N) IN
  [i \in 1..N |-> LET s == (i - 1 - t) % (2 * N) IN IF s < N THEN p[s + 1] ELSE -p[s - N + 1]]
Unit(N) == [i \in 1..N |-> IF i = 1 THEN 1 ELSE 0]
\* a * b in Z[X]/(X^N + 1)
RECURSIVE MulSum(_, _, _, _)
MulSum(a, b, k, i) == IF i > Len(a) THEN 0 ELSE LET j == k - i + 1 IN
  (IF j >= 1 THEN a[i] * b[j] ELSE -(a[i] * b[j + Len(a)])) + MulSum(a, b, k, i + 1)
PolyMul(a, b) == [k \in 1..Len(a) |-> MulSum(a, b, k, 1)]
KeyPoly(e, j) == IF j = 0 THEN Unit(e.N) ELSE e.glwe[j]
Content(e, i, j) ==
  CASE e.kind = "brk"  -> [k \in 1..e.N |-> e.lwe[i + 1] * KeyPoly(e, j)[k]]
    [] e.kind = "fbrk" -> Rot(KeyPoly(e, j), e.lwe[i + 1])
    [] e.kind = "ggsw" -> PolyMul(e.glwe[i + 1], KeyPoly(e, j))
    [] e.kind = "lksk" -> <<e.lwe[i + 1]>>
    [] OTHER           -> e.glwe[i + 1]

Fresh(e) == LET f == MaxI(e.ls, 0) + 5 IN
  IF e.kind = "lksk" THEN f ELSE MaxI(f + (IF e.kind = "uni" THEN 1 ELSE 0), IF e.logq = 64 THEN 11 + (BitLen(e.N) - 1) + 4 ELSE 2) + 1

\* Constant of a uni-encryption: messages are reduced modulo p, polynomials are taken as they are.
UConst(e) == [i \in 1..e.N |-> IF i > Len(e.c) THEN 0 ELSE IF e.sub = "" THEN e.c[i] % e.p ELSE e.c[i]]
\* Decryption reads the most significant level.
UDecOK(e) ==
  /\ e.st = "ok" /\ (e.keep = 0 => Len(e.dec) = e.N)
  /\ LET c == UConst(e) IN
     \A i \in 1..Len(e.dec) : e.dec[i] = IF i > e.N THEN e.keep ELSE IF e.dsub = "" THEN (c[i] % (2 ^ e.lb)) % e.p ELSE c[i] % (2 ^ e.lb)

OpenOK(e) ==
  /\ e.how = "UniEncrypt" => e.glwe[1] = UConst(e)
  /\ o = 0 /\ e.same = 1 /\ e.rows = (IF e.kind = "gksk" /\ e.how = "GenCRSPublicKey" THEN 1 ELSE e.n)
  /\ e.kind \in {"brk", "fbrk"} => Len(e.lwe) = e.n /\ Len(e.glwe) = e.rank
  /\ e.kind = "lksk" => Len(e.lwe) = e.n
  /\ e.kind = "ggsw" => Len(e.glwe) = e.n /\ e.n = e.rank
  /\ e.kind \in {"gksk", "uni"} => Len(e.glwe) = e.n
  /\ e.kind = "uni" => \A k \in 1..e.N : e.glwe[2][k] \in {0, 1}
  /\ e.kind = "brk" => \A k \in 1..e.n : e.lwe[k] \in {0, 1}
RowOK(e, x) ==
  LET p == Index(e, r)
      c == Content(e, p[1], p[2])
      b == ZWordOf(ZPow2(e.logq - e.lb * (x.k + 1)), e.logq)
  IN /\ r < Count(e) /\ p = <<x.i, x.j, x.k>> /\ Len(x.w) = Dim(e)
     /\ \A k \in 1..Dim(e) : WLen(WDist(x.w[k], WMul(WOf(c[k], e.logq), b, e.logq), e.logq)) <= Fresh(e)

Step(e) ==
  CASE e.ev = "keyopen"  -> OpenOK(e) /\ o' = l /\ r' = 0
    [] e.ev = "row"      -> o # 0 /\ RowOK(Trace[o], e) /\ r' = r + 1 /\ o' = o
    [] e.ev = "keyclose" -> o # 0 /\ r = Count(Trace[o]) /\ o' = 0 /\ r' = 0
    [] e.ev = "use"      -> o = 0 /\ e.got = (e.m + e.a) % e.p /\ UNCHANGED <<o, r>>
    [] e.ev = "udec"     -> o = 0 /\ UDecOK(e) /\ UNCHANGED <<o, r>>
    [] OTHER             -> FALSE /\ UNCHANGED <<o, r>>

TInit == l = 1 /\ o = 0 /\ r = 0
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, o, r>>
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
