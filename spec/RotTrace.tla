------------------------------- MODULE RotTrace -------------------------------
(* Blind rotation, exactly.  A table T of L torus words is a negacyclic          *)
(* function on Z_2L.  The words of the input ciphertext are switched to Z_2L;     *)
(* their phase ph under the key is the position of the ciphertext, and blind      *)
(* rotation makes coefficient k of the result the entry at ph + k f, where f is   *)
(* the number of interleaved components of the table.  No message, no margin: a   *)
(* rotation by one position too much is a different table.                         *)
EXTENDS Noise, Words, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

WLen(a) == LET S == {i \in 1..6 : a[i] # 0} IN IF S = {} THEN 0 ELSE LET t == CHOOSE i \in S : \A j \in S : j <= i IN 11 * (t - 1) + BitLen(a[t])
WDist(x, y, w) == LET d == WSub(x, y, w) IN IF WNegative(d, w) THEN WNeg(d, w) ELSE d

\* m is one of the nearest multiples of u (nearest odd residue for FHEW) to x * 2L / Q, modulo 2L.
Half2(e) == CASE e.kind = "many" -> e.cnt [] e.kind = "fhew" -> 3 [] OTHER -> 1
SwitchOK(e, x, m) ==
  LET q == e.sh.logq
      d == ZSub(ZMul(ZMk(1, x), ZOf(2 * e.L)), ZMul(ZOf(m), ZPow2(q)))
      lim == ZAdd(ZMul(ZOf(Half2(e)), ZPow2(q - 1)), ZPow2(q - 18))
  IN /\ \E c \in {-1, 0, 1} : ZLe(ZAbs(ZSub(d, ZMul(ZOf(c * 2 * e.L), ZPow2(q)))), lim)
     /\ e.kind = "many" => m % e.cnt = 0
     /\ e.kind = "fhew" => m % 2 = 1

RECURSIVE Dot(_, _, _)
Dot(m, s, i) == IF i > Len(s) THEN 0 ELSE m[i + 1] * s[i] + Dot(m, s, i + 1)
Pos(e) == LET t == e.ms[1] + Dot(e.ms, e.s, 1) IN (IF e.kind = "fhew" THEN 0 - t ELSE t) % (2 * e.L)
Entry(e, i) == LET t == i % (2 * e.L) IN IF t < e.L THEN e.tab[t + 1] ELSE WNeg(e.tab[t - e.L + 1], e.sh.logq)

BR(e) == CASE e.kind = "fhew" -> FHEWBRNz(e.sh)
           [] e.kind = "mk" -> MKNoiseOf(e.sh, 1, 1, e.K, e.rb, e.rl, e.ab, e.al).br
           [] OTHER -> BRNz(e.sh)
KS(e) == KSNz(e.sh, e.sh.ksbase, e.sh.kslevel, IF e.kind = "mk" THEN e.K * e.sh.N ELSE GDim(e.sh))
Nz(e) == IF e.k = "rot" \/ e.sh.order = 0 THEN BR(e) ELSE MaxI(BR(e), KS(e)) + 1

OK(e) ==
  /\ e.ev = "rot" /\ e.st = "ok" /\ e.same = 1
  /\ Len(e.x) = Len(e.s) + 1 /\ Len(e.ms) = Len(e.x) /\ Len(e.tab) = e.L
  /\ \A i \in 1..Len(e.x) : SwitchOK(e, IF e.kind = "fhew" THEN WNeg(e.x[i], e.sh.logq) ELSE e.x[i], e.ms[i])
  /\ Len(e.w) = IF e.k = "rot" THEN e.sh.N ELSE e.cnt
  /\ LET ph == Pos(e)  nz == Nz(e) IN
     \A k \in 1..Len(e.w) : WLen(WDist(e.w[k], Entry(e, ph + (k - 1) * e.f), e.sh.logq)) <= nz

TInit == l = 1
TNext == l <= Len(Trace) /\ (OK(Trace[l]) = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
