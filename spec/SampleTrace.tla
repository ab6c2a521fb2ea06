---------------------------- MODULE SampleTrace ----------------------------
(* Support and distribution of the samplers and of sampled keys.  A histogram   *)
(* is accepted when every class is within ten standard deviations (plus a small *)
(* constant) of its expectation; probabilities are in units of 10^-5.             *)
EXTENDS Stats, CDTTab, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

\* |count - n p| <= 10 sqrt(n p) + 12, with p = q / 10^5
Near(count, n, q) ==
  LET e == IF n >= 100000 THEN ((n \div 1000) * q) \div 100 ELSE (n * (q \div 10)) \div 10000
      d == MaxI(0, Abs(count - e) - 12)
  IN d <= 40000 /\ d * d <= 100 * (e + 1)
\* |count - n / k| likewise
NearFrac(count, n, k) == LET e == n \div k  d == MaxI(0, Abs(count - e) - 12) IN d <= 40000 /\ d * d <= 100 * (e + 1)
NearHalf(count, n) == NearFrac(count, n, 2)
Sum(s) == LET RECURSIVE S(_) S(i) == IF i = 0 THEN 0 ELSE s[i] + S(i - 1) IN S(Len(s))

Uni(e) == /\ e.out = 0 /\ Len(e.h) = e.N
          /\ \A i \in 1..e.N : e.h[i] > 0 /\ NearFrac(e.h[i], Sum(e.h), e.N)
Bin(e) == /\ e.bad = 0 /\ Len(e.ones) = e.n
          /\ \A i \in 1..e.n : NearHalf(e.ones[i], e.reps) /\ (e.n > 2 => NearHalf(e.same[i], e.reps))
Blk(e) == /\ e.bad = 0
          /\ \A b \in 1..Len(e.h) : Len(e.h[b]) = e.bs + 1 /\ \A i \in 1..(e.bs + 1) : e.h[b][i] > 0 /\ NearFrac(e.h[b][i], e.reps, e.bs + 1)

One == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 23, 598, 6060, 24173, 38292, 24173, 6060, 598, 23, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
HalfP == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 135, 15731, 68269, 15731, 135, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
\* P(k/4 <= |x| < (k+1)/4) in units of 10^-7
TailP == <<1974127, 1855123, 1638204, 1359442, 1060110, 776851, 534961, 346180, 210513, 120296, 64598, 32597, 15457, 6888, 2884, 1135, 420, 146, 48, 15, 4, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
Gauss(e) ==
  /\ e.out = 0 /\ Sum(e.h) >= e.n
  /\ IF e.sd0 = 1 THEN e.h[14] = Sum(e.h)
     ELSE \A k \in 1..27 : Near(e.h[k], Sum(e.h), IF e.half = 1 THEN HalfP[k] ELSE One[k])
TailOK(e) == /\ e.out = 0 /\ NearFrac(e.pos, e.n, 2)
             /\ \A k \in 1..41 : LET x == ((e.n \div 1000000) * TailP[k]) \div 10  d == MaxI(0, Abs(e.h[k] - x) - 16) IN d <= 40000 /\ d * d <= 64 * (x + 1)
             \* each bin is symmetric: how many of its samples were positive (sd of 2*hp - h is sqrt(h))
             /\ \A k \in 1..41 : LET d == Abs(2 * e.hp[k] - e.h[k]) IN d <= 40000 /\ d * d <= 81 * (e.h[k] + 4)

(* --- sampled keys.  A key is a sequence of words 0/1; its first dim words are   *)
(* the LWE view, block-structured when bs > 1.                                      *)
BlockOK(v, bs) == \A b \in 0..((Len(v) \div bs) - 1) : Cardinality({i \in 1..bs : v[b * bs + i] = 1}) <= 1
Key(e) ==
  /\ Len(e.large) = e.rank * e.N /\ \A i \in 1..Len(e.large) : e.large[i] \in {0, 1}
  /\ e.lwe = SubSeq(e.large, 1, e.dim)
  /\ Len(e.glwe) = e.rank /\ \A r \in 1..e.rank : e.glwe[r] = SubSeq(e.large, (r - 1) * e.N + 1, r * e.N)
  /\ e.fft = e.glwe
  /\ e.def = IF e.order = 0 THEN e.large ELSE e.lwe
  /\ e.bs > 1 => BlockOK(e.lwe, e.bs)
\* many keys of one shape: how often each position of the large key was one
Keys(e) == \A i \in 1..Len(e.ones) :
             IF i <= e.dim /\ e.bs > 1 THEN NearFrac(e.ones[i], e.reps, e.bs + 1) ELSE NearHalf(e.ones[i], e.reps)

OK(e) == CASE e.ev = "uni" -> Uni(e) [] e.ev = "bin" -> Bin(e) [] e.ev = "blk" -> Blk(e) [] e.ev = "gauss" -> Gauss(e)
           [] e.ev = "tail" -> TailOK(e) [] e.ev = "neg" -> e.st = "panic" [] e.ev = "key" -> Key(e) [] e.ev = "keys" -> Keys(e)
           [] e.ev = "cdt" -> /\ e.out <= 2 /\ e.params /\ LET p == CDTP(e.f, e.s) IN \A k \in 1..41 : Near(e.h[k], Sum(e.h), p[k])
           \* the randomness of re-randomizations read in both components: the same in both, new every time
           [] e.ev = "rerand" -> e.a = e.b /\ Cardinality({e.a[i] : i \in 1..Len(e.a)}) = Len(e.a)
           [] e.ev = "lineval" -> e.odd = 0
           [] e.ev = "noise" -> Noisy(e) [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ (OK(Trace[l]) = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
