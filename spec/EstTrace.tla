------------------------------ MODULE EstTrace ------------------------------
(* The error figures that compiled parameters report.  A measured error is an   *)
(* integer in units of 1/64 of the reported deviation; the errors of a thousand  *)
(* modulus switches, key switches or blind rotations under several keys have a   *)
(* second moment near 64^2, and no error is larger than twelve deviations.  When  *)
(* rounding of the binary64 transforms dominates, the figure may be too large,     *)
(* never too small.  The total variance is the sum of its parts, and the failure    *)
(* probability is the Gaussian tail beyond the decoding bound.                       *)
EXTENDS Stats, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

RECURSIVE Tot(_, _)
Tot(v, n) == IF n = 0 THEN 0 ELSE v[n] + Tot(v, n - 1)
RECURSIVE Sq(_, _)
Sq(v, n) == IF n = 0 THEN 0 ELSE v[n] * v[n] + Sq(v, n - 1)
Err(e) ==
  LET n == Len(e.v)  s == Sq(e.v, n) \div n  m == Tot(e.v, n) IN
  /\ n >= 300
  /\ \A i \in 1..n : e.v[i] \in (-768)..768
  /\ s <= 6400                              \* at most 1.25 times the figure
  /\ s >= IF e.kind = "br" /\ e.fft THEN 164 ELSE 2621
  /\ e.kind # "br" => (Abs(m) \div 80) * (Abs(m) \div 80) <= 64 * n

\* 16 times the negative binary logarithm of the probability that a Gaussian is beyond k deviations
GTail == <<0, 26, 71, 137, 223, 332, 463, 616, 792, 991, 1213, 1457, 1725, 2015, 2328, 2665, 3024, 3406, 3811, 4240, 4691, 5165, 5663, 6183, 6727, 7293, 7883, 8495, 9131, 9789, 10471, 11176, 11904, 12655, 13429, 14226, 15046, 15889>>
Fig(e) ==
  /\ e.ms >= 0 /\ e.ks >= 0 /\ e.br >= 0 /\ Abs(e.ms + e.ks + e.br - 10000) <= 2
  /\ LET k == e.u \div 1000 IN
     IF k >= 37 THEN e.lf >= GTail[38] - 1
     ELSE e.lf >= GTail[k + 1] - 1 /\ e.lf <= GTail[k + 2] + 1

OK(e) == CASE e.ev = "err" -> Err(e) [] e.ev = "fig" -> Fig(e) [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ (OK(Trace[l]) = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
