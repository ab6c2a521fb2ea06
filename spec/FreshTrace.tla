----------------------------- MODULE FreshTrace -----------------------------
(* Freshness of the randomness of ciphertexts and keys.  Mask words and noise     *)
(* vectors are interned: equal values have equal identifiers, and identifiers are *)
(* handed out in increasing order.  The state is the number of distinct values so *)
(* far; a run is accepted only when every mask word and every noise vector of       *)
(* every object, from whatever encryptor, copy, key generator or goroutine, is a     *)
(* value never seen before in that run.                                               *)
EXTENDS Stats, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

VARIABLE next

AllNew(ids) == \A i \in 1..Len(ids) : ids[i] = next + i - 1
FStep(e) ==
  CASE e.ev = "open"  -> next' = 1
    [] e.ev = "mask"  -> AllNew(e.ids) /\ e.rows > 0 /\ next' = next + Len(e.ids)
    [] e.ev = "err"   -> e.n > 0 /\ e.zero <= e.n \div 4 + 1 /\ AllNew(<<e.id>>) /\ next' = next + 1
    \* the auxiliary secrets of one public-key encryption: binary, balanced, new
    [] e.ev = "aux"   -> /\ e.bad = 0 /\ Len(e.ones) > 0 /\ AllNew(e.ids) /\ next' = next + Len(e.ids)
                         /\ \A i \in 1..Len(e.ones) : LET d == 2 * e.ones[i] - e.N IN d * d <= 64 * e.N
    [] e.ev = "noise" -> Noisy(e) /\ next' = next
    [] OTHER -> FALSE /\ next' = next

TInit == l = 1 /\ next = 1
TNext == l <= Len(Trace) /\ FStep(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, next>>
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
