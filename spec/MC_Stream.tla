------------------------------- MODULE MC_Stream -------------------------------
(* Design model of serialization.  An object is a header (its shape) followed by words; the reader   *)
(* hands over between one byte and everything asked for per call, may return its last bytes together      *)
(* with the end of the stream, and may fail at any point.  ReadFrom asks until the part it is reading is     *)
(* complete.  Checked for every chopping, truncation point and failure: success only with the object that     *)
(* was written and with exactly its bytes consumed (the next object of the stream starts there); failure         *)
(* whenever the stream ends or fails before that; the count returned is the number of bytes taken.                *)
EXTENDS Integers, Sequences
CONSTANTS Sizes, Trail
\* the stream: header byte (number of words), then that many words of two bytes, then Trail bytes of the next object
VARIABLES size, cut, fail, pos, need, part, n, res, got
vars == <<size, cut, fail, pos, need, part, n, res, got>>
Total == 1 + 2 * size
Stream == [i \in 1..(Total + Trail) |-> IF i = 1 THEN size ELSE i]
Avail == IF cut < Total + Trail THEN cut ELSE Total + Trail
Init == /\ size \in Sizes /\ cut \in 0..(1 + 2 * size + Trail) /\ fail \in {0, 1, 2} \cup {cut + 1}
        /\ pos = 0 /\ need = 1 /\ part = "head" /\ n = 0 /\ res = "run" /\ got = <<>>
\* one Read of the underlying reader
Read == /\ res = "run" /\ need > 0 /\ pos < Avail /\ pos + 1 # fail
        /\ \E k \in 1..need : /\ pos + k <= Avail /\ (pos + k < fail \/ pos >= fail)
                              /\ got' = got \o SubSeq(Stream, pos + 1, pos + k) /\ pos' = pos + k /\ need' = need - k /\ n' = n + k
        /\ UNCHANGED <<size, cut, fail, part, res>>
Stop == /\ res = "run" /\ need > 0 /\ (pos >= Avail \/ pos + 1 = fail) /\ res' = "error" /\ UNCHANGED <<size, cut, fail, pos, need, part, n, got>>
Body == /\ res = "run" /\ need = 0 /\ part = "head" /\ part' = "body" /\ need' = 2 * got[1] /\ UNCHANGED <<size, cut, fail, pos, n, res, got>>
Done == /\ res = "run" /\ need = 0 /\ part = "body" /\ res' = "ok" /\ UNCHANGED <<size, cut, fail, pos, need, part, n, got>>
Next == Read \/ Stop \/ Body \/ Done
Spec == Init /\ [][Next]_vars
Exact == res = "ok" => got = SubSeq(Stream, 1, Total) /\ pos = Total /\ n = Total
Truncated == res = "ok" => cut >= Total
Reported == n = pos
Whole == res = "error" => pos < Total
=============================================================================
