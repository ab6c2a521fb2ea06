------------------------------ MODULE MC_Gadget ------------------------------
(* Design model of gadget decomposition on W-bit words: round to the precision of the gadget,    *)
(* then cut digits from the low end, carrying one up whenever a digit is in the upper half.         *)
(* Checked for every word and every gadget that fits: the digits are balanced and recompose to one    *)
(* of the nearest multiples of the last power (exactly, if the gadget covers the word); digits that     *)
(* satisfy both are the only ones, up to the rounding of ties, so the rule the traces are checked       *)
(* against determines the decomposition.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS W
VARIABLES x, b, lv, u, i, ds
vars == <<x, b, lv, u, i, ds>>
Q == 2 ^ W
Init == /\ x \in 0..(Q - 1) /\ b \in 1..W /\ lv \in 1..W /\ b * lv <= W
        /\ u = (IF b * lv = W THEN x ELSE (x + 2 ^ (W - b * lv - 1)) \div (2 ^ (W - b * lv)))
        /\ i = lv /\ ds = <<>>
\* the digit of level i (the lowest one left); a digit >= B/2 borrows from the next
Cut == LET B == 2 ^ b  d == u % B  up == IF 2 * d >= B THEN 1 ELSE 0 IN
       /\ i > 0 /\ ds' = <<d - up * B>> \o ds /\ u' = (u \div B) + up /\ i' = i - 1 /\ UNCHANGED <<x, b, lv>>
Spec == Init /\ [][Cut]_vars
RECURSIVE Rec(_, _)
Rec(d, k) == IF k > Len(d) THEN 0 ELSE d[k] * 2 ^ (W - k * b) + Rec(d, k + 1)
Dist(y, z) == LET t == (y - z) % Q IN IF 2 * t > Q THEN Q - t ELSE t
Bal(d) == \A k \in 1..Len(d) : 0 - 2 ^ (b - 1) <= d[k] /\ d[k] < 2 ^ (b - 1)
Near(d) == IF b * lv = W THEN Rec(d, 1) % Q = x ELSE 2 * Dist(x, Rec(d, 1) % Q) <= 2 ^ (W - b * lv)
Balanced == i = 0 => Bal(ds)
Closest == i = 0 => Near(ds)
All == [1..lv -> (0 - 2 ^ (b - 1))..(2 ^ (b - 1) - 1)]
Tie == b * lv < W /\ (x + 2 ^ (W - b * lv - 1)) % (2 ^ (W - b * lv)) = 0
Unique == i = 0 => \/ Cardinality({d \in All : Near(d)}) = (IF Tie THEN 2 ELSE 1)
=============================================================================
