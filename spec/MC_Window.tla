------------------------------ MODULE MC_Window ------------------------------
(* Design model of the margins of programmable bootstrapping.  A ciphertext of message m (any    *)
(* residue modulo 2 P) stands for the position m L / P of a negacyclic table with 2 L positions;   *)
(* switching the modulus moves each of its H + 1 words by at most half a position times Cnt (the     *)
(* words of a many-table rotation are multiples of Cnt), and position k reads the entry of the        *)
(* message whose rounding interval contains k (either neighbour, within one position of a boundary     *)
(* that is not an integer).  Checked for every shape in the box, every message and every sequence        *)
(* of rounding errors: where the margin rule holds, every allowed table answers f(m), or -f(m - P)        *)
(* for the upper half, and the answer never depends on the choice at a boundary.                            *)
EXTENDS Noise, TLC
CONSTANTS MaxP, MaxL, MaxH, Cnts, Slack
VARIABLES p, L, h, m, k2, left, cnt
vars == <<p, L, h, m, k2, left, cnt>>
\* the margin rule used by the programs of the other specifications
Rule == Margin(L, p, h, cnt)
Boxed == Slack => L + p > cnt * p * (h + 1)
\* exact position times 2 p is 2 m L; k2 is 2 p times the position reached so far (one rounding per word)
Init == /\ p \in 2..MaxP /\ L \in {x \in 2..MaxL : x % 2 = 0} /\ h \in 0..MaxH /\ cnt \in Cnts
        /\ L % cnt = 0 /\ (IF Slack THEN Boxed /\ ~Rule ELSE Rule)
        /\ m \in 0..(2 * p - 1) /\ k2 = 2 * m * L /\ left = h + 1
\* a rounding error of at most cnt/2 positions; extreme and zero errors suffice, the last one lands on an integer
Round == left > 1 /\ (\E d \in {0 - 1, 0, 1} : k2' = k2 + d * p * cnt) /\ left' = left - 1 /\ UNCHANGED <<p, L, h, m, cnt>>
Land == left = 1 /\ (\E k \in ((k2 - p * cnt) \div (2 * p))..((k2 + p * cnt) \div (2 * p)) : Abs(2 * p * k - k2) <= p * cnt /\ k2' = 2 * p * k)
        /\ left' = 0 /\ UNCHANGED <<p, L, h, m, cnt>>
Next == Round \/ Land
Spec == Init /\ [][Next]_vars
\* entries allowed at position k of [0, L)
Near(k) == LET hi == (2 * k * p + L) \div (2 * L) IN
  IF L % (2 * p) = 0 THEN {hi}
  ELSE {x \in {hi - 1, hi, hi + 1} : x >= 0 /\ x <= p /\ 2 * k * p + 2 * p >= (2 * x - 1) * L /\ 2 * k * p - 2 * p < (2 * x + 1) * L}
\* symbolic values: <<i, sign>> stands for +f(i) or -f(i)
Val(x, neg) == IF x < p THEN <<x, neg>> ELSE <<0, ~neg>>
Answers(k) == LET t == k % (2 * L) IN IF t < L THEN {Val(x, FALSE) : x \in Near(t)} ELSE {Val(x, TRUE) : x \in Near(t - L)}
Right == left = 0 => Answers(k2 \div (2 * p)) = {Val(m % p, m >= p)}
=============================================================================
