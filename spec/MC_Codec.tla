------------------------------- MODULE MC_Codec -------------------------------
(* Design model of encoding on W-bit words: scale = round(2^(W-1) / p), a message is (m mod p)    *)
(* scale, decoding is round(v / scale) mod p.  The transitions add encryptions and errors.            *)
(* Checked for every p, every pair of messages and every error: decoding inverts encoding as long as     *)
(* the error stays below half a scale; a sum decodes to the sum modulo p (the padding bit absorbs one      *)
(* carry) as long as the error plus the drift |2^W - 2 p scale| does; booleans decode by sign.               *)
EXTENDS Ring
CONSTANTS W, MaxP
Q == 2 ^ W
DivRound(a, c) == (2 * a + c) \div (2 * c)
VARIABLES p, m1, m2, v, e, n
vars == <<p, m1, m2, v, e, n>>
S == DivRound(Q \div 2, p)
Init == /\ p \in 2..MaxP /\ m1 \in 0..(p - 1) /\ m2 \in 0..(p - 1) /\ n = 0
        /\ v = 0 /\ e = 0
\* an error strictly below what is left of half a scale
Err(b) == {x \in (0 - S)..S : 2 * Abs(e + x) + 2 * b < S}
Put(m) == v' = (v + m * S) % Q
One == n = 0 /\ n' = 1 /\ (\E x \in Err(0) : e' = e + x) /\ Put(m1) /\ UNCHANGED <<p, m1, m2>>
Two == n = 1 /\ n' = 2 /\ (\E x \in {y \in Err(Abs(Q - 2 * p * S)) : Abs(y) <= 1 \/ 2 * Abs(e + y) + 2 * Abs(Q - 2 * p * S) + 2 >= S} : e' = e + x) /\ Put(m2) /\ UNCHANGED <<p, m1, m2>>
Next == One \/ Two
Spec == Init /\ [][Next]_vars
Word == (v + e) % Q
Decode == DivRound(Word, S) % p
\* the decoder sees an unsigned word: a negative error around 0 wraps to 2 p (or near it), which is 0 modulo p
\* only if round(2^W / scale) is a multiple of p
WrapOK == DivRound(Q, S) % p = 0 \/ n = 0
Drift == Abs(Q - 2 * p * S)
Single == n = 1 /\ (v + e >= 0 \/ 2 * Abs(e) + 2 * Drift < S) => Decode = m1
Sum == n = 2 => Decode = (m1 + m2) % p
Bool == LET t == Q \div 8 IN n = 0 => \A x \in (1 - t)..(t - 1) : ((t + x) % Q < Q \div 2) /\ ((0 - t + x) % Q >= Q \div 2)
=============================================================================
