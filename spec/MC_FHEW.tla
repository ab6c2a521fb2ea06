------------------------------- MODULE MC_FHEW -------------------------------
(* Design model of the windowed blind rotation over automorphisms.  The accumulator is        *)
(* T(X^c) X^e; an external product by key element j adds s_j to e; an automorphism of index d  *)
(* multiplies both c and e.  Every odd residue of Z_2N is 5^k or -5^k; the words of the         *)
(* ciphertext are visited by decreasing k, first those of the negative coset, and at most        *)
(* Window automorphisms of index 5 are merged into one of index 5^t (one key per t <= Window,     *)
(* and one for -5).  Checked for every ciphertext and key: the walk only uses keys that exist,     *)
(* it ends, and it ends at T(X) X^(b + sum a_j s_j).                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Dim, Windows, MaxKey
ASSUME N \in {4, 8, 16} /\ Windows \subseteq 1..(N \div 2)
M == 2 * N
Keys == (0 - MaxKey)..MaxKey
RECURSIVE P5(_)
P5(k) == IF k = 0 THEN 1 ELSE (5 * P5(k - 1)) % M
Odd == {x \in 0..(M - 1) : x % 2 = 1}
Log(x) == CHOOSE k \in 0..(N \div 2 - 1) : P5(k) = x % M \/ P5(k) = (0 - x) % M
Neg(x) == P5(Log(x)) # x % M
VARIABLES a, b, s, win, phase, i, skip, todo, c, e, used
vars == <<a, b, s, win, phase, i, skip, todo, c, e, used>>
Words(ph, k) == {j \in 1..Dim : Log(a[j]) = k /\ Neg(a[j]) = (ph = "neg")}
Init == /\ a \in [1..Dim -> Odd] /\ b \in {1, N + 3} /\ s \in [1..Dim -> Keys] /\ win \in Windows
        /\ phase = "neg" /\ i = N \div 2 - 1 /\ skip = 0 /\ c = (0 - 5) % M /\ e = (0 - 5 * b) % M /\ used = {}
        /\ todo = Words("neg", N \div 2 - 1)
Aut(d) == c' = (c * d) % M /\ e' = (e * d) % M
\* pending automorphisms are applied before the words of index i are multiplied in
Flush == todo # {} /\ skip > 0 /\ Aut(P5(skip)) /\ used' = used \cup {skip} /\ skip' = 0 /\ UNCHANGED <<a, b, s, win, phase, i, todo>>
Mul == todo # {} /\ skip = 0 /\ \E j \in todo : /\ \A k \in todo : j <= k
                                                /\ todo' = todo \ {j} /\ e' = (e + s[j]) % M
       /\ UNCHANGED <<a, b, s, win, phase, i, skip, c, used>>
\* one step down
Down == todo = {} /\ i > 0 /\ phase # "end" /\
        LET t == skip + 1 IN
        /\ IF t = win \/ i = 1 THEN Aut(P5(t)) /\ used' = used \cup {t} /\ skip' = 0
                               ELSE skip' = t /\ UNCHANGED <<c, e, used>>
        /\ i' = i - 1
        /\ todo' = Words(phase, i - 1)
        /\ UNCHANGED <<a, b, s, win, phase>>
Turn == todo = {} /\ i = 0 /\ phase = "neg" /\ skip = 0 /\ Aut(0 - 5) /\ used' = used \cup {0} /\ phase' = "pos" /\ i' = N \div 2 - 1
        /\ todo' = Words("pos", N \div 2 - 1) /\ UNCHANGED <<a, b, s, win, skip>>
Finish == todo = {} /\ i = 0 /\ phase = "pos" /\ phase' = "end" /\ UNCHANGED <<a, b, s, win, i, skip, todo, c, e, used>>
Next == Flush \/ Mul \/ Down \/ Turn \/ Finish
Spec == Init /\ [][Next]_vars
RECURSIVE Dot(_)
Dot(k) == IF k = 0 THEN 0 ELSE a[k] * s[k] + Dot(k - 1)
Rotated == phase = "end" => c = 1 /\ e = (b + Dot(Dim)) % M
KeysExist == used \subseteq 0..win
Pending == skip < win
Live == phase = "end" \/ ENABLED Next
=============================================================================
