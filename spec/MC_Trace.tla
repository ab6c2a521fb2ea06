------------------------------- MODULE MC_Trace -------------------------------
(* Design model of the trace and of packing.  p -> p + sigma_d(p), with sigma_d : X -> X^d and       *)
(* d = 2^j + 1 from N + 1 downwards, doubles the coefficients at multiples of the next power of two and   *)
(* removes the others; after log N steps only N times the constant coefficient is left.  Packing          *)
(* monomial shifts of traces puts each constant into its own coefficient.  Checked for every polynomial.    *)
EXTENDS Ring
CONSTANTS N, Q, Down
LogN == BitLen(N) - 1
VARIABLES p, t, j, acc
vars == <<p, t, j, acc>>
Z == [i \in 1..N |-> 0]
Init == p \in [1..N -> 0..(Q - 1)] /\ t = p /\ j = 0 /\ acc = Z
\* odd exponents 3, 5, 9, ..., N + 1 in either order
Exp(k) == IF Down THEN 2 ^ (LogN - k) + 1 ELSE 2 ^ (k + 1) + 1
Step == j < LogN /\ t' = RAdd(Q, t, RPerm(Q, Exp(j), t)) /\ j' = j + 1 /\ UNCHANGED <<p, acc>>
Spec == Init /\ [][Step]_vars
Half == (j < LogN /\ Down) => \A i \in 1..N : t[i] = IF (i - 1) % (2 ^ j) = 0 THEN (2 ^ j * p[i]) % Q ELSE 0
Only == j = LogN => t = [i \in 1..N |-> IF i = 1 THEN (N * p[1]) % Q ELSE 0]
=============================================================================
