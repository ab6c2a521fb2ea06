------------------------------- MODULE MC_Rotate -------------------------------
(* Design model of blind rotation over interleaved tables.  A table of L = F N words is the      *)
(* polynomial T(Y) of degree below L, kept as F polynomials of degree below N in X = Y^F:          *)
(* component i holds the words i, i + F, ...  A block of key bits is absorbed in one step:           *)
(* acc' = acc + sum over the block of s_i (Y^(a_i) acc - acc), which multiplies by Y^(sum a_i s_i)    *)
(* when at most one bit of the block is one.  Checked for every ciphertext and key: after every        *)
(* block the interleaved accumulator is the table rotated by the words absorbed so far; at the end      *)
(* coefficient k of component 0 is the entry of the table at the position of the phase plus k F.          *)
EXTENDS Ring, TLC
CONSTANTS N, F, Blocks, BS, Q, OneHot
L == N * F
M == 2 * L
Dim == Blocks * BS
VARIABLES a, s, acc, blk
vars == <<a, s, acc, blk>>
Tab == [k \in 1..L |-> (3 * k * k + k + 1) % Q]
Comp(T) == [f \in 1..F |-> [j \in 1..N |-> T[(j - 1) * F + f]]]
Inter(C) == [k \in 1..L |-> C[((k - 1) % F) + 1][((k - 1) \div F) + 1]]
\* Y^d on components, with monomials of the small ring only
Mono(C, d) == LET q == d \div F  r == d % F IN
  [f \in 1..F |-> LET i == f - 1 IN IF i >= r THEN RMono(Q, q, C[i - r + 1]) ELSE RMono(Q, q + 1, C[i - r + F + 1])]
CAdd(C, D) == [f \in 1..F |-> RAdd(Q, C[f], D[f])]
CSub(C, D) == [f \in 1..F |-> RSub(Q, C[f], D[f])]
Ok(k) == ~OneHot \/ \A b \in 0..(Blocks - 1) : Cardinality({i \in 1..BS : k[b * BS + i] = 1}) <= 1
Init == /\ a \in [0..Dim -> 0..(M - 1)] /\ s \in {k \in [1..Dim -> {0, 1}] : Ok(k)}
        /\ acc = Mono(Comp(Tab), M - a[0]) /\ blk = 0
RECURSIVE Sum(_, _)
Sum(i, hi) == IF i > hi THEN acc ELSE LET r == Sum(i + 1, hi) IN IF s[i] = 0 THEN r ELSE CAdd(r, CSub(Mono(acc, M - a[i]), acc))
Step == blk < Blocks /\ acc' = Sum(blk * BS + 1, (blk + 1) * BS) /\ blk' = blk + 1 /\ UNCHANGED <<a, s>>
Spec == Init /\ [][Step]_vars
RECURSIVE Dot(_)
Dot(k) == IF k = 0 THEN a[0] ELSE a[k] * s[k] + Dot(k - 1)
Entry(i) == LET t == i % M IN IF t < L THEN Tab[t + 1] ELSE (0 - Tab[t - L + 1]) % Q
Absorbed == Inter(acc) = RMono(Q, 0 - Dot(blk * BS), Tab)
Position == blk = Blocks => \A k \in 0..(N - 1) : acc[1][k + 1] = Entry(Dot(Dim) + k * F)
=============================================================================
