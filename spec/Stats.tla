------------------------------- MODULE Stats -------------------------------
EXTENDS Noise
Root(n) == CHOOSE r \in 1..3000 : r * r <= n /\ (r + 1) * (r + 1) > n
(* --- measured noise of fresh rows: n samples, mean in units of the standard      *)
(* deviation / 1000, second moment in units of the variance / 1000.                  *)
Noisy(e) == /\ e.n >= 300
            /\ Abs(e.mean) <= 10000 \div Root(e.n) + 20
            /\ e.var >= 1000 - 14143 \div Root(e.n) - 20 /\ e.var <= 1000 + 14143 \div Root(e.n) + 20
            /\ e.max <= 8500

=============================================================================
