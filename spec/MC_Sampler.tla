------------------------------ MODULE MC_Sampler ------------------------------
(* Design model of a buffered stream of randomness.  A sampler keeps Buf bytes of the stream of its  *)
(* seed and a cursor; a draw takes W bytes and refills the buffer when fewer than W are left.  Copies       *)
(* draw a seed of their own.  Checked for every schedule of draws and copies: the draws of one sampler        *)
(* are consecutive, disjoint blocks of its stream (none is repeated, none skipped when W divides Buf),           *)
(* and no block is ever handed out by two samplers.                                                               *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Buf, Widths, MaxDraws, MaxSamplers, Reseed
VARIABLES base, cur, drawn, seeds
vars == <<base, cur, drawn, seeds>>
\* sampler s: stream position of its buffer, cursor in the buffer, list of <<seed, from, to>>
Init == base = <<0>> /\ cur = <<Buf>> /\ drawn = <<<<>>>> /\ seeds = <<1>>
Alive == 1..Len(base)
Total == LET RECURSIVE T(_) T(i) == IF i = 0 THEN 0 ELSE Len(drawn[i]) + T(i - 1) IN T(Len(drawn))
Draw(s, w) == /\ Total < MaxDraws
              /\ LET refill == cur[s] + w > Buf
                     nb == IF refill THEN base[s] + Buf ELSE base[s]
                     c == IF refill THEN 0 ELSE cur[s]
                 IN /\ base' = [base EXCEPT ![s] = nb] /\ cur' = [cur EXCEPT ![s] = c + w]
                    /\ drawn' = [drawn EXCEPT ![s] = Append(@, <<seeds[s], nb + c, nb + c + w>>)]
              /\ UNCHANGED seeds
Copy(s) == /\ Len(base) < MaxSamplers
           /\ base' = Append(base, IF Reseed THEN 0 ELSE base[s]) /\ cur' = Append(cur, IF Reseed THEN Buf ELSE cur[s]) /\ drawn' = Append(drawn, <<>>)
           /\ seeds' = Append(seeds, IF Reseed THEN Len(seeds) + 1 ELSE seeds[s])
Next == \E s \in Alive : Copy(s) \/ \E w \in Widths : Draw(s, w)
Spec == Init /\ [][Next]_vars
Disjoint(x, y) == x[1] # y[1] \/ x[3] <= y[2] \/ y[3] <= x[2]
NoReuse == \A s \in Alive, t \in Alive : \A i \in 1..Len(drawn[s]), j \in 1..Len(drawn[t]) :
              (s # t \/ i # j) => Disjoint(drawn[s][i], drawn[t][j])
InOrder == \A s \in Alive : \A i \in 1..(Len(drawn[s]) - 1) : drawn[s][i][3] <= drawn[s][i + 1][2]
NoSkip == (\A w \in Widths : Buf % w = 0 /\ Cardinality(Widths) = 1) =>
             \A s \in Alive : \A i \in 1..(Len(drawn[s]) - 1) : drawn[s][i][3] = drawn[s][i + 1][2]
=============================================================================
