------------------------------- MODULE MC_Share -------------------------------
(* Design model of concurrent use.  Every goroutine runs calls on its own copy of an evaluator: a   *)
(* call reads its inputs and the shared key, works through the scratch buffer of the copy in several      *)
(* steps and stores its result.  Copies share the key (never written) and own their buffers.  Checked       *)
(* for every interleaving: every result is the one of the call run alone, the key is untouched, and           *)
(* two goroutines never touch one buffer.  With SharedBuffer the same model has a counterexample.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Procs, Calls, Steps, SharedBuffer
VARIABLES buf, pc, call, out, key, owner
vars == <<buf, pc, call, out, key, owner>>
P == 1..Procs
B(q) == IF SharedBuffer THEN 1 ELSE q
Input(q, c) == 10 * q + c
F(x, k, n) == x * (k + n) + n       \* one step of a call
RECURSIVE Alone(_, _)
Alone(x, n) == IF n = 0 THEN x ELSE F(Alone(x, n - 1), 3, n)
Init == buf = [b \in P |-> 0] /\ pc = [q \in P |-> 0] /\ call = [q \in P |-> 1] /\ out = [q \in P |-> <<>>] /\ key = 3 /\ owner = [b \in P |-> 0]
Start(q) == /\ call[q] <= Calls /\ pc[q] = 0
            /\ buf' = [buf EXCEPT ![B(q)] = Input(q, call[q])] /\ owner' = [owner EXCEPT ![B(q)] = q]
            /\ pc' = [pc EXCEPT ![q] = 1] /\ UNCHANGED <<call, out, key>>
Work(q) == /\ pc[q] \in 1..Steps
           /\ buf' = [buf EXCEPT ![B(q)] = F(@, key, pc[q])] /\ pc' = [pc EXCEPT ![q] = @ + 1] /\ UNCHANGED <<call, out, key, owner>>
Store(q) == /\ pc[q] = Steps + 1
            /\ out' = [out EXCEPT ![q] = Append(@, buf[B(q)])] /\ pc' = [pc EXCEPT ![q] = 0] /\ call' = [call EXCEPT ![q] = @ + 1]
            /\ UNCHANGED <<buf, key, owner>>
Next == \E q \in P : Start(q) \/ Work(q) \/ Store(q)
Spec == Init /\ [][Next]_vars
AsAlone == \A q \in P : \A c \in 1..Len(out[q]) : out[q][c] = Alone(Input(q, c), Steps)
KeyKept == key = 3
Private == \A q \in P : pc[q] > 0 => owner[B(q)] = q
=============================================================================
