----------------------------- MODULE MC_KeyGen -----------------------------
(* Design model of parallel key generation: one producer, W workers, an           *)
(* unbuffered channel of jobs, a wait group, and the caller.  Every worker owns a  *)
(* copy of the encryptor made before it starts (its private stream of randomness)  *)
(* and the cells it writes are the ones of the jobs it received.                     *)
(* Checked for every schedule: every cell is written exactly once, with a value of   *)
(* its own index and with randomness no other cell used; the generating object is    *)
(* untouched; the caller returns only when everything has been written; it returns.   *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Jobs, Workers
ASSUME Jobs \in Nat /\ Workers \in Nat \ {0}
None == -1
VARIABLES nxt, closed, hand, got, cell, used, finished, returned
vars == <<nxt, closed, hand, got, cell, used, finished, returned>>
W == 1..Workers
J == 0..(Jobs - 1)
Init == nxt = 0 /\ closed = FALSE /\ hand = [w \in W |-> None] /\ got = [w \in W |-> 0] /\ cell = [j \in J |-> <<>>]
        /\ used = {} /\ finished = {} /\ returned = FALSE
\* a send on an unbuffered channel is a rendezvous of the producer and one idle worker
Send(w) == nxt < Jobs /\ hand[w] = None /\ w \notin finished /\ hand' = [hand EXCEPT ![w] = nxt] /\ nxt' = nxt + 1
           /\ UNCHANGED <<closed, got, cell, used, finished, returned>>
Close == nxt = Jobs /\ ~closed /\ closed' = TRUE /\ UNCHANGED <<nxt, hand, got, cell, used, finished, returned>>
\* the worker draws from its own stream (number of draws so far: got) and writes its cell
Write(w) == hand[w] # None
            /\ cell' = [cell EXCEPT ![hand[w]] = Append(@, <<hand[w], w, got[w]>>)]
            /\ used' = used \cup {<<w, got[w]>>} /\ got' = [got EXCEPT ![w] = @ + 1] /\ hand' = [hand EXCEPT ![w] = None]
            /\ UNCHANGED <<nxt, closed, finished, returned>>
Done(w) == closed /\ hand[w] = None /\ w \notin finished /\ finished' = finished \cup {w} /\ UNCHANGED <<nxt, closed, hand, got, cell, used, returned>>
Return == finished = W /\ ~returned /\ returned' = TRUE /\ UNCHANGED <<nxt, closed, hand, got, cell, used, finished>>
Next == Close \/ Return \/ \E w \in W : Send(w) \/ Write(w) \/ Done(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
OnceEach == \A j \in J : Len(cell[j]) <= 1 /\ (cell[j] # <<>> => cell[j][1][1] = j)
Complete == returned => \A j \in J : Len(cell[j]) = 1
FreshRandomness == Cardinality(used) = Cardinality({j \in J : cell[j] # <<>>})
Terminates == <>returned
=============================================================================
