------------------------------ MODULE MC_Parties ------------------------------
(* Design model of multi-key ciphertexts.  A ciphertext has a body and one mask per party, every     *)
(* party has a secret; party i encrypts with a mask of its own and zeros elsewhere.  Operations combine    *)
(* ciphertexts of different parties; key switching by party i's registered key replaces the mask of i.         *)
(* Checked for all secrets, masks and histories: decryption by the parties of the support (or more)                *)
(* gives the value of the history, whatever the order in which parties were registered; masks outside               *)
(* the support stay zero; if a party of the support is missing, its mask shows in the result.                         *)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Parties, Q, MaxOps
VARIABLES s, reg, ct, val, sup, n
vars == <<s, reg, ct, val, sup, n>>
Pt == 1..Parties
Slots == 1..2
Z == 0..(Q - 1)
RECURSIVE Mix(_, _, _)
Mix(a, t, R) == IF R = {} THEN 0 ELSE LET i == CHOOSE x \in R : TRUE IN a[i] * t[i] + Mix(a, t, R \ {i})
Init == /\ s \in [Pt -> {0, 1}] /\ reg = {} /\ n = 0
        /\ ct = [c \in Slots |-> [b |-> 0, a |-> [i \in Pt |-> 0]]] /\ val = [c \in Slots |-> 0] /\ sup = [c \in Slots |-> {}]
Register(i) == i \notin reg /\ reg' = reg \cup {i} /\ UNCHANGED <<s, ct, val, sup, n>>
Encrypt(c, i) == /\ n < MaxOps /\ n' = n + 1
                 /\ \E m \in {1, Q - 1}, x \in Z :
                      /\ ct' = [ct EXCEPT ![c] = [b |-> (m - x * s[i]) % Q, a |-> [j \in Pt |-> IF j = i THEN x ELSE 0]]]
                      /\ val' = [val EXCEPT ![c] = m]
                 /\ sup' = [sup EXCEPT ![c] = {i}] /\ UNCHANGED <<s, reg>>
Combine(c, d, k) == /\ n < MaxOps /\ n' = n + 1
                    /\ ct' = [ct EXCEPT ![c] = [b |-> (ct[c].b + k * ct[d].b) % Q, a |-> [j \in Pt |-> (ct[c].a[j] + k * ct[d].a[j]) % Q]]]
                    /\ val' = [val EXCEPT ![c] = (val[c] + k * val[d]) % Q] /\ sup' = [sup EXCEPT ![c] = sup[c] \cup sup[d]]
                    /\ UNCHANGED <<s, reg>>
\* needs the key of every party of the support
Switch(c) == /\ n < MaxOps /\ n' = n + 1 /\ sup[c] \subseteq reg /\ sup[c] # {}
             /\ \E x \in [sup[c] -> Z] :
                  LET na == [j \in Pt |-> IF j \in sup[c] THEN x[j] ELSE 0]
                  IN ct' = [ct EXCEPT ![c] = [b |-> (ct[c].b + Mix(ct[c].a, s, sup[c]) - Mix(na, s, sup[c])) % Q, a |-> na]]
             /\ UNCHANGED <<s, reg, val, sup>>
Next == \/ \E i \in Pt : Register(i) \/ \E c \in Slots : Encrypt(c, i)
        \/ \E c \in Slots, d \in Slots, k \in {1, Q - 1} : Combine(c, d, k)
        \/ \E c \in Slots : Switch(c)
Spec == Init /\ [][Next]_vars
Dec(c, R) == (ct[c].b + Mix(ct[c].a, s, R)) % Q
Correct == \A c \in Slots : \A R \in SUBSET Pt : sup[c] \subseteq R => Dec(c, R) = val[c]
Inside == \A c \in Slots : \A i \in Pt \ sup[c] : ct[c].a[i] = 0
Missing == \A c \in Slots : \A i \in sup[c] : (s[i] = 1 /\ ct[c].a[i] # 0) => Dec(c, sup[c] \ {i}) # val[c]
=============================================================================
