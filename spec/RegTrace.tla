------------------------------ MODULE RegTrace ------------------------------
(* Registries of parties.  An evaluator or a decryptor of several parties is a      *)
(* function party -> generation of the party's key (0: not registered).  Creating    *)
(* one sets it, a copy starts with the source's and is independent from then on,      *)
(* registering a key changes one entry of one object.  What an object shows is its     *)
(* registry, and what it computes is a function of the call and of its registry:        *)
(* memo is that function, first filled in by a brand-new object with this registry.      *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, K, reg, memo
vars == <<l, K, reg, memo>>

Shows(v, m) == Len(v) = K /\ \A i \in 1..K : v[i] = <<IF m[i] = 0 THEN 0 ELSE 1, m[i], m[i]>>
ViewsOK(views, r) == Len(views) = Len(r) /\ \A h \in 1..Len(r) : Shows(views[h], r[h])
Key(call, m) == <<call, m>>

Step(e) ==
  CASE e.ev = "begin" -> /\ K' = e.K /\ reg' = <<>> /\ memo' = <<>>
    [] e.ev = "new"   -> /\ e.st = "ok" /\ e.h = Len(reg) + 1 /\ reg' = Append(reg, e.m)
                         /\ ViewsOK(e.views, reg') /\ UNCHANGED <<K, memo>>
    [] e.ev = "copy"  -> /\ e.st = "ok" /\ e.h = Len(reg) + 1 /\ reg' = Append(reg, reg[e.src])
                         /\ ViewsOK(e.views, reg') /\ UNCHANGED <<K, memo>>
    [] e.ev = "add"   -> /\ e.st = "ok" /\ reg' = [reg EXCEPT ![e.h][e.i] = e.v]
                         /\ ViewsOK(e.views, reg') /\ UNCHANGED <<K, memo>>
    [] e.ev = "ref"   -> /\ e.st = "ok" /\ UNCHANGED <<K, reg>>
                         /\ Key(e.call, e.m) \in DOMAIN memo => memo[Key(e.call, e.m)] = e.res
                         /\ memo' = (Key(e.call, e.m) :> e.res) @@ memo
    [] e.ev = "use"   -> /\ e.st = "ok" /\ memo[Key(e.call, reg[e.h])] = e.res /\ UNCHANGED <<K, reg, memo>>
    [] e.ev = "end"   -> /\ ViewsOK(e.views, reg) /\ UNCHANGED <<K, reg, memo>>
    [] OTHER          -> FALSE /\ UNCHANGED <<K, reg, memo>>
TInit == l = 1 /\ K = 0 /\ reg = <<>> /\ memo = <<>>
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
