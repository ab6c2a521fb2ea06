------------------------------ MODULE CallTrace ------------------------------
(* Objects with scratch memory, seen call by call.  A call has one outcome, the    *)
(* one a brand-new object gives ("ref"): it does not depend on who performs it -    *)
(* a used object, a safe copy, a copy of a copy -, on what was called before, nor    *)
(* on what runs at the same time.  It changes its destination and nothing else, and   *)
(* a destination that is also an operand changes nothing, unless documented.          *)
(* memo is the outcome of every call so far.                                           *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo

\* documented: the destination should not overlap the operand
NoOverlap == {"MonomialMulPolyTo", "MonomialMulAddPolyTo", "MonomialMulSubPolyTo", "PermutePolyTo", "PermuteAddPolyTo", "PermuteSubPolyTo",
  "PermuteFFTPolyTo", "PermuteAddFFTPolyTo", "PermuteSubFFTPolyTo", "MonomialMulGLWETo", "MonomialMulAddGLWETo", "MonomialMulSubGLWETo",
  "PermuteGLWETo", "PermuteAddGLWETo", "PermuteSubGLWETo", "PermuteFFTGLWETo", "PermuteAddFFTGLWETo", "PermuteSubFFTGLWETo"}

Known(c) == c \in DOMAIN memo
Out(e) == IF e.st = "ok" THEN <<e.m, e.st, e.res>> ELSE <<e.m, e.st>>
Agree(e) == memo[e.call].whole = Out(e)
\* the arguments a call may change
MayChange(e) == CASE e.form \in {"To", "InPlace"} -> {e.pos} [] e.form = "Unsafe" -> 0..9 [] OTHER -> {}
Frame(e) == \A k \in 1..Len(e.ch) : e.ch[k] \in MayChange(e)

Step(e) ==
  CASE e.ev = "new"     -> memo' = <<>>
    [] e.ev = "ref"     -> /\ Frame(e)
                           /\ Known(e.call) => Agree(e)
                           /\ memo' = IF Known(e.call) THEN memo ELSE memo @@ (e.call :> [whole |-> Out(e), out |-> e.out])
    [] e.ev = "call"    -> Known(e.call) /\ Agree(e) /\ Frame(e) /\ memo' = memo
    \* the arguments are the same; one of them is the destination itself
    [] e.ev = "overlap" -> /\ Known(e.call) /\ memo' = memo
                           /\ e.m \in NoOverlap \/ (e.st = memo[e.call].whole[2] /\ (e.st = "ok" => e.out = memo[e.call].out))
    [] OTHER            -> FALSE /\ UNCHANGED memo
TInit == l = 1 /\ memo = <<>>
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, memo>>
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
