----------------------------- MODULE SerialTrace -----------------------------
(* Serialization over a byte stream.  The stream is a queue of encoded objects; *)
(* a write appends an object, a read removes the first one.  A fault while       *)
(* writing leaves a prefix of the object at the end of the stream (a crash       *)
(* point); reading that prefix must fail.                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, q
vars == <<l, q>>

WriteStep(e) ==
  /\ e.st = "ok" /\ e.mst = "ok"
  /\ e.id2 = e.id                               \* writing does not change the object
  /\ e.n = e.acc                                 \* the reported count is what the stream accepted
  /\ e.bytes = e.mb                              \* the stream holds (a prefix of) the canonical encoding
  /\ e.hit = (e.fault >= 0)
  /\ IF e.fault < 0
     THEN e.err = "" /\ e.n = e.size
     ELSE /\ e.fault < e.size
          \* with a silently short writer later writes still arrive until the limit is met again
          /\ e.acc = e.fault
          /\ IF e.short THEN e.err # "" ELSE e.err = "injected"
  /\ q' = Append(q, [ty |-> e.ty, id |-> e.id, size |-> e.size, bytes |-> e.bytes, got |-> e.acc])

Sum(s) == LET RECURSIVE F(_) F(x) == IF x = <<>> THEN 0 ELSE Head(x).got + F(Tail(x)) IN F(s)

ReadStep(e) ==
  /\ q # <<>>
  /\ LET h == Head(q)
         avail == IF e.fault >= 0 THEN e.fault ELSE h.got
     IN /\ e.ty = h.ty
        /\ e.st = "ok"
        /\ e.n = e.acc                           \* the reported count is what was consumed
        /\ IF avail >= h.size
           THEN /\ e.err = "" /\ e.n = h.size     \* exactly the object, nothing beyond it
                /\ e.id = h.id                    \* equal to the original, whatever the receiver held
                /\ e.bytes = h.bytes /\ e.size = h.size
                /\ e.left = Sum(Tail(q))
           ELSE /\ e.n = avail
                /\ e.err # ""
  /\ q' = Tail(q)

SliceStep(e) ==
  /\ e.st = "ok" /\ e.len = e.size /\ e.same
  /\ IF e.cut < 0 THEN e.err = "" /\ e.rid = e.id ELSE e.err # ""
  /\ UNCHANGED q

Step(e) ==
  CASE e.ev = "stream" -> q' = <<>>
    [] e.ev = "write" -> WriteStep(e)
    [] e.ev = "read" -> ReadStep(e)
    [] e.ev = "slice" -> SliceStep(e)
    [] OTHER -> FALSE

TInit == l = 1 /\ q = <<>>
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
