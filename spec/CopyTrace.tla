------------------------------ MODULE CopyTrace ------------------------------
(* Objects as independent storage: a heap of handles, each holding a value.     *)
(* Copy allocates new storage with the source's value, CopyFrom and Clear change *)
(* only their receiver, a mutation of one handle is never seen through another.  *)
(* A secret key is one value with several views.                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, heap
vars == <<l, heap>>

Frame(e, upto) == \A i \in 1..upto : i # e.dst => e.fps[i] = heap[i]

\* all views of a secret key describe the same key
ViewsOK(v) ==
  LET large == v[1] lwe == v[2] glwe == v[3] fft == v[4] IN
  /\ Len(glwe) = Len(large) /\ glwe = large
  /\ fft = large
  /\ Len(lwe) <= Len(large) /\ \A i \in 1..Len(lwe) : lwe[i] = large[i]

CopyStep(e) ==
  /\ e.st = "ok"
  /\ e.ov = <<>>                                  \* no two handles share storage
  /\ \A i \in 1..Len(e.views) : ViewsOK(e.views[i].v)
  /\ CASE e.op = "new" -> /\ Len(e.fps) = e.dst /\ (e.dst = 1 \/ (e.dst = Len(heap) + 1 /\ Frame(e, Len(heap))))
       [] e.op = "copy" -> /\ e.dst = Len(heap) + 1 /\ Len(e.fps) = e.dst /\ e.fps[e.dst] = heap[e.src] /\ Frame(e, Len(heap))
       [] e.op = "copyfrom" -> /\ Len(e.fps) = Len(heap) /\ e.fps[e.dst] = heap[e.src] /\ Frame(e, Len(heap))
       [] e.op = "clear" -> /\ Len(e.fps) = Len(heap) /\ e.fps[e.dst] = e.blank[e.dst] /\ Frame(e, Len(heap))
       [] e.op = "mutate" -> /\ Len(e.fps) = Len(heap) /\ Frame(e, Len(heap))
       [] OTHER -> FALSE
  /\ heap' = e.fps

ConvStep(e) ==
  /\ e.st = "ok" /\ ViewsOK(e.views) /\ ~e.ov
  /\ Len(e.views[1]) = e.rank * e.N /\ Len(e.views[2]) = e.n
  /\ e.as = e.views[1] /\ e.as2 = e.views[1]
  /\ UNCHANGED heap

Step(e) == CASE e.ev = "copy" -> CopyStep(e) [] e.ev = "conv" -> ConvStep(e) [] OTHER -> FALSE
TInit == l = 1 /\ heap = <<>>
TNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_vars
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
