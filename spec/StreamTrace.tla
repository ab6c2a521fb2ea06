---------------------------- MODULE StreamTrace ----------------------------
(* Seeded samplers.  A seed determines one infinite word stream; a uniform      *)
(* sampler is a cursor into it, whatever calls move it.  For the other samplers *)
(* the answers are a function of the seed and of the sequence of calls.  The     *)
(* common reference string is a function of the seed alone.                       *)
EXTENDS Words, Sequences, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, ref, pos, queue, given, crs, others, pk
vars == <<l, ref, pos, queue, given, crs, others, pk>>
E == Trace[l]

Init == l = 1 /\ ref = <<>> /\ pos = 0 /\ queue = <<>> /\ given = 0 /\ crs = <<>> /\ others = {} /\ pk = <<>>

\* --- one word stream per seed
Ref == E.ev = "ref" /\ ref' = E.v /\ pos' = 0 /\ others' = {SubSeq(E.v, 1, Len(E.v) - Len(E.v))} /\ UNCHANGED <<queue, given, crs, pk>>
Open == E.ev = "open" /\ pos' = 0 /\ UNCHANGED <<ref, queue, given, crs, others, pk>>
Take == /\ E.ev = "take" /\ pos + Len(E.v) <= Len(ref)
        /\ \A i \in 1..Len(E.v) : E.v[i] = ref[pos + i]
        /\ pos' = pos + Len(E.v) /\ UNCHANGED <<ref, queue, given, crs, others, pk>>
\* streams of other seeds are different from this one and from each other
Other == /\ E.ev = "other"
         /\ E.v # SubSeq(ref, 1, Len(E.v)) /\ E.v \notin others
         /\ Cardinality({i \in 1..Len(E.v) : E.v[i] = ref[i]}) <= Len(E.v) \div 4
         /\ others' = others \cup {E.v} /\ UNCHANGED <<ref, pos, queue, given, crs, pk>>

\* --- answers of two samplers of one seed to one script; the leader runs ahead
Script == E.ev = "script" /\ queue' = <<>> /\ given' = 0 /\ UNCHANGED <<ref, pos, crs, others, pk>>
Lead == E.ev = "lead" /\ queue' = Append(queue, E.v) /\ UNCHANGED <<ref, pos, given, crs, others, pk>>
Follow == /\ E.ev = "follow" /\ E.i = given + 1 /\ E.i <= Len(queue) /\ queue[E.i] = E.v
          /\ given' = E.i /\ UNCHANGED <<ref, pos, queue, crs, others, pk>>

\* --- common reference string
CrsOpen == E.ev = "crsopen" /\ crs' = <<E.n>> /\ pk' = <<>> /\ UNCHANGED <<ref, pos, queue, given, others>>
Crs == /\ E.ev = "crs"
       /\ IF Len(crs) = 1
          THEN Len(E.ids) = crs[1] /\ Cardinality({E.ids[i] : i \in 1..Len(E.ids)}) = Len(E.ids) /\ crs' = <<crs[1], E.ids>>
          ELSE crs[2] = E.ids /\ crs' = crs
       /\ UNCHANGED <<ref, pos, queue, given, others, pk>>
CrsOther == E.ev = "crsother" /\ (\A i, j \in 1..Len(E.ids) : E.ids[i] # crs[2][j]) /\ UNCHANGED <<ref, pos, queue, given, crs, others, pk>>
CrsPk == /\ E.ev = "crspk" /\ (pk = <<>> \/ pk = E.ids) /\ pk' = E.ids /\ Len(E.ids) = crs[1]
         /\ UNCHANGED <<ref, pos, queue, given, crs, others>>

\* --- the adding and subtracting forms add and subtract what the plain form answers
Forms == /\ E.ev = "forms"
         /\ \A i \in 1..Len(E.base) :
              /\ E.vec[i] = E.to[i] /\ E.one[i] = E.to[i]
              /\ E.add[i] = WAdd(E.base[i], E.to[i], E.w)
              /\ E.sub[i] = WSub(E.base[i], E.to[i], E.w)
         /\ UNCHANGED <<ref, pos, queue, given, crs, others, pk>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (Ref \/ Open \/ Take \/ Other \/ Script \/ Lead \/ Follow \/ CrsOpen \/ Forms \/ Crs \/ CrsOther \/ CrsPk)
TSpec == Init /\ [][Next]_vars
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
