------------------------------ MODULE MachineGen ------------------------------
(* Generates random programs of the message machine (TLC -simulate): every   *)
(* program only contains operations the specification enables, so the noise  *)
(* budget is respected; when a drawn operation is not enabled its destination*)
(* is re-encrypted instead.                                                   *)
EXTENDS MachineCore

VARIABLES val, nz, aut, sup, reg, dreg, hist

OpSeq == LET RECURSIVE F(_) F(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o F(S \ {x}) IN F(Ops)
\* Operations in groups listed under "heavy" are drawn as often as the others.
R(S) == RandomElement(S)

FixedInit == [s \in SlotNames |->
  LET sl == Slots[IdxOf[s]] IN sl.v]

RandPoly(k) == TLCEval(
  CASE k = 0 -> [i \in 1..N |-> IF R(1..5) = 1 THEN R(-2..2) ELSE 0]
    [] k = 1 -> [i \in 1..N |-> IF i = R(1..N) THEN R({-1, 1}) ELSE 0]
    [] k = 2 -> [i \in 1..N |-> IF i <= 2 THEN R(-3..3) ELSE 0]
    [] OTHER -> [i \in 1..N |-> R(-1..1)])

RandMsg(c) == TLCEval(
  IF LenOf(c) = 1 THEN <<IF R(1..4) = 1 THEN R((0 - 2 * P)..(3 * P)) ELSE R(0..(P - 1))>>
  ELSE LET sz == R(1..4)
           full == [i \in 1..N |-> R(0..(P - 1))]
       IN IF sz = 1 THEN SubSeq(full, 1, R(0..N)) ELSE full)

RandExp == LET k == R(1..8) IN
  IF k = 1 THEN R({0, N, 0 - N, 2 * N, 0 - 2 * N, N - 1, 1 - N, N + 1, 2 * N - 1, -1, 1, 3 * N, 0 - 3 * N - 1})
  ELSE R((0 - 5 * N)..(5 * N))
RandOdd == LET k == R(1..6) IN
  IF k = 1 THEN R({1, -1, N + 1, N - 1, 2 * N - 1, 2 * N + 1, 1 - 2 * N, 0 - 1 - 2 * N, 5, -5})
  ELSE 2 * R((0 - 2 * N)..(2 * N)) + 1

RandFn == LET k == R(1..4) IN TLCEval(
  IF k = 1 THEN [i \in 1..P |-> i - 1]
  ELSE IF k = 2 THEN [i \in 1..P |-> R((0 - P)..(2 * P))]
  ELSE [i \in 1..P |-> R(0..(P - 1))])

RandFns == LET k == R(1..Cfg.lutcount) IN TLCEval([i \in 1..k |-> RandFn])

\* Draws an operation instance.  Pool of inputs: prefer slots the operation can use.
Usable(c, v, o) ==
  LET S == OfClass(c)
      T1x == {s \in S : o.k # "gate" \/ IsBit(v[s][1])}
      T2x == {s \in T1x : o.k \notin {"boot", "brot", "mboot", "mbootx", "cboot", "san"} \/ nz[s] <= Nse.bb}
      T4x == {s \in T2x : K = 0 \/ ~NeedsKeys(o) \/ sup[s] \subseteq reg}
      T3x == {s \in T4x : o.k \notin ({"eprod", "hprod", "xprod", "cmux", "ext", "ksw"} \cup XKinds) \/ IsConst(s) \/ aut[s] = 1}
  IN IF T3x # {} THEN T3x ELSE S

Draw ==
  \E oi \in {R(1..Len(OpSeq))} :
  LET o == OpSeq[oi] IN
  \E form \in {o.fs[R(1..Len(o.fs))]} :
  \E out0 \in {R(OfClass(o.o))} :
  \E ins \in {TLCEval([i \in 1..Len(o.i) |-> R(Usable(o.i[i], val, o))])} :
  \E alias \in {R(1..6)} :
  LET ins1 == IF alias = 1 /\ Len(ins) >= 2 /\ o.i[Len(ins)] = o.i[Len(ins) - 1]
              THEN [ins EXCEPT ![Len(ins)] = ins[Len(ins) - 1]] ELSE ins
      \* bias towards destinations that are also operands
      outA == IF o.al /\ form = "To" /\ alias >= 4 /\ Len(o.i) > 0 /\ (o.i[Len(o.i)] = o.o \/ o.i[1] = o.o)
              THEN ins1[IF alias = 4 /\ o.i[Len(o.i)] = o.o THEN Len(ins1) ELSE IF o.i[1] = o.o THEN 1 ELSE Len(ins1)] ELSE out0
      out == IF ~Cfg.alias /\ \E i \in 1..Len(ins1) : ins1[i] = outA
             THEN LET X == OfClass(o.o) \ {ins1[i] : i \in 1..Len(ins1)} IN IF X = {} THEN outA ELSE CHOOSE x \in X : TRUE
             ELSE outA
  IN \E e \in {TLCEval([op |-> o.n, form |-> form, out |-> out,
               in |-> IF form = "InPlace" THEN <<>> ELSE ins1,
               ints |-> CASE o.par = "pidx" -> <<Slots[IdxOf[ins1[1]]].i>> [] o.par = "exp" -> <<RandExp>> [] o.par = "odd" -> <<RandOdd>>
                          [] o.par = "idx" -> <<R(0..(N - 1))>> [] o.par = "zero" -> <<0>>
                          [] o.par = "gal" -> <<Cfg.gals[R(1..Len(Cfg.gals))]>> [] o.par \in {"ent", "fnsx"} -> <<R(0..(Cfg.lutcount - 1))>>
                          [] OTHER -> <<>>,
               sc |-> IF o.par \in {"sc", "gsc"} THEN R(-4..5) ELSE 0,
               cr |-> IF o.par \in {"flt", "cpx"} THEN R(-3..3) ELSE 0,
               ci |-> IF o.par = "cpx" THEN R(-2..2) ELSE 0,
               poly |-> CASE o.par = "poly" -> RandPoly(R(0..3))
                          [] o.par = "gpoly" -> RandPoly(R(0..3))
                          [] o.par = "pt" -> RandMsg(o.o) [] o.par = "msg" -> RandMsg(o.o)
                          [] o.par = "bit" -> <<R(0..1)>>
                          [] OTHER -> <<>>,
               fn |-> IF o.par = "fn" THEN RandFn ELSE <<>>,
               fns |-> IF o.par \in {"fns", "fnsx"} THEN RandFns ELSE <<>>,
               recv |-> o.rc])} :
     IF o.o \in {CL, CS, "lwe", "glwe", "fglwe", "rot", "tens", "mlwe", "cggsw"} /\ Enabled(o, e, val, nz, aut) /\ KeysThere(o, e, sup, reg)
     THEN /\ val' = [val EXCEPT ![out] = Sem(o, e, val)]
          /\ nz' = [nz EXCEPT ![out] = Nz(o, e, val, nz)]
          /\ aut' = [aut EXCEPT ![out] = AutNext(o, e, aut)]
          /\ sup' = [sup EXCEPT ![out] = SupNext(o, e, sup, reg)]
          /\ hist' = Append(hist, e) /\ UNCHANGED <<reg, dreg>>
     ELSE \* re-encrypt
       \E s \in {R(OfClass(Cfg.reenc))} :
       \E m \in {TLCEval(IF Cfg.bits THEN <<R(0..1)>> ELSE RandMsg(Cfg.reenc))} :
       \E q \in {TLCEval([op |-> Cfg.reop, form |-> "To", out |-> s, in |-> <<>>, ints |-> <<>>, sc |-> 0, cr |-> 0,
                  ci |-> 0, poly |-> m, fn |-> <<>>, fns |-> <<>>, recv |-> IF K = 0 THEN "enc" ELSE "enc" \o Dg(R(reg \cup {R(Parties)}))])} :
         /\ val' = [val EXCEPT ![s] = IF Cfg.bits THEN <<ValBit(m[1] = 1)>> ELSE RExt(LenOf(Cfg.reenc), RMod(P, m))]
         /\ nz' = [nz EXCEPT ![s] = Nse.fr]
         /\ aut' = [aut EXCEPT ![s] = 1]
         /\ sup' = [sup EXCEPT ![s] = IF K = 0 THEN {} ELSE {PartyOf(q.recv)}]
         /\ hist' = Append(hist, q) /\ UNCHANGED <<reg, dreg>>

(* Multi-key: a party registers its evaluation key or secret key (again, possibly), or a ciphertext is decrypted. *)
Meta(n, i, s) == [op |-> n, form |-> "", out |-> s, in |-> <<>>, ints |-> <<i>>, sc |-> 0, cr |-> 0, ci |-> 0, poly |-> <<>>, fn |-> <<>>, fns |-> <<>>, recv |-> ""]
Decryptable == {s \in Mutable : ClsOf[s] \in {"lwe", "glwe", "fglwe"} /\ aut[s] = 1 /\ sup[s] \subseteq dreg /\ nz[s] <= Nse.bud /\ (Cfg.bits => IsBit(val[s][1]))}
MetaStep ==
  \E k \in {R(1..6)}, i \in {R(Parties)}, s \in {R(Mutable)} :
    IF k <= 1 THEN reg' = reg \cup {i} /\ hist' = Append(hist, Meta("AddEvaluationKey", i, s)) /\ UNCHANGED <<val, nz, aut, sup, dreg>>
    ELSE IF k <= 2 \/ Decryptable = {} THEN dreg' = dreg \cup {i} /\ hist' = Append(hist, Meta("AddSecretKey", i, s)) /\ UNCHANGED <<val, nz, aut, sup, reg>>
    ELSE \E d \in {R(Decryptable)} : hist' = Append(hist, Meta("Decrypt", i, d)) /\ UNCHANGED <<val, nz, aut, sup, reg, dreg>>

Init == /\ val = FixedInit
        /\ nz = [s \in SlotNames |-> FreshNz(s)]
        /\ aut = [s \in SlotNames |-> 1]
        /\ sup = InitSup /\ reg = SeqSet(Cfg.regs) /\ dreg = SeqSet(Cfg.dregs)
        /\ hist = <<>>

Out == Serialize(ToJson([ops |-> hist]) \o "\n", IOEnv.OUT,
         [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>])

Next == IF Len(hist) < Cfg.depth THEN (IF K > 0 /\ R(1..6) = 1 THEN MetaStep ELSE Draw)
        ELSE FALSE

\* Written out when the program is complete.
Write == Len(hist) < Cfg.depth \/ (Out.exitValue = 0)

Spec == Init /\ [][Next]_<<val, nz, aut, sup, reg, dreg, hist>>
=============================================================================
