----------------------------- MODULE MachineTrace -----------------------------
(* Validates recorded executions of the real code against the message        *)
(* machine: every event must be a step of the specification.                  *)
EXTENDS MachineCore

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, val, nz, aut, sup, reg, dreg, fp, kfp, seen
vars == <<l, val, nz, aut, sup, reg, dreg, fp, kfp, seen>>

Matches(o, e) ==
   /\ o.n = e.op /\ o.rc = e.recv /\ o.o = ClsOf[e.out]
   /\ e.form = "InPlace" \/ (Len(o.i) = Len(e.in) /\ \A i \in 1..Len(e.in) : o.i[i] = ClsOf[e.in[i]])
FindOp(e) == CHOOSE o \in Ops \cup InitOps : Matches(o, e)
HasOp(e) == \E o \in Ops \cup InitOps : Matches(o, e)

\* Start of a program: freshly encrypted slots.
InitStep(e) ==
  /\ val' = [s \in SlotNames |-> e.slots[IdxOf[s]].v]
  /\ nz' = [s \in SlotNames |-> FreshNz(s)]
  /\ aut' = [s \in SlotNames |-> 1]
  /\ fp' = e.fp
  /\ kfp' = e.kfp
  /\ UNCHANGED seen /\ sup' = InitSup /\ reg' = SeqSet(e.regs) /\ dreg' = SeqSet(e.dregs)
  \* a copy starts with the registrations of the object it was copied from
  /\ Cfg.conc = 0 => e.regs = Cfg.regs /\ e.dregs = Cfg.dregs
  /\ e.st = "ok"
  \* the initial ciphertexts decrypt to the messages the specification chose
  /\ \A i \in SlotIdx : ~IsConst(Slots[i].n) /\ Slots[i].c # "rot" =>
        /\ e.slots[i].v = Slots[i].v
        /\ e.slots[i].nb <= FreshNz(Slots[i].n)

Randomized(rc) == rc \in {"enc", "penc", "san"} \cup EncRecv \cup PEncRecv \cup SubRecv
Aliased(e) == \E i \in 1..Len(e.in) : e.in[i] = e.out

OpStep(e) ==
  /\ e.st = "ok"
  /\ HasOp(e)
  /\ LET o == FindOp(e) IN
     /\ \* the message
        e.v = Sem(o, e, val)
     /\ \* the noise
        e.nb <= Nz(o, e, val, nz)
     /\ e.aut % (2 * N) = AutNext(o, e, aut)
     /\ \* frame: nothing but the destination changed, keys included
        \A i \in SlotIdx : Slots[i].n # e.out => e.fp[i] = fp[i]
     /\ e.kfp = kfp
     /\ \* history independence: same bits as a brand-new evaluator with a dirty destination
        (e.ref # 0 /\ Cfg.refeq /\ ~Aliased(e)) => e.ref = e.fp[IdxOf[e.out]]
     /\ val' = [val EXCEPT ![e.out] = Sem(o, e, val)]
     /\ nz' = [nz EXCEPT ![e.out] = Nz(o, e, val, nz)]
     /\ aut' = [aut EXCEPT ![e.out] = AutNext(o, e, aut)]
     /\ \* multi-key: the keys needed are there; the result involves no other party than the specification says
        KeysThere(o, e, sup, reg)
     /\ K > 0 => SeqSet(e.ms) \subseteq SupNext(o, e, sup, reg)
     /\ sup' = [sup EXCEPT ![e.out] = SupNext(o, e, sup, reg)]
     /\ fp' = e.fp
     /\ \* randomized operations: the mask of the result was never seen before
        Randomized(e.recv) => e.mid \notin seen
     /\ seen' = IF Randomized(e.recv) THEN seen \cup {e.mid} ELSE seen
     /\ kfp' = kfp /\ UNCHANGED <<reg, dreg>>

(* Registration and decryption change no ciphertext and no key. *)
MetaStep(e) ==
  /\ e.st = "ok" /\ e.fp = fp /\ e.kfp = kfp
  /\ reg' = IF e.op = "AddEvaluationKey" THEN reg \cup {e.ints[1]} ELSE reg
  /\ dreg' = IF e.op = "AddSecretKey" THEN dreg \cup {e.ints[1]} ELSE dreg
  /\ e.op = "Decrypt" => sup[e.out] \subseteq dreg /\ e.dec = DecV(ClsOf[e.out], val[e.out])
  /\ UNCHANGED <<val, nz, aut, sup, fp, kfp, seen>>

Step(e) == CASE e.ev = "init" -> InitStep(e) [] e.ev = "meta" -> MetaStep(e) [] OTHER -> OpStep(e)

TInit == /\ l = 1 /\ val = [s \in SlotNames |-> <<>>] /\ nz = [s \in SlotNames |-> 0]
         /\ aut = [s \in SlotNames |-> 1] /\ fp = <<>> /\ kfp = 0 /\ sup = InitSup /\ reg = {} /\ dreg = {} /\ seen = {}
TNext == /\ l <= Len(Trace) /\ l' = l + 1 /\ Step(Trace[l])
TSpec == TInit /\ [][TNext]_vars
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
