----------------------------- MODULE MachineCore -----------------------------
(* The message machine: what every homomorphic operation of the library does *)
(* to the messages of a pool of ciphertexts ("slots").                       *)
(*                                                                            *)
(* A ciphertext slot holds a message in Z_{2p} (one padding bit) - a sequence *)
(* of length 1 for LWE-like classes and of length N for ring-like classes -   *)
(* and a bound on the bit length of its noise.  A constant slot ("k" classes) *)
(* holds the small integer polynomial encrypted by a Lev/GLev/GSW/GGSW or     *)
(* uni-encryption ciphertext.                                                 *)
EXTENDS Noise, TLC, Json, IOUtils

Cfg == ndJsonDeserialize(IOEnv.CFG)[1]

P == Cfg.p
M == 2 * P
N == Cfg.N
K == Cfg.parties                \* 0: the single-key scheme
Parties == 0..(K - 1)
Nse == IF Cfg.kind = "fhew" THEN FHEWNoiseOf(Cfg.shape, Cfg.gpbase, Cfg.gplevel)
       ELSE IF K = 0 THEN NoiseOf(Cfg.shape, Cfg.gpbase, Cfg.gplevel)
       ELSE MKNoiseOf(Cfg.shape, Cfg.gpbase, Cfg.gplevel, K, Cfg.rbase, Cfg.rlevel, Cfg.abase, Cfg.alevel)
Slots == Cfg.slots             \* sequence of [n |-> name, c |-> class]
SlotIdx == 1..Len(Slots)
SlotNames == {Slots[i].n : i \in SlotIdx}
ClsOf == [s \in SlotNames |-> (LET i == CHOOSE i \in SlotIdx : Slots[i].n = s IN Slots[i].c)]
IdxOf == [s \in SlotNames |-> (CHOOSE i \in SlotIdx : Slots[i].n = s)]
OfClass(c) == {s \in SlotNames : ClsOf[s] = c}
\* Constant slots never change.
IsConst(s) == ClsOf[s] \in {"lev", "gsw", "fglev", "fggsw", "fggswb", "funi", "mlev", "kk0", "kk1", "kk2", "gg0", "gg1", "gg2"}
Consts == {s \in SlotNames : IsConst(s)}
Mutable == SlotNames \ Consts

RingClasses == {"glwe", "fglwe", "gk1", "gk2", "tens", "cggsw"}
CL == Cfg.L                     \* class of large-dimension LWE ciphertexts
CS == Cfg.S                     \* class of small-dimension LWE ciphertexts
LenOf(c) == IF c \in RingClasses THEN N ELSE IF c = "mlwe" THEN Cfg.lutcount ELSE 1

--------------------------------------------------------------------------
(* The operation table. *)
NT == <<"New", "To">>
T1 == <<"To">>
NTI == <<"New", "To", "InPlace">>

O(n, rc, o, i, k, acc, par, fs, al) ==
  [n |-> n, rc |-> rc, o |-> o, i |-> i, k |-> k, acc |-> acc, par |-> par, fs |-> fs, al |-> al]

LinOps(sfx, c, rc) == {
  O("Add" \o sfx, rc, c, <<c, c>>, "add", 0, "", NT, TRUE),
  O("Sub" \o sfx, rc, c, <<c, c>>, "sub", 0, "", NT, TRUE),
  O("Neg" \o sfx, rc, c, <<c>>, "neg", 0, "", NT, TRUE) }

PlainOps(sfx, c, rc) == {
  O("AddPlain" \o sfx, rc, c, <<c>>, "addp", 0, "pt", NT, TRUE),
  O("SubPlain" \o sfx, rc, c, <<c>>, "subp", 0, "pt", NT, TRUE) }

ScalOps(sfx, c, rc) == {
  O("ScalarMul" \o sfx, rc, c, <<c>>, "smul", 0, "sc", NT, TRUE),
  O("ScalarMulAdd" \o sfx, rc, c, <<c>>, "smul", 1, "sc", T1, TRUE),
  O("ScalarMulSub" \o sfx, rc, c, <<c>>, "smul", -1, "sc", T1, TRUE) }

PolyOps(sfx, c, rc) == {
  O("PolyMul" \o sfx, rc, c, <<c>>, "pmul", 0, "poly", NT, TRUE),
  O("PolyMulAdd" \o sfx, rc, c, <<c>>, "pmul", 1, "poly", T1, TRUE),
  O("PolyMulSub" \o sfx, rc, c, <<c>>, "pmul", -1, "poly", T1, TRUE),
  O("FFTPolyMul" \o sfx, rc, c, <<c>>, "pmul", 0, "poly", NT, TRUE),
  O("FFTPolyMulAdd" \o sfx, rc, c, <<c>>, "pmul", 1, "poly", T1, TRUE),
  O("FFTPolyMulSub" \o sfx, rc, c, <<c>>, "pmul", -1, "poly", T1, TRUE) }

MonoOps(sfx, c, rc) == {
  O("MonomialMul" \o sfx, rc, c, <<c>>, "mono", 0, "exp", NTI, FALSE),
  O("MonomialMulAdd" \o sfx, rc, c, <<c>>, "mono", 1, "exp", T1, FALSE),
  O("MonomialMulSub" \o sfx, rc, c, <<c>>, "mono", -1, "exp", T1, FALSE) }

PermOps(sfx, c, rc) == {
  O("Permute" \o sfx, rc, c, <<c>>, "perm", 0, "odd", NTI, FALSE),
  O("PermuteAdd" \o sfx, rc, c, <<c>>, "perm", 1, "odd", T1, FALSE),
  O("PermuteSub" \o sfx, rc, c, <<c>>, "perm", -1, "odd", T1, FALSE) }

CplxOps(sfx, c, rc) == {
  O("FloatMul" \o sfx, rc, c, <<c>>, "fmul", 0, "flt", NT, TRUE),
  O("FloatMulAdd" \o sfx, rc, c, <<c>>, "fmul", 1, "flt", T1, TRUE),
  O("FloatMulSub" \o sfx, rc, c, <<c>>, "fmul", -1, "flt", T1, TRUE),
  O("CmplxMul" \o sfx, rc, c, <<c>>, "cmul", 0, "cpx", NT, TRUE),
  O("CmplxMulAdd" \o sfx, rc, c, <<c>>, "cmul", 1, "cpx", T1, TRUE),
  O("CmplxMulSub" \o sfx, rc, c, <<c>>, "cmul", -1, "cpx", T1, TRUE) }

LWEOps == LinOps("LWE", "lwe", "ev") \cup PlainOps("LWE", "lwe", "ev") \cup ScalOps("LWE", "lwe", "ev")
GLWEOps == LinOps("GLWE", "glwe", "ev") \cup PlainOps("GLWE", "glwe", "ev") \cup ScalOps("GLWE", "glwe", "ev")
  \cup PolyOps("GLWE", "glwe", "ev") \cup MonoOps("GLWE", "glwe", "ev") \cup PermOps("GLWE", "glwe", "ev")
FFTOps == LinOps("FFTGLWE", "fglwe", "ev") \cup PolyOps("FFTGLWE", "fglwe", "ev")
  \cup CplxOps("FFTGLWE", "fglwe", "ev") \cup PermOps("FFTGLWE", "fglwe", "ev")
ConvOps == {
  O("FwdFFTGLWECiphertext", "ev", "fglwe", <<"glwe">>, "conv", 0, "", NT, FALSE),
  O("InvFFTGLWECiphertext", "ev", "glwe", <<"fglwe">>, "conv", 0, "", NT, FALSE) }
ExtOps == { O("AsLWECiphertext", "ct", CL, <<"glwe">>, "ext", 0, "idx", NT, FALSE) }
KSOps == { O("DefaultKeySwitch", "ev", CS, <<CL>>, "ks", 0, "", NT, FALSE) }
BootOps == {
  O("BootstrapFunc", "ev", "lwe", <<"lwe">>, "boot", 0, "fn", NT, TRUE),
  O("BootstrapLUT", "ev", "lwe", <<"lwe">>, "boot", 0, "fn", NT, TRUE) }
BROps == {
  O("BlindRotate", "ev", "rot", <<CS>>, "brot", 0, "fn", NT, FALSE),
  O("AsLWECiphertext", "ct", CL, <<"rot">>, "ext0", 0, "zero", NT, FALSE) }
GProdLWEOps == {
  O("GadgetProdLWE", "ev", "lwe", <<"lev">>, "gprod", 0, "gsc", NT, FALSE),
  O("GadgetProdAddLWE", "ev", "lwe", <<"lev">>, "gprod", 1, "gsc", T1, FALSE),
  O("GadgetProdSubLWE", "ev", "lwe", <<"lev">>, "gprod", -1, "gsc", T1, FALSE),
  O("ExternalProdLWE", "ev", "lwe", <<"gsw", "lwe">>, "eprod", 0, "", NT, TRUE),
  O("ExternalProdAddLWE", "ev", "lwe", <<"gsw", "lwe">>, "eprod", 1, "", T1, TRUE),
  O("ExternalProdSubLWE", "ev", "lwe", <<"gsw", "lwe">>, "eprod", -1, "", T1, TRUE) }
GProdGLWEOps == {
  O("GadgetProdGLWE", "ev", "glwe", <<"fglev">>, "gprod", 0, "gpoly", NT, FALSE),
  O("GadgetProdAddGLWE", "ev", "glwe", <<"fglev">>, "gprod", 1, "gpoly", T1, FALSE),
  O("GadgetProdSubGLWE", "ev", "glwe", <<"fglev">>, "gprod", -1, "gpoly", T1, FALSE),
  O("GadgetProdFFTGLWE", "ev", "fglwe", <<"fglev">>, "gprod", 0, "gpoly", T1, FALSE),
  O("GadgetProdAddFFTGLWE", "ev", "fglwe", <<"fglev">>, "gprod", 1, "gpoly", T1, FALSE),
  O("GadgetProdSubFFTGLWE", "ev", "fglwe", <<"fglev">>, "gprod", -1, "gpoly", T1, FALSE),
  O("ExternalProdGLWE", "ev", "glwe", <<"fggsw", "glwe">>, "eprod", 0, "", NT, TRUE),
  O("ExternalProdAddGLWE", "ev", "glwe", <<"fggsw", "glwe">>, "eprod", 1, "", T1, TRUE),
  O("ExternalProdSubGLWE", "ev", "glwe", <<"fggsw", "glwe">>, "eprod", -1, "", T1, TRUE),
  O("ExternalProdFFTGLWE", "ev", "fglwe", <<"fggsw", "glwe">>, "eprod", 0, "", T1, TRUE),
  O("ExternalProdAddFFTGLWE", "ev", "fglwe", <<"fggsw", "glwe">>, "eprod", 1, "", T1, TRUE),
  O("ExternalProdSubFFTGLWE", "ev", "fglwe", <<"fggsw", "glwe">>, "eprod", -1, "", T1, TRUE),
  O("CMux", "ev", "glwe", <<"fggswb", "glwe", "glwe">>, "cmux", 0, "", NT, TRUE) }
\* Key switching from foreign keys; "kk<i>" / "gg<i>" are key-switching keys, i = 0 maps the default key to itself.
KSWOps == {
  O("KeySwitchLWE", "ev", "lwe", <<"lk1", "kk1">>, "ksw", 0, "", NT, FALSE),
  O("KeySwitchLWE", "ev", "lwe", <<"lk2", "kk2">>, "ksw", 0, "", NT, FALSE),
  O("KeySwitchLWE", "ev", "lwe", <<"lwe", "kk0">>, "ksw", 0, "", NT, TRUE),
  O("KeySwitchGLWE", "ev", "glwe", <<"gk1", "gg1">>, "ksw", 0, "", NT, FALSE),
  O("KeySwitchGLWE", "ev", "glwe", <<"gk2", "gg2">>, "ksw", 0, "", NT, FALSE),
  O("KeySwitchGLWE", "ev", "glwe", <<"glwe", "gg0">>, "ksw", 0, "", NT, TRUE) }
Gates == {"NOT", "AND", "NAND", "OR", "NOR", "XOR", "XNOR"}
GateOps == { O(g, "ev", "lwe", IF g = "NOT" THEN <<"lwe">> ELSE <<"lwe", "lwe">>, "gate", 0, "", NT, TRUE) : g \in Gates }
ParGateOps == { O(g \o "Parallel", "ev", "lwe", <<"lwe", "lwe">>, "gate", 0, "", NT, TRUE) : g \in Gates \ {"NOT"} }
EncLWEOps == {
  O("EncryptLWE", "enc", "lwe", <<>>, "enc", 0, "msg", NT, TRUE) }
PEncLWEOps == {
  O("EncryptLWE", "penc", "lwe", <<>>, "enc", 0, "msg", NT, TRUE) }
EncBitOps == { O("EncryptLWEBool", "enc", "lwe", <<>>, "encbit", 0, "bit", NT, TRUE) }
PEncBitOps == { O("EncryptLWEBool", "penc", "lwe", <<>>, "encbit", 0, "bit", NT, TRUE) }
EncGLWEOps == {
  O("EncryptGLWE", "enc", "glwe", <<>>, "enc", 0, "msg", NT, TRUE),
  O("EncryptFFTGLWE", "enc", "fglwe", <<>>, "enc", 0, "msg", NT, TRUE) }
PEncGLWEOps == {
  O("EncryptGLWE", "penc", "glwe", <<>>, "enc", 0, "msg", NT, TRUE),
  O("EncryptFFTGLWE", "penc", "fglwe", <<>>, "enc", 0, "msg", NT, TRUE) }

(* --- the multi-key scheme: parties encrypt (secret or public key), embed ciphertexts of the single-key scheme, and *)
(* multiply joint ciphertexts by their own uni-encryptions and Lev encryptions.                                       *)
Dg(i) == CASE i = 0 -> "0" [] i = 1 -> "1" [] i = 2 -> "2" [] i = 3 -> "3" [] i = 4 -> "4" [] OTHER -> "5"
EncRecv == {"enc" \o Dg(i) : i \in Parties}
PEncRecv == {"penc" \o Dg(i) : i \in Parties}
SubRecv == {"sub" \o Dg(i) : i \in Parties}
PartyOf(rc) == CHOOSE i \in Parties : rc \in {"enc" \o Dg(i), "penc" \o Dg(i), "sub" \o Dg(i)}
PublicRecv(rc) == rc = "penc" \/ rc \in PEncRecv
MKEncOps(R, c, sfx) == UNION {{ O("Encrypt" \o sfx, rc, c, <<>>, "enc", 0, "msg", NT, TRUE) } : rc \in R}
MKBitOps(R) == UNION {{ O("EncryptLWEBool", rc, "lwe", <<>>, "encbit", 0, "bit", NT, TRUE) } : rc \in R}
MKRings(R) == MKEncOps(R, "glwe", "GLWE") \cup MKEncOps(R, "fglwe", "FFTGLWE")
MKProdOps == {
  O("HybridProdGLWE", "ev", "glwe", <<"funi", "glwe">>, "hprod", 0, "pidx", NT, TRUE),
  O("HybridProdAddGLWE", "ev", "glwe", <<"funi", "glwe">>, "hprod", 1, "pidx", T1, TRUE),
  O("HybridProdSubGLWE", "ev", "glwe", <<"funi", "glwe">>, "hprod", -1, "pidx", T1, TRUE),
  O("ExternalProdGLWE", "ev", "glwe", <<"mlev", "glwe">>, "xprod", 0, "pidx", NT, TRUE),
  O("ExternalProdAddGLWE", "ev", "glwe", <<"mlev", "glwe">>, "xprod", 1, "pidx", T1, TRUE),
  O("ExternalProdSubGLWE", "ev", "glwe", <<"mlev", "glwe">>, "xprod", -1, "pidx", T1, TRUE) }
\* In-place forms only: the multi-key evaluator has no allocating permutations.
NoNew(S) == {[o EXCEPT !.fs = SelectSeq(o.fs, LAMBDA x : x # "New")] : o \in S}
MKGLWEOps == LinOps("GLWE", "glwe", "ev") \cup PlainOps("GLWE", "glwe", "ev") \cup ScalOps("GLWE", "glwe", "ev")
  \cup PolyOps("GLWE", "glwe", "ev") \cup MonoOps("GLWE", "glwe", "ev") \cup NoNew(PermOps("GLWE", "glwe", "ev"))
MKFFTOps == LinOps("FFTGLWE", "fglwe", "ev") \cup PolyOps("FFTGLWE", "fglwe", "ev")
  \cup CplxOps("FFTGLWE", "fglwe", "ev") \cup NoNew(PermOps("FFTGLWE", "fglwe", "ev"))
MKConvOps == {
  O("FwdFFTGLWECiphertext", "ev", "fglwe", <<"glwe">>, "conv", 0, "", NT, FALSE),
  O("InvGLWECiphertext", "ev", "glwe", <<"fglwe">>, "conv", 0, "", NT, FALSE) }
MKBootOps == { O(n, "ev", "lwe", <<"lwe">>, "boot", 0, "fn", NT, TRUE) :
                 n \in {"BootstrapFunc", "BootstrapLUT", "BootstrapFuncParallel", "BootstrapLUTParallel"} }
MKBROps == { O(n, "ev", "rot", <<CS>>, "brot", 0, "fn", NT, FALSE) : n \in {"BlindRotate", "BlindRotateParallel"} }
  \cup { O("AsLWECiphertext", "ct", CL, <<"rot">>, "ext0", 0, "zero", NT, FALSE) }

(* --- extensions: BFV arithmetic, many-LUT, circuit bootstrapping, sanitization. *)
BFVPackOps == {
  O("Permute", "bfv", "glwe", <<"glwe">>, "bperm", 0, "gal", NT, TRUE),
  O("Pack", "bfv", "glwe", <<CL>>, "pack", 0, "", NT, FALSE) }
BFVOps == BFVPackOps \cup {
  O("Tensor", "bfv", "tens", <<"glwe", "glwe">>, "tensor", 0, "", NT, FALSE),
  O("Relinearize", "bfv", "glwe", <<"tens">>, "relin", 0, "", NT, FALSE),
  O("Mul", "bfv", "glwe", <<"glwe", "glwe">>, "bmul", 0, "", NT, TRUE) }
MLutOps == { O(n, "mlut", "mlwe", <<"lwe">>, "mboot", 0, "fns", NT, FALSE) : n \in {"BootstrapFunc", "BootstrapLUT"} }
  \cup { O("Pick", "pick", "lwe", <<"mlwe">>, "pick", 0, "ent", NT, FALSE),
         \* the input is one of the ciphertexts that receive the results
         O("BootstrapEntry", "pick", "mlwe", <<"mlwe">>, "mbootx", 0, "fnsx", T1, TRUE) }
CBOps == {
  O("CircuitBootstrap", "cb", "cggsw", <<"lwe">>, "cboot", 0, "", NT, FALSE),
  O("ExternalProdGLWE", "ev", "glwe", <<"cggsw", "glwe">>, "ceprod", 0, "", NT, TRUE),
  O("ExternalProdAddGLWE", "ev", "glwe", <<"cggsw", "glwe">>, "ceprod", 1, "", T1, TRUE),
  O("ExternalProdFFTGLWE", "ev", "fglwe", <<"cggsw", "glwe">>, "ceprod", 0, "", T1, TRUE),
  O("CMux", "ev", "glwe", <<"cggsw", "glwe", "glwe">>, "ccmux", 0, "", NT, TRUE) }
SanOps == {
  O("ReRandLWE", "san", CL, <<CL>>, "rerand", 0, "", T1, TRUE),
  O("ReRandGLWE", "san", "glwe", <<"glwe">>, "rerand", 0, "", T1, TRUE),
  O("SanitizeFunc", "san", "lwe", <<"lwe">>, "san", 0, "fn", NT, TRUE),
  O("SanitizeLUT", "san", "lwe", <<"lwe">>, "san", 0, "fn", NT, TRUE) }

Group(g) ==
  CASE g = "mkencl" -> MKEncOps(EncRecv \cup SubRecv, "lwe", "LWE")
    [] g = "mkpencl" -> MKEncOps(PEncRecv, "lwe", "LWE")
    [] g = "mkbit" -> MKBitOps(EncRecv \cup SubRecv)
    [] g = "mkpbit" -> MKBitOps(PEncRecv)
    [] g = "mkencg" -> MKRings(EncRecv \cup SubRecv)
    [] g = "mkpencg" -> MKRings(PEncRecv)
    [] g = "mkprod" -> MKProdOps
    [] g = "mkglwe" -> MKGLWEOps
    [] g = "mkfft" -> MKFFTOps
    [] g = "mkconv" -> MKConvOps
    [] g = "mkboot" -> MKBootOps
    [] g = "mkbrot" -> MKBROps
    [] g = "bfv" -> BFVOps
    [] g = "bfvpack" -> BFVPackOps
    [] g = "mlut" -> MLutOps
    [] g = "cb" -> CBOps
    [] g = "san" -> SanOps
    [] g = "lwe" -> LWEOps
    [] g = "glwe" -> GLWEOps
    [] g = "fft" -> FFTOps
    [] g = "conv" -> ConvOps
    [] g = "ext" -> ExtOps
    [] g = "ks" -> KSOps
    [] g = "ksw" -> KSWOps
    [] g = "ksw0" -> {o \in KSWOps : o.al}
    [] g = "boot" -> BootOps
    [] g = "brot" -> BROps
    [] g = "gplwe" -> GProdLWEOps
    [] g = "gpglwe" -> GProdGLWEOps
    [] g = "gate" -> GateOps
    [] g = "pargate" -> ParGateOps
    [] g = "encbit" -> EncBitOps
    [] g = "pencbit" -> PEncBitOps
    [] g = "enclwe" -> EncLWEOps
    [] g = "penclwe" -> PEncLWEOps
    [] g = "encglwe" -> EncGLWEOps
    [] g = "pencglwe" -> PEncGLWEOps
    [] OTHER -> {}

\* Re-encryption, available in every configuration.
InitOps == { O("EncryptLWE", "enc", "lwe", <<>>, "enc", 0, "msg", T1, TRUE),
             O("EncryptGLWE", "enc", "glwe", <<>>, "enc", 0, "msg", T1, TRUE),
             O("EncryptLWEBool", "enc", "lwe", <<>>, "encbit", 0, "bit", T1, TRUE) }
  \cup MKEncOps(EncRecv, "lwe", "LWE") \cup MKEncOps(EncRecv, "glwe", "GLWE") \cup MKBitOps(EncRecv)

Ops == UNION {Group(Cfg.groups[g]) : g \in 1..Len(Cfg.groups)}
\* the programs only use look-up tables whose windows are wide enough
ASSUME Cfg.kind = "fhew" \/ \A o \in Ops :
  /\ o.k \in {"boot", "brot"} => Margin(LutLen(Cfg.shape), P, OnesOf(Cfg.shape) * MaxI(1, K), 1)
  /\ o.k \in {"mboot", "mbootx"} => Margin(LutLen(Cfg.shape), P, OnesOf(Cfg.shape), Cfg.lutcount)

--------------------------------------------------------------------------
(* Semantics.  e is the operation with its arguments.                       *)
BootV(fn, v) == IF v < P THEN (fn[v + 1] % P) ELSE (0 - (fn[v - P + 1] % P)) % M

\* Boolean encoding: true is +1, false is -1 (in units of Q/8).
BitOf(v) == v = 1
IsBit(v) == v = 1 \/ v = M - 1
ValBit(b) == IF b THEN 1 ELSE M - 1
GateV(g, x, y) ==
  CASE g \in {"AND", "ANDParallel"} -> x /\ y
    [] g \in {"NAND", "NANDParallel"} -> ~(x /\ y)
    [] g \in {"OR", "ORParallel"} -> x \/ y
    [] g \in {"NOR", "NORParallel"} -> ~(x \/ y)
    [] g \in {"XOR", "XORParallel"} -> x # y
    [] g \in {"XNOR", "XNORParallel"} -> x = y
    [] OTHER -> ~x

Src(o, e) == IF e.form = "InPlace" THEN e.out ELSE e.in[1]

Base(o, e, val) ==
  LET a == val[Src(o, e)]
      b == val[e.in[2]]
      ln == LenOf(o.o)
  IN CASE o.k = "add" -> RAdd(M, a, b)
       [] o.k = "sub" -> RSub(M, a, b)
       [] o.k = "neg" -> RNeg(M, a)
       [] o.k = "addp" -> RAdd(M, a, RExt(ln, RMod(P, e.poly)))
       [] o.k = "subp" -> RSub(M, a, RExt(ln, RMod(P, e.poly)))
       [] o.k = "smul" -> RScale(M, e.sc, a)
       [] o.k = "pmul" -> RMul(M, e.poly, a)
       [] o.k = "fmul" -> RScale(M, e.cr, a)
       [] o.k = "cmul" -> RAdd(M, RScale(M, e.cr, a), RMono(M, N \div 2, RScale(M, e.ci, a)))
       [] o.k = "mono" -> RMono(M, e.ints[1], a)
       [] o.k = "perm" -> RPerm(M, e.ints[1], a)
       [] o.k \in {"conv", "ks", "ksw"} -> a
       [] o.k = "ext" -> <<a[e.ints[1] + 1]>>
       [] o.k = "ext0" -> <<a[1]>>
       [] o.k \in {"boot", "brot"} -> <<BootV(e.fn, a[1])>>
       [] o.k = "mboot" -> [i \in 1..Cfg.lutcount |-> IF i <= Len(e.fns) THEN BootV(e.fns[i], a[1]) ELSE 0]
       [] o.k = "mbootx" -> [i \in 1..Cfg.lutcount |-> IF i <= Len(e.fns) THEN BootV(e.fns[i], a[e.ints[1] + 1]) ELSE 0]
       [] o.k = "pick" -> <<a[e.ints[1] + 1]>>
       [] o.k \in {"tensor", "bmul"} -> RMul(M, a, b)
       [] o.k = "relin" -> a
       [] o.k = "bperm" -> RPerm(M, e.ints[1], a)
       [] o.k = "pack" -> RExt(N, a)
       [] o.k = "cboot" -> RExt(N, <<IF a[1] < P THEN a[1] ELSE P - a[1]>>)
       [] o.k = "ceprod" -> RMul(M, a, b)
       [] o.k = "ccmux" -> IF a[1] = 0 THEN b ELSE val[e.in[3]]
       [] o.k = "rerand" -> a
       [] o.k = "san" -> <<BootV(e.fn, a[1])>>
       [] o.k = "gprod" -> IF ln = 1 THEN RScale(M, e.sc, a) ELSE RMul(M, e.poly, a)
       [] o.k \in {"hprod", "xprod"} -> RMul(M, a, b)
       [] o.k = "eprod" -> IF ln = 1 THEN RScale(M, a[1], b) ELSE RMul(M, a, b)
       [] o.k = "cmux" -> IF a[1] = 0 THEN b ELSE val[e.in[3]]
       [] o.k = "enc" -> RExt(ln, RMod(P, e.poly))
       [] o.k = "encbit" -> <<ValBit(e.poly[1] = 1)>>
       [] o.k = "gate" -> <<ValBit(GateV(o.n, BitOf(a[1]), IF Len(o.i) = 2 THEN BitOf(b[1]) ELSE TRUE))>>

Sem(o, e, val) ==
  LET r == Base(o, e, val)
  IN IF o.acc = 0 THEN r ELSE IF o.acc = 1 THEN RAdd(M, val[e.out], r) ELSE RSub(M, val[e.out], r)

FreshNz(s) == IF IsConst(s) THEN 0
              ELSE IF ClsOf[s] = "fglwe" THEN MaxI(Nse.fr, Nse.fe) + 1 ELSE Nse.fr

\* Noise of a foreign key switch: gadget and input dimension are those of the key slot.
KSWNz(s) ==
  LET g == Cfg.ksg[IdxOf[s]]        \* <<base, level, input dimension>>
      c == ClsOf[s]
  IN IF c \in {"kk0", "kk1", "kk2"} THEN ProdNz(Cfg.shape, g[1], g[2], g[3] * g[2], g[3], FALSE)
     ELSE ProdNz(Cfg.shape, g[1], g[2], g[3] * N * g[2], g[3] * N, TRUE) + 1

(* Bound on the bit length of the noise of the result.                       *)
Nz(o, e, val, nz) ==
  LET a == nz[Src(o, e)]
      b == nz[e.in[2]]
      n == Nse
      r == CASE o.k \in {"add", "sub"} -> MaxI(a, b) + 1
             [] o.k \in {"neg", "addp", "subp", "mono", "ext", "ext0"} -> a
             [] o.k = "smul" -> a + BitLen(Abs(e.sc))
             [] o.k = "pmul" -> MaxI(a, n.fe) + BitLen(L1(e.poly)) + 1
             [] o.k = "fmul" -> MaxI(a, n.fe) + BitLen(Abs(e.cr)) + 1
             [] o.k = "cmul" -> MaxI(a, n.fe) + BitLen(Abs(e.cr) + Abs(e.ci)) + 1
             [] o.k = "perm" -> IF o.o = "fglwe" THEN MaxI(a, n.fe) + 1 ELSE a
             [] o.k = "conv" -> MaxI(a, n.fe) + 1
             [] o.k = "ks" -> MaxI(a, n.ks) + 1
             [] o.k = "ksw" -> MaxI(a, KSWNz(e.in[2])) + 1
             [] o.k = "boot" -> n.pb
             [] o.k = "brot" -> n.br
             [] o.k \in {"mboot", "mbootx"} -> n.pb
             [] o.k = "pick" -> a
             [] o.k = "tensor" -> TensNz(Cfg.shape, a, b)
             [] o.k = "relin" -> MaxI(a, RelinNz(Cfg.shape, Cfg.rbase, Cfg.rlevel)) + 1
             [] o.k = "bmul" -> MaxI(TensNz(Cfg.shape, a, b), RelinNz(Cfg.shape, Cfg.rbase, Cfg.rlevel)) + 1
             [] o.k = "bperm" -> MaxI(a, GalNz(Cfg.shape, Cfg.abase, Cfg.alevel)) + 1
             [] o.k = "pack" -> PackNz(Cfg.shape, a, Cfg.abase, Cfg.alevel)
             [] o.k = "cboot" -> CBNz(Cfg.shape, Cfg.rbase, Cfg.rlevel, Cfg.abase, Cfg.alevel)
             [] o.k = "ceprod" -> MaxI(b + BitLen(L1(val[e.in[1]])), XRowNz(Cfg.shape, a, Cfg.obase, Cfg.olevel)) + 2
             [] o.k = "ccmux" -> MaxI(XRowNz(Cfg.shape, a, Cfg.obase, Cfg.olevel), MaxI(b, nz[e.in[3]])) + 2
             [] o.k = "rerand" -> MaxI(a, ReRandNz(Cfg.shape, Cfg.san[1], Cfg.san[2])) + 1
             [] o.k = "san" -> SanNz(Cfg.shape, Cfg.san[3], Cfg.san[4])
             [] o.k = "gprod" -> n.gp + BitLen(L1(val[e.in[1]]))
             [] o.k = "eprod" -> MaxI(b, n.gp) + BitLen(L1(val[e.in[1]])) + 1
             [] o.k = "hprod" -> MaxI(b, n.hp) + BitLen(L1(val[e.in[1]])) + 1
             [] o.k = "xprod" -> MaxI(b, n.gp) + BitLen(L1(val[e.in[1]])) + 1
             [] o.k = "cmux" -> MaxI(n.gp, MaxI(b, nz[e.in[3]])) + 2
             [] o.k \in {"enc", "encbit"} -> LET f == IF PublicRecv(e.recv) THEN n.pk ELSE n.fr IN IF o.o = "fglwe" THEN MaxI(f, n.fe) + 1 ELSE f
             [] o.k = "gate" -> IF o.n = "NOT" THEN a ELSE n.pb
  IN IF o.acc = 0 THEN r ELSE MaxI(nz[e.out], r) + 1

(* Automorphism index of the result (1: the original key).                   *)
XKinds == {"mboot", "mbootx", "pick", "tensor", "relin", "bmul", "bperm", "pack", "cboot", "ceprod", "ccmux", "rerand", "san"}
AutNext(o, e, aut) ==
  IF o.k = "perm" THEN (aut[Src(o, e)] * e.ints[1]) % (2 * N)
  ELSE IF o.k \in {"enc", "encbit", "gprod", "eprod", "hprod", "xprod", "cmux", "ext", "ext0", "ks", "ksw", "boot", "brot", "gate"} \cup XKinds THEN 1
  ELSE aut[Src(o, e)]

(* Multi-key: the parties a joint ciphertext depends on.  An operation that uses evaluation keys needs the keys of *)
(* all of them; its result depends at most on the registered parties.                                                *)
NeedsKeys(o) == o.k \in {"hprod", "xprod", "boot", "brot", "ks"} \/ (o.k = "gate" /\ o.n # "NOT")
InSup(e, sup) == IF e.form = "InPlace" THEN sup[e.out] ELSE UNION {sup[e.in[i]] : i \in 1..Len(e.in)}
SupNext(o, e, sup, reg) ==
  LET r == CASE o.k \in {"enc", "encbit"} -> IF K = 0 THEN {} ELSE {PartyOf(e.recv)}
             [] o.k \in {"boot", "brot"} -> reg
             [] o.k = "gate" -> IF o.n = "NOT" THEN InSup(e, sup) ELSE reg
             [] o.k \in {"hprod", "xprod"} -> InSup(e, sup) \cup {e.ints[1]}
             [] OTHER -> InSup(e, sup)
  IN IF o.acc = 0 THEN r ELSE r \cup sup[e.out]
KeysThere(o, e, sup, reg) == K = 0 \/ ~NeedsKeys(o) \/ (InSup(e, sup) \subseteq reg /\ (o.k \in {"hprod", "xprod"} => e.ints[1] \in reg))
InitSup == [s \in SlotNames |-> IF K = 0 \/ IsConst(s) THEN {} ELSE {Slots[IdxOf[s]].i}]
SeqSet(q) == {q[i] : i \in 1..Len(q)}
DecV(c, v) == [i \in 1..Len(v) |-> IF Cfg.bits THEN (IF v[i] = 1 THEN 1 ELSE 0) ELSE v[i] % P]

(* When an operation may be applied.                                          *)
Enabled(o, e, val, nz, aut) ==
  /\ o.acc # 0 => aut[e.out] = AutNext(o, e, aut)
  /\ o.k \in {"add", "sub"} => aut[e.in[1]] = aut[e.in[2]]
  /\ o.k \in {"eprod", "hprod", "xprod", "cmux", "ext", "ksw"} \cup XKinds => \A i \in 1..Len(e.in) : aut[e.in[i]] = 1
  /\ ~o.al => (e.form = "InPlace" \/ \A i \in 1..Len(e.in) : e.in[i] # e.out)
  /\ o.k = "gate" => \A i \in 1..Len(e.in) : IsBit(val[e.in[i]][1])
  /\ o.k \in {"boot", "brot", "mboot", "mbootx", "cboot", "san"} => nz[e.in[1]] <= Nse.bb
  \* the output gadget must hold the message, and a selector must be a bit
  /\ o.k = "ccmux" => val[e.in[1]][1] \in {0, 1}
  /\ Nz(o, e, val, nz) <= Nse.bud
=============================================================================
