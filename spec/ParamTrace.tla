------------------------------ MODULE ParamTrace ------------------------------
(* Parameter literals: which ones compile, and what the compiled parameters      *)
(* report.  A float is sign * m * 2^e with odd m (m = 0 for zero).                *)
EXTENDS Words, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

Z(x) == ZMk(x.s, x.m)
\* the k with x = 2^k (0 <= k <= 64), or -1
Log2Z(x) == LET s == {k \in 0..64 : x = ZPow2(k)} IN IF s = {} THEN -1 ELSE CHOOSE k \in s : TRUE
RECURSIVE Log2I(_)
Log2I(x) == IF x <= 1 THEN 0 ELSE 1 + Log2I(x \div 2)
IsPow2I(x) == x > 0 /\ 2 ^ Log2I(x) = x
Times2(f, k) == [s |-> f.s, m |-> f.m, e |-> IF f.s = 0 THEN 0 ELSE f.e + k]

(* ---- gadgets ---- *)
GadValid(g, w) ==
  /\ ZLe(ZOf(2), Z(g.b)) /\ Log2Z(Z(g.b)) >= 0
  /\ g.l > 0 /\ Log2Z(Z(g.b)) * g.l <= w
GadDerived(g, d, w) ==
  LET lb == Log2Z(Z(g.b)) IN
  /\ Z(d.b) = Z(g.b) /\ d.lb = lb /\ d.l = g.l
  /\ Len(d.bq) = g.l /\ Len(d.lbq) = g.l
  /\ \A i \in 1..g.l : d.lbq[i] = w - i * lb /\ Z(d.bq[i]) = ZPow2(w - i * lb)
  /\ d.lfirst = w - lb /\ Z(d.first) = ZPow2(w - lb)
  /\ d.llast = w - g.l * lb /\ Z(d.last) = ZPow2(w - g.l * lb)
SameGad(g, h) == Z(g.b) = Z(h.b) /\ g.l = h.l

(* ---- core parameters ---- *)
Norm(p) == [p EXCEPT !.lut = IF p.lut = 0 THEN p.N ELSE p.lut, !.blk = IF p.blk = 0 THEN 1 ELSE p.blk]
CoreValid(p0, w) ==
  LET p == Norm(p0) IN
  /\ p.n > 0 /\ p.k > 0 /\ p.n <= p.k * p.N
  /\ IsPow2I(p.N) /\ p.lut >= p.N /\ p.lut % p.N = 0
  /\ p.ls.s = 1 /\ p.lg.s = 1
  /\ p.blk > 0 /\ p.n % p.blk = 0
  /\ p.ord \in {0, 1}
  /\ GadValid(p.br, w) /\ GadValid(p.ks, w)
\* scale = Q / 2p rounded to the nearest integer
ScaleOK(sc, p, w) ==
  LET d == ZSub(ZMul(ZMul(ZOf(2), Z(p)), Z(sc)), ZPow2(w)) IN ZLe(ZAbs(d), Z(p))
CommonDerived(p, d, w, cnt) ==
  /\ d.n = cnt * p.n /\ d.kN = cnt * p.k * p.N /\ d.k = cnt * p.k /\ d.N = p.N /\ 2 ^ d.logN = p.N
  /\ d.dn = IF p.ord = 1 THEN cnt * p.n ELSE cnt * p.k * p.N
  /\ d.ls = p.ls /\ d.lsq = Times2(p.ls, w) /\ d.lg = p.lg /\ d.lgq = Times2(p.lg, w)
  /\ d.ds = (IF p.ord = 1 THEN p.ls ELSE p.lg) /\ d.dsq = Times2(IF p.ord = 1 THEN p.ls ELSE p.lg, w)
  /\ d.blk = p.blk /\ d.cnt = p.n \div p.blk
  /\ d.p = p.p /\ ScaleOK(d.scale, p.p, w) /\ d.logq = w
  /\ GadDerived(p.br, d.br, w) /\ GadDerived(p.ks, d.ks, w) /\ d.ord = p.ord
CoreDerived(p0, d, w) ==
  LET p == Norm(p0) IN
  /\ CommonDerived(p, d, w, 1)
  /\ d.lut = p.lut /\ d.ext = p.lut \div p.N /\ d.pub = 1 - p.ord
SameCore(p, q) ==
  /\ \A f \in {"n", "k", "N", "lut", "ls", "lg", "blk", "ord"} : p[f] = q[f]
  /\ Z(p.p) = Z(q.p) /\ SameGad(p.br, q.br) /\ SameGad(p.ks, q.ks)

Verdict(e, valid) == IF valid THEN e.st = "ok" ELSE e.st = "panic"

CoreOK(e) ==
  /\ Verdict(e, CoreValid(e.lit, e.w))
  /\ e.st = "ok" => CoreDerived(e.lit, e.d, e.w) /\ SameCore(Norm(e.lit), e.lit2) /\ e.same
GadgetOK(e) ==
  /\ Verdict(e, GadValid(e.lit, e.w))
  /\ e.st = "ok" => GadDerived(e.lit, e.d, e.w) /\ SameGad(e.lit, e.lit2) /\ e.same
MkValid(p, w) ==
  /\ CoreValid(p.sub, w) /\ p.cnt > 0 /\ p.sub.k = 1 /\ Norm(p.sub).lut = p.sub.N
  /\ GadValid(p.acc, w) /\ GadValid(p.rlk, w)
MkOK(e) ==
  /\ Verdict(e, MkValid(e.lit, e.w))
  /\ e.st = "ok" =>
       /\ CommonDerived(Norm(e.lit.sub), e.d, e.w, e.lit.cnt) /\ CoreDerived(e.lit.sub, e.sub, e.w)
       /\ e.d.cnt2 = e.lit.cnt /\ GadDerived(e.lit.acc, e.d.acc, e.w) /\ GadDerived(e.lit.rlk, e.d.rlk, e.w)
       /\ SameCore(Norm(e.lit.sub), e.lit2.sub) /\ e.lit2.cnt = e.lit.cnt
       /\ SameGad(e.lit.acc, e.lit2.acc) /\ SameGad(e.lit.rlk, e.lit2.rlk) /\ e.same

(* ---- extensions ---- *)
NoExt(e) == Norm(e.base).lut = e.base.N
FloatsOK(e) == /\ Len(e.o.fs) = Len(e.fs) /\ Len(e.o.fq) = Len(e.fs)
               /\ \A i \in 1..Len(e.fs) : e.o.fs[i] = e.fs[i] /\ e.o.fq[i] = Times2(e.fs[i], e.w)
ExtOK(e) ==
  /\ Verdict(e, /\ CoreValid(e.base, e.w) /\ NoExt(e)
                /\ CASE e.kind = "manylut" -> IsPow2I(e.a)
                     [] e.kind = "fhew" -> /\ Norm(e.base).blk = 1 /\ e.a > 0 /\ e.fs[1].s = 1
                                           /\ e.fs[1].e + e.w < 8 - 3      \* std * Q * 8 < 2^ShortLogBound
                     [] e.kind = "sanitize" -> e.base.k = 1 /\ e.base.ord = 0 /\ \A i \in 1..4 : e.fs[i].s = 1
                     [] e.kind = "cboot" -> IsPow2I(e.a) /\ \A i \in 1..3 : GadValid(e.gs[i], e.w))
  /\ e.st = "ok" =>
       /\ CoreDerived(e.base, e.d, e.w)
       /\ CASE e.kind = "manylut" -> e.o.a = e.a /\ 2 ^ e.o.loga = e.a
            [] e.kind = "fhew" -> e.o.a = e.a /\ FloatsOK(e)
            [] e.kind = "sanitize" -> FloatsOK(e)
            [] e.kind = "cboot" -> e.o.a = e.a /\ 2 ^ e.o.loga = e.a /\ \A i \in 1..3 : GadDerived(e.gs[i], e.o.gs[i], e.w)

(* ---- With methods change exactly their field ---- *)
FieldName(f) == CASE f = "SingleKeyLWEDimension" -> "LWEDimension" [] OTHER -> f
WithOK(e) ==
  LET f == FieldName(e.field) IN
  /\ e.st = "ok" /\ e.intact /\ DOMAIN e.after = DOMAIN e.before /\ f \in DOMAIN e.before
  /\ \A g \in DOMAIN e.before : e.after[g] = IF g = f THEN e.arg ELSE e.before[g]

(* ---- presets: they compile, and are correct for what their names promise ---- *)
Bits == [Uint2 |-> 2, Uint3 |-> 3, Uint4 |-> 4, Uint5 |-> 5, Uint6 |-> 6, Uint7 |-> 7, Uint8 |-> 8, Uint2LUT4 |-> 2, Uint3LUT2 |-> 3]
Cnt == [Party2 |-> 2, Party4 |-> 4, Party8 |-> 8, Party16 |-> 16, Party32 |-> 32, Uint2LUT4 |-> 4, Uint3LUT2 |-> 2, BinaryLUT2 |-> 2, BinaryCompactLUT2 |-> 2]
PresetOK(e) ==
  /\ e.st = "ok"
  /\ e.kind # "gadget" => ScaleOK(e.d.scale, e.d.p, e.d.logq) /\ e.d.log2fail <= -30
  /\ e.name \in DOMAIN Bits => Z(e.d.p) = ZPow2(Bits[e.name])
  /\ e.name \in DOMAIN Cnt => e.d.cnt = Cnt[e.name]

OK(e) ==
  CASE e.ev = "core" -> CoreOK(e)
    [] e.ev = "gadget" -> GadgetOK(e)
    [] e.ev = "mk" -> MkOK(e)
    [] e.ev = "ext" -> ExtOK(e)
    [] e.ev = "with" -> WithOK(e)
    [] e.ev = "preset" -> PresetOK(e)
    [] OTHER -> FALSE

TInit == l = 1
TNext == l <= Len(Trace) /\ (OK(Trace[l]) = TRUE) /\ l' = l + 1
TSpec == TInit /\ [][TNext]_l
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
