----------------------------- MODULE PresetTrace -----------------------------
(* Programs over the published parameter sets, at their real sizes.  A state    *)
(* gives the message of every register: a phase in units of the scale modulo     *)
(* twice the message modulus (LWE), a polynomial over the message modulus         *)
(* (GLWE), or a bit.                                                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, p, n, reg, g
vars == <<l, p, n, reg, g>>
E == Trace[l]
Put(f, d, v) == [x \in DOMAIN f \cup {d} |-> IF x = d THEN v ELSE f[x]]

Init == l = 1 /\ p = 2 /\ n = 0 /\ reg = <<>> /\ g = <<>>
New == E.ev = "new" /\ p' = E.p /\ n' = E.N /\ reg' = <<>> /\ g' = <<>>

\* ---- LWE registers: phases modulo 2p
Write(d, v, ph) == ph = v /\ reg' = Put(reg, d, v) /\ UNCHANGED <<p, n, g>>
\* the table of f, extended negacyclically
Ext(f, v) == IF v < p THEN f[v + 1] ELSE (2 * p - f[v - p + 1]) % (2 * p)

Enc == E.ev = "enc" /\ E.dec = E.m % p /\ Write(E.d, E.m, E.ph)
Sum == E.ev = "sum" /\ Write(E.d, (IF E.sub THEN reg[E.a] - reg[E.b] ELSE reg[E.a] + reg[E.b]) % (2 * p), E.ph)
Pbs == E.ev = "pbs" /\ Write(E.d, Ext(E.f, reg[E.a]), E.ph)
Many == /\ E.ev = "many"
        /\ \A j \in 1..Len(E.fs) : E.phs[j] = Ext(E.fs[j], reg[E.a])
        /\ reg' = [x \in DOMAIN reg \cup {E.ds[j] : j \in 1..Len(E.ds)} |->
                     IF \E j \in 1..Len(E.ds) : E.ds[j] = x THEN Ext(E.fs[CHOOSE j \in 1..Len(E.ds) : E.ds[j] = x], reg[E.a]) ELSE reg[x]]
        /\ UNCHANGED <<p, n, g>>

\* ---- bits
Gate(op, a, b) ==
  CASE op = "NOT" -> ~a [] op = "AND" -> a /\ b [] op = "NAND" -> ~(a /\ b) [] op = "OR" -> a \/ b
    [] op = "NOR" -> ~(a \/ b) [] op = "XOR" -> a # b [] op = "XNOR" -> a = b
Bit == E.ev = "bit" /\ Write(E.d, E.m, E.bit)
GateOp == E.ev = "gate" /\ Write(E.d, Gate(E.op, reg[E.a], reg[E.b]), E.bit)

\* ---- GLWE registers: polynomials modulo X^n + 1 over Z_p; t are terms <<exponent, coefficient>>
OfTerms(t) == LET S == {t[i][1] : i \in 1..Len(t)}
              IN [k \in 1..n |-> IF (k - 1) \in S THEN t[CHOOSE i \in 1..Len(t) : t[i][1] = k - 1][2] ELSE 0]
Terms(v) == LET nz == SelectSeq([k \in 1..n |-> k], LAMBDA k : v[k] # 0) IN [i \in 1..Len(nz) |-> <<nz[i] - 1, v[nz[i]]>>]
At(v, i) == LET j == i % (2 * n) IN IF j < n THEN v[j + 1] ELSE -v[j - n + 1]
RECURSIVE Dot(_, _, _, _)
Dot(t, v, k, i) == IF i > Len(t) THEN 0 ELSE t[i][2] * At(v, k - t[i][1]) + Dot(t, v, k, i + 1)
Mul(t, v) == [k \in 1..n |-> Dot(t, v, k - 1, 1) % p]
Perm(d, v) == LET dd == d % (2 * n)
                  inv == CHOOSE e \in 1..(2 * n - 1) : (e * dd) % (2 * n) = 1
              IN [k \in 1..n |-> At(v, (k - 1) * inv) % p]

GVal == LET a == IF E.op = "pack" THEN <<>> ELSE g[E.a] IN
  CASE E.op = "add" -> [k \in 1..n |-> (a[k] + g[E.b][k]) % p]
    [] E.op = "sub" -> [k \in 1..n |-> (a[k] - g[E.b][k]) % p]
    [] E.op = "mono" -> [k \in 1..n |-> At(a, k - 1 - E.k) % p]
    [] E.op = "smul" -> [k \in 1..n |-> (a[k] * E.k) % p]
    [] E.op = "pmul" -> Mul(E.q, a)
    [] E.op = "mul" -> Mul(Terms(g[E.b]), a)
    [] E.op = "perm" -> Perm(E.k, a)
    [] E.op = "pack" -> [k \in 1..n |-> IF k = 1 THEN reg[E.a] % p ELSE 0]
    [] E.op = "cmux" -> IF E.k = 0 THEN a ELSE g[E.b]
    [] E.op = "cmuxr" -> IF reg[E.k] = 0 THEN a ELSE g[E.b]
    [] E.op = "smulr" -> [k \in 1..n |-> (a[k] * reg[E.k]) % p]
GWrite(v) == E.r = v /\ g' = Put(g, E.d, v) /\ UNCHANGED <<p, n, reg>>
GEnc == E.ev = "genc" /\ GWrite(OfTerms(E.t))
GOp == E.ev = "gop" /\ GWrite(GVal)
Extract == E.ev = "ext" /\ E.m = g[E.a][E.k + 1] /\ UNCHANGED <<p, n, reg, g>>

Next == l <= Len(Trace) /\ l' = l + 1 /\ (New \/ Enc \/ Sum \/ Pbs \/ Many \/ Bit \/ GateOp \/ GEnc \/ GOp \/ Extract)
TSpec == Init /\ [][Next]_vars
Acc == PrintT(<<"VT", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
