-------------------------------- MODULE Noise --------------------------------
(* The noise model: upper bounds (in bits) on the noise of the results of the *)
(* operations, as a function of the parameter shape.  A sum of R independent   *)
(* terms is bounded by 8 standard deviations, i.e. 3 bits above the root-mean- *)
(* square value; fresh noise is bounded by 32 standard deviations.             *)
EXTENDS Ring

Half(x) == (x + 1) \div 2                  \* ceil(x / 2)
LogRoot(R) == Half(BitLen(R))              \* log2(sqrt(R)), rounded up
NMax(S) == CHOOSE x \in S : \A y \in S : y <= x

LogStd(sh) == sh.logq + sh.logstd
LogN(sh) == BitLen(sh.N) - 1
IsBig(sh) == sh.logq = 64
GDim(sh) == sh.rank * sh.N
Dim0(sh) == IF sh.order = 0 THEN GDim(sh) ELSE sh.dim

\* Error of one FFT round trip of a full-size polynomial (double precision: 53 bits).
FFTErr(sh) == IF IsBig(sh) THEN 11 + LogN(sh) + 4 ELSE 2

\* A sum of R products of base-2^b digits with fresh rows; W key elements multiply the rounding error.
ProdNz(sh, b, lv, R, W, fft) ==
  LET lbq == IF b * lv >= sh.logq THEN 0 ELSE sh.logq - b * lv
      rows == LogStd(sh) + 3 + b - 1 + LogRoot(R)
      rnd == IF lbq = 0 THEN 0 ELSE lbq + 1 + LogRoot(W + 1)
      \* binary64 rounding of the mask is multiplied by the secret key
      flt == IF fft THEN (IF IsBig(sh) THEN 11 + b + LogRoot(R) + MaxI(2, LogRoot(GDim(sh) + 1)) ELSE 3) ELSE 0
  IN NMax({rows, rnd, flt}) + 1

\* Gadget and external products with gadget (b, lv).
GPNz(sh, b, lv) ==
  LET D == IF GDim(sh) > Dim0(sh) THEN GDim(sh) ELSE Dim0(sh)
  IN ProdNz(sh, b, lv, (D + sh.N) * lv, D, TRUE)
KSNz(sh, b, lv, dimIn) == ProdNz(sh, b, lv, dimIn * lv, dimIn, FALSE)
BRNz(sh) == ProdNz(sh, sh.brbase, sh.brlevel, (GDim(sh) + sh.N) * sh.brlevel, GDim(sh), TRUE) + Half(BitLen(sh.dim)) + 1

\* Rotation by the phase of H + 1 words, each rounded to a multiple of cnt, reads the right window
\* of a table of L entries for p messages (checked exhaustively by MC_Window).
Margin(L, p, h, cnt) == IF L % (2 * p) = 0 THEN L > cnt * p * (h + 1) ELSE L > p * (cnt * (h + 1) + 2)
LutLen(sh) == IF sh.lut = 0 THEN sh.N ELSE sh.lut
OnesOf(sh) == IF sh.block > 1 THEN sh.dim \div sh.block ELSE sh.dim

NoiseOf(sh, gb, gl) ==
  LET d == LogStd(sh)
      br == BRNz(sh)
      ks == KSNz(sh, sh.ksbase, sh.kslevel, GDim(sh))
      logp == BitLen(sh.p - 1)
      bud == sh.logq - 1 - logp - 2
  IN [fr |-> d + 5, pk |-> d + LogRoot(GDim(sh) + sh.N) + 4, fe |-> FFTErr(sh), br |-> br, ks |-> ks,
      pb |-> IF sh.order = 0 THEN br ELSE MaxI(br, ks) + 1,
      gp |-> GPNz(sh, gb, gl), bud |-> bud, bb |-> bud - 4]
(* --- multi-key scheme with K parties (rank 1).  Relinearization gadget (rb, rl), accumulator gadget (ab, al). *)
MKHPNz(sh, b, lv, K) ==
  LET rows == LogStd(sh) + 3 + b - 1 + LogRoot((K + 2) * lv * sh.N) + LogRoot(sh.N)
      rnd == IF b * lv >= sh.logq THEN 0 ELSE sh.logq - b * lv + 1 + LogRoot((K + 1) * sh.N) + LogRoot(sh.N)
      flt == (IF IsBig(sh) THEN 11 + b + LogRoot((K + 2) * lv * sh.N) + 2 ELSE 3) + LogRoot(sh.N)
  IN NMax({rows, rnd, flt}) + 1
\* External product with a Lev ciphertext whose rows have noise bound rn (three bits above the deviation included).
MKXPNz(sh, rn, b, lv, K, rb, rl) ==
  LET rows == rn + b - 1 + LogRoot(lv * sh.N) + LogRoot((K + 1) * sh.N)
      rnd == IF b * lv >= sh.logq THEN 0 ELSE sh.logq - b * lv + 1 + LogRoot((K + 1) * sh.N)
      flt == (IF IsBig(sh) THEN 11 + b + LogRoot(lv * sh.N) + 2 ELSE 3) + LogRoot((K + 1) * sh.N)
  IN NMax({rows, rnd, flt, MKHPNz(sh, rb, rl, K)}) + 2
MKNoiseOf(sh, gb, gl, K, rb, rl, ab, al) ==
  LET d == LogStd(sh)
      br == MKXPNz(sh, BRNz(sh), ab, al, K, rb, rl) + Half(BitLen(K)) + 1
      ks == KSNz(sh, sh.ksbase, sh.kslevel, K * sh.N)
      logp == BitLen(sh.p - 1)
      bud == sh.logq - 1 - logp - 2
  IN [fr |-> d + 5, pk |-> d + LogRoot(2 * sh.N) + 4, fe |-> FFTErr(sh), br |-> br, ks |-> ks,
      pb |-> IF sh.order = 0 THEN br ELSE MaxI(br, ks) + 1,
      gp |-> MKXPNz(sh, d + 3, gb, gl, K, rb, rl), hp |-> MKHPNz(sh, rb, rl, K), bud |-> bud, bb |-> bud - 4]
(* --- extensions.  BFV: relinearization gadget (rb, rl), Galois gadget (ab, al).                                  *)
\* Tensoring: cross terms e * (m + 2p k), with k the wrap-around of the other operand; double precision products.
TensNz(sh, a, b) ==
  LET w == BitLen(2 * sh.p) + LogRoot(sh.N) + LogRoot(GDim(sh) + 1)
      flt == IF IsBig(sh) THEN 11 + w + LogRoot(sh.N) + (IF sh.N * sh.rank > 1 THEN LogN(sh) ELSE 0) + 4 ELSE LogRoot(sh.N) + LogN(sh) + 4
  IN NMax({NMax({a, b}) + w + 2, flt})
RelinNz(sh, rb, rl) ==
  LET R == sh.N * ((sh.rank * (sh.rank + 1)) \div 2)
  IN ProdNz(sh, rb, rl, R * rl, R * ((sh.N * sh.N) \div 16 + 1), TRUE) + 1
GalNz(sh, ab, al) == ProdNz(sh, ab, al, GDim(sh) * al, GDim(sh), TRUE) + 1
\* Trace over all automorphisms: every step halves (rounding), switches keys and adds.
PackNz(sh, a, ab, al) == NMax({a, LogN(sh) + GalNz(sh, ab, al), LogRoot(GDim(sh) + 1) + LogN(sh) + 1}) + 2
\* Product by a GGSW whose rows have noise rn, gadget (b, l).
XRowNz(sh, rn, b, l) ==
  LET R == (GDim(sh) + sh.N) * l
      rows == rn + b - 1 + LogRoot(R)
      rnd == IF b * l >= sh.logq THEN 0 ELSE sh.logq - b * l + 1 + LogRoot(GDim(sh) + 1)
      flt == IF IsBig(sh) THEN 11 + b + LogRoot(R) + 2 ELSE 3
  IN NMax({rows, rnd, flt}) + 1
\* Circuit bootstrapping: many-LUT blind rotation, division by N, trace, scheme switch by the key polynomials.
CBNz(sh, sb, sl, ab, al) ==
  LET lev == PackNz(sh, BRNz(sh), ab, al)
  IN NMax({lev + LogRoot(sh.N) + 1, ProdNz(sh, sb, sl, (GDim(sh) + sh.N) * sl, GDim(sh), TRUE) + LogRoot(sh.N), 11 + 4}) + 1
\* FHEW blind rotation: one external product per key element, one key switch per window or skipped stretch.
FHEWBRNz(sh) == ProdNz(sh, sh.brbase, sh.brlevel, (GDim(sh) + sh.N) * sh.brlevel, 4 * GDim(sh), TRUE) + LogRoot(sh.dim + sh.N + 3) + 1
FHEWNoiseOf(sh, gb, gl) ==
  LET n == NoiseOf(sh, gb, gl)
      br == FHEWBRNz(sh)
  IN [n EXCEPT !.br = br, !.pb = IF sh.order = 0 THEN br ELSE MaxI(br, n.ks) + 1]
\* Sanitization: rs, rt, ls, lt are the logarithms of the deviations (times Q).
ReRandNz(sh, rs, rt) == NMax({LogStd(sh) + rs + LogRoot(sh.N), rs + LogRoot(sh.N + 1), rt}) + 5
SanNz(sh, ls, lt) == NMax({BRNz(sh) + ls + LogRoot(sh.N) + BitLen(2 * sh.p) + 1, BitLen(2 * sh.p) * 2 + ls + 4 + LogRoot(sh.N), lt + 4}) + 1
=============================================================================
