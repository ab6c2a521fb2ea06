From 44ec7fe9154ad154cf3647dbf7990ce381ff119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 01/26] fix: blind rotation with extended look-up tables
 applied a single key block twice

---
 tfhe/bootstrap.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 16975b2..53b5b3c 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -147,6 +147,11 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 		}
 	}
 
+	if e.Params.blockCount == 1 {
+		ctOut.CopyFrom(e.buf.ctAcc[0])
+		return
+	}
+
 	for i := 1; i < e.Params.blockCount-1; i++ {
 		for j := 0; j < e.Params.lutExtendFactor; j++ {
 			for k := 0; k < e.Params.glweRank+1; k++ {
-- 
2.43.0


From bf65377b448da5de3a8939381fbcf8e41efc739f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 02/26] fix: public-key encryption must not accumulate into the
 previous mask of the destination

---
 tfhe/glwe_enc_public.go | 4 ++++
 tfhe/lwe_enc_public.go  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/tfhe/glwe_enc_public.go b/tfhe/glwe_enc_public.go
index 6ba876a..c04d93e 100644
--- a/tfhe/glwe_enc_public.go
+++ b/tfhe/glwe_enc_public.go
@@ -29,6 +29,10 @@ func (e *PublicEncryptor[T]) EncryptGLWEPlaintextTo(ctOut GLWECiphertext[T], pt
 // EncryptGLWEBody encrypts the value in the body of GLWE ciphertext and overrides it.
 // This avoids the need for most buffers.
 func (e *PublicEncryptor[T]) EncryptGLWEBody(ct GLWECiphertext[T]) {
+	for i := 1; i < e.Params.glweRank+1; i++ {
+		ct.Value[i].Clear()
+	}
+
 	for i := 0; i < e.Params.glweRank; i++ {
 		e.BinarySampler.SamplePolyTo(e.buf.auxKey.Value[i])
 	}
diff --git a/tfhe/lwe_enc_public.go b/tfhe/lwe_enc_public.go
index 8e61e1f..4d091b7 100644
--- a/tfhe/lwe_enc_public.go
+++ b/tfhe/lwe_enc_public.go
@@ -45,6 +45,7 @@ func (e *PublicEncryptor[T]) EncryptLWEBody(ct LWECiphertext[T]) {
 	ctGLWE := make([]poly.Poly[T], e.Params.glweRank)
 	for i := 0; i < e.Params.glweRank; i++ {
 		ctGLWE[i] = poly.Poly[T]{Coeffs: ct.Value[1+i*e.Params.polyRank : 1+(i+1)*e.Params.polyRank]}
+		ctGLWE[i].Clear()
 	}
 
 	for i := 0; i < e.Params.glweRank; i++ {
-- 
2.43.0


From 73d87b41d4e866e9bb857ea2854bfccf4cce17c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:02 +0000
Subject: [PATCH 03/26] fix: CMuxTo read ct1 after overwriting a destination
 that shares its storage

---
 tfhe/product.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tfhe/product.go b/tfhe/product.go
index 9c74e78..7fd9990 100644
--- a/tfhe/product.go
+++ b/tfhe/product.go
@@ -315,7 +315,7 @@ func (e *Evaluator[T]) CMux(ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphert
 // CMuxTo computes the mux gate between ctFFTGGSW, ct0 and ct1: so ctOut = ct0 + ctFFTGGSW * (ct1 - ct0) and writes it to ctOut.
 // CMux essentially acts as an if clause; if ctFFTGGSW = 0, ct0 is returned, and if ctFFTGGSW = 1, ct1 is returned.
 func (e *Evaluator[T]) CMuxTo(ctOut GLWECiphertext[T], ctFFTGGSW FFTGGSWCiphertext[T], ct0, ct1 GLWECiphertext[T]) {
-	ctOut.CopyFrom(ct0)
 	e.SubGLWETo(e.buf.ctCMux, ct1, ct0)
+	ctOut.CopyFrom(ct0)
 	e.ExternalProdAddGLWETo(ctOut, ctFFTGGSW, e.buf.ctCMux)
 }
-- 
2.43.0


From b4b9790d75ccd884eb3fed9aa503848e358e8461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 04/26] fix: multi-key decryptors accept secret keys of any
 subset of parties

---
 mktfhe/decryptor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index 4d04a9b..f02a7b9 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -53,8 +53,8 @@ type decryptorBuffer[T tfhe.TorusInt] struct {
 // NewDecryptor creates a new [Decryptor].
 // Only indices between 0 and params.PartyCount is valid for sk.
 func NewDecryptor[T tfhe.TorusInt](params Parameters[T], sk map[int]tfhe.SecretKey[T]) *Decryptor[T] {
-	subEncs := make([]*tfhe.Encryptor[T], len(sk))
-	subKeys := make([]tfhe.SecretKey[T], len(sk))
+	subEncs := make([]*tfhe.Encryptor[T], params.PartyCount())
+	subKeys := make([]tfhe.SecretKey[T], params.PartyCount())
 	partyBitMap := make([]bool, params.PartyCount())
 	for i := range sk {
 		subEncs[i] = tfhe.NewEncryptorWithKey(params.subParams, sk[i])
-- 
2.43.0


From 303a0b9ab4e54ca643138f0b2fc3202e3abd5001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:03 +0000
Subject: [PATCH 05/26] fix: safe copies of multi-key decryptors must not share
 buffers

---
 mktfhe/decryptor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mktfhe/decryptor.go b/mktfhe/decryptor.go
index f02a7b9..6057692 100644
--- a/mktfhe/decryptor.go
+++ b/mktfhe/decryptor.go
@@ -114,7 +114,7 @@ func (d *Decryptor[T]) SafeCopy() *Decryptor[T] {
 
 		SecretKeys: vec.Copy(d.SecretKeys),
 
-		buf: d.buf,
+		buf: newDecryptorBuffer(d.Params),
 	}
 }
 
-- 
2.43.0


From f047bdf5de72a4f15d4fd19131d274021f7dd437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 06/26] fix: multi-key ExternalProdSubGLWETo must subtract the
 whole product

---
 mktfhe/product.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mktfhe/product.go b/mktfhe/product.go
index 7b43079..d10e4f0 100644
--- a/mktfhe/product.go
+++ b/mktfhe/product.go
@@ -252,10 +252,10 @@ func (e *Evaluator[T]) ExternalProdSubGLWETo(idx int, ctFFTGLev tfhe.FFTGLevCiph
 
 	e.HybridProdSubGLWETo(idx, e.EvalKey[idx].RelinKey, e.buf.ctRelin, ctGLWEOut)
 
-	eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
+	eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[0], ctGLWEOut.Value[0], e.buf.ctRelinT[0].Value[0])
 	for i, ok := range e.PartyBitMap {
 		if ok {
-			eIdx.PolyEvaluator.AddPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
+			eIdx.PolyEvaluator.SubPolyTo(ctGLWEOut.Value[i+1], ctGLWEOut.Value[i+1], e.buf.ctRelinT[i+1].Value[0])
 		}
 	}
 }
-- 
2.43.0


From 28450654ed586f5503128d23ce820432bcdb9f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:04 +0000
Subject: [PATCH 07/26] fix: BFV Tensor and Relinearize must use their
 arguments

---
 xtfhe/bfv_evaluator.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xtfhe/bfv_evaluator.go b/xtfhe/bfv_evaluator.go
index 24a8050..ee298ca 100644
--- a/xtfhe/bfv_evaluator.go
+++ b/xtfhe/bfv_evaluator.go
@@ -106,7 +106,7 @@ func (e *BFVEvaluator[T]) TensorTo(ctOut, ct0, ct1 tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < tensorRank+1; i++ {
 		e.PolyEvaluator.FloatMulFFTPolyTo(e.buf.ctFFTTensor.Value[i], e.buf.ctFFTTensor.Value[i], 1/float64(e.Params.Scale()))
-		e.PolyEvaluator.InvFFTToUnsafe(e.buf.ctTensor.Value[i], e.buf.ctFFTTensor.Value[i])
+		e.PolyEvaluator.InvFFTToUnsafe(ctOut.Value[i], e.buf.ctFFTTensor.Value[i])
 	}
 }
 
@@ -123,10 +123,10 @@ func (e *BFVEvaluator[T]) Relinearize(ct tfhe.GLWECiphertext[T]) tfhe.GLWECipher
 func (e *BFVEvaluator[T]) RelinearizeTo(ctOut, ct tfhe.GLWECiphertext[T]) {
 	tensorRank := e.Params.GLWERank() * (e.Params.GLWERank() + 3) / 2
 	for i := 0; i < e.Params.GLWERank()+1; i++ {
-		ctOut.Value[i].CopyFrom(e.buf.ctTensor.Value[i])
+		ctOut.Value[i].CopyFrom(ct.Value[i])
 	}
 	for i, ii := e.Params.GLWERank()+1, 0; i < tensorRank+1; i, ii = i+1, ii+1 {
-		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], e.buf.ctTensor.Value[i])
+		e.Evaluator.GadgetProdAddGLWETo(ctOut, e.EvalKey.RelinKey.Value[ii], ct.Value[i])
 	}
 }
 
-- 
2.43.0


From 8dbce85341405027a16d79cd3aca26f59a9fe964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 08/26] fix: LWESecretKey.ReadFrom must count the bytes of the
 value

---
 tfhe/lwe_marshal.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tfhe/lwe_marshal.go b/tfhe/lwe_marshal.go
index f1dc101..ffe96a3 100644
--- a/tfhe/lwe_marshal.go
+++ b/tfhe/lwe_marshal.go
@@ -209,6 +209,7 @@ func (sk *LWESecretKey[T]) ReadFrom(r io.Reader) (n int64, err error) {
 	if nRead, err = sk.valueReadFrom(r); err != nil {
 		return n + nRead, err
 	}
+	n += nRead
 
 	return
 }
-- 
2.43.0


From 56e7890adc34a900f18b69d78daee1b68828aca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:06 +0000
Subject: [PATCH 09/26] fix: report all bytes of a header when
 (de)serialization of FFT objects fails

---
 tfhe/fft_glwe_marshal.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/tfhe/fft_glwe_marshal.go b/tfhe/fft_glwe_marshal.go
index 9523a50..05af299 100644
--- a/tfhe/fft_glwe_marshal.go
+++ b/tfhe/fft_glwe_marshal.go
@@ -26,7 +26,7 @@ func floatVecReadFromBuf(v []float64, buf []byte, r io.Reader) (n int64, err err
 	var nRead int
 
 	if nRead, err = io.ReadFull(r, buf); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 
@@ -53,14 +53,14 @@ func (sk FFTGLWESecretKey[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(sk.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := sk.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -117,13 +117,13 @@ func (sk *FFTGLWESecretKey[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -197,14 +197,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -261,13 +261,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
@@ -342,28 +342,28 @@ func (ct FFTGLevCiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	base := ct.GadgetParams.base
 	binary.BigEndian.PutUint64(buf[:], uint64(base))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	level := len(ct.Value)
 	binary.BigEndian.PutUint64(buf[:], uint64(level))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	glweRank := len(ct.Value[0].Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
-- 
2.43.0


From cea544d8abf32dfc0f6c50c4c049cb8ef69cc89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:07 +0000
Subject: [PATCH 10/26] fix: multi-key encryptors must reject the index
 PartyCount

---
 mktfhe/encryptor.go        | 4 ++--
 mktfhe/encryptor_public.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mktfhe/encryptor.go b/mktfhe/encryptor.go
index c3b8a08..1a90c87 100644
--- a/mktfhe/encryptor.go
+++ b/mktfhe/encryptor.go
@@ -50,7 +50,7 @@ type encryptorBuffer[T tfhe.TorusInt] struct {
 
 // NewEncryptor creates a new [Encryptor].
 func NewEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte) *Encryptor[T] {
-	if idx > params.partyCount {
+	if idx >= params.partyCount {
 		panic("index larger than PartyCount")
 	}
 
@@ -83,7 +83,7 @@ func NewEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte
 //
 // Panics if the index is larger than PartyCount.
 func NewEncryptorWithKey[T tfhe.TorusInt](params Parameters[T], idx int, crsSeed []byte, sk tfhe.SecretKey[T]) *Encryptor[T] {
-	if idx > params.partyCount {
+	if idx >= params.partyCount {
 		panic("index larger than PartyCount")
 	}
 
diff --git a/mktfhe/encryptor_public.go b/mktfhe/encryptor_public.go
index 4f54509..6677bdf 100644
--- a/mktfhe/encryptor_public.go
+++ b/mktfhe/encryptor_public.go
@@ -39,7 +39,7 @@ type publicEncryptorBuffer[T tfhe.TorusInt] struct {
 
 // NewPublicEncryptor creates a new [PublicEncryptor].
 func NewPublicEncryptor[T tfhe.TorusInt](params Parameters[T], idx int, publicKey tfhe.PublicKey[T]) *PublicEncryptor[T] {
-	if idx > params.partyCount {
+	if idx >= params.partyCount {
 		panic("index larger than PartyCount")
 	}
 
-- 
2.43.0


From 8ec6b9e574585f377d632914160720b35a78f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:34 +0000
Subject: [PATCH 11/26] fix: report all bytes of a header when
 (de)serialization of multi-key FFT objects fails

---
 mktfhe/fft_glwe_marshal.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mktfhe/fft_glwe_marshal.go b/mktfhe/fft_glwe_marshal.go
index a819001..16011a6 100644
--- a/mktfhe/fft_glwe_marshal.go
+++ b/mktfhe/fft_glwe_marshal.go
@@ -55,14 +55,14 @@ func (ct FFTGLWECiphertext[T]) headerWriteTo(w io.Writer) (n int64, err error) {
 	glweRank := len(ct.Value) - 1
 	binary.BigEndian.PutUint64(buf[:], uint64(glweRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
 	polyRank := ct.Value[0].Rank()
 	binary.BigEndian.PutUint64(buf[:], uint64(polyRank))
 	if nWrite, err = w.Write(buf[:]); err != nil {
-		return int64(nWrite), err
+		return n + int64(nWrite), err
 	}
 	n += int64(nWrite)
 
@@ -119,13 +119,13 @@ func (ct *FFTGLWECiphertext[T]) headerReadFrom(r io.Reader) (n int64, err error)
 	var buf [8]byte
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	glweRank := int(binary.BigEndian.Uint64(buf[:]))
 
 	if nRead, err = io.ReadFull(r, buf[:]); err != nil {
-		return int64(nRead), err
+		return n + int64(nRead), err
 	}
 	n += int64(nRead)
 	polyRank := int(binary.BigEndian.Uint64(buf[:]))
-- 
2.43.0


From f65104287d9a802986bdb2131bd447249e28c429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 12/26] fix: encode negative and large messages correctly for
 any message modulus

---
 tfhe/encoder.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index 13d6aa1..2de4b1b 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -35,11 +35,20 @@ func (e *Encoder[T]) EncodeLWE(message int) LWEPlaintext[T] {
 //
 // If MessageModulus = 0, then no modulus reduction is performed.
 func (e *Encoder[T]) EncodeLWECustom(message int, messageModulus, scale T) LWEPlaintext[T] {
-	encoded := T(message)
-	if messageModulus != 0 {
-		encoded %= messageModulus
+	return LWEPlaintext[T]{Value: reduceMessage(message, messageModulus) * scale}
+}
+
+// reduceMessage returns message modulo messageModulus.
+// If messageModulus = 0, then no modulus reduction is performed.
+func reduceMessage[T TorusInt](message int, messageModulus T) T {
+	switch {
+	case messageModulus == 0:
+		return T(message)
+	case message < 0:
+		return messageModulus - 1 - T(uint64(-(message+1))%uint64(messageModulus))
+	default:
+		return T(uint64(message) % uint64(messageModulus))
 	}
-	return LWEPlaintext[T]{Value: encoded * scale}
 }
 
 // DecodeLWE decodes LWE plaintext to integer message.
@@ -101,11 +110,7 @@ func (e *Encoder[T]) EncodeGLWECustom(messages []int, messageModulus, scale T) G
 func (e *Encoder[T]) EncodeGLWECustomTo(ptOut GLWEPlaintext[T], messages []int, messageModulus, scale T) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		ptOut.Value.Coeffs[i] = T(messages[i])
-		if messageModulus != 0 {
-			ptOut.Value.Coeffs[i] %= messageModulus
-		}
-		ptOut.Value.Coeffs[i] *= scale
+		ptOut.Value.Coeffs[i] = reduceMessage(messages[i], messageModulus) * scale
 	}
 	vec.Fill(ptOut.Value.Coeffs[length:], 0)
 }
-- 
2.43.0


From e430020bbc57472f23276967aea6075d895409e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:36 +0000
Subject: [PATCH 13/26] fix: DivRound is exact for operands that do not fit in
 a float64

---
 math/num/num.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/math/num/num.go b/math/num/num.go
index cf32f58..ef5be0c 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -126,7 +126,26 @@ func Log2[T Integer](x T) int {
 
 // DivRound returns round(x/y).
 func DivRound[T Integer](x, y T) T {
-	return T(math.Round(float64(x) / float64(y)))
+	q, r := x/y, x%y
+	switch {
+	case r > 0 && y > 0:
+		if r >= y-r {
+			q++
+		}
+	case r < 0 && y > 0:
+		if -r >= y+r {
+			q--
+		}
+	case r > 0 && y < 0:
+		if -r <= y+r {
+			q--
+		}
+	case r < 0 && y < 0:
+		if r <= y-r {
+			q++
+		}
+	}
+	return q
 }
 
 // DivRoundBits is a bit-optimzed version of RoundRatio: it returns round(x/2^bits).
-- 
2.43.0


From dfe2fae17dec6cae3e3c5ce0f242f1df0fecf7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:37 +0000
Subject: [PATCH 14/26] fix: ModInverse is correct for unsigned types

---
 math/num/num.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index ef5be0c..cff091e 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -246,11 +246,12 @@ func ModInverse[T Integer](x, m T) T {
 	}
 
 	a, b := x, m
-	u, v := T(1), T(0)
+	// u, v are absolute values of the cofactors, whose signs alternate.
+	u, v, neg := T(1), T(0), false
 	for b != 0 {
 		q := a / b
 		a, b = b, a-q*b
-		u, v = v, u-q*v
+		u, v, neg = v, u+q*v, !neg
 	}
 
 	if a != 1 {
@@ -258,8 +259,8 @@ func ModInverse[T Integer](x, m T) T {
 	}
 
 	u %= m
-	if u < 0 {
-		u += m
+	if neg && u != 0 {
+		u = m - u
 	}
 	return u
 }
-- 
2.43.0


From 664683212a38931994a6ca10d61797ac82957ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:53 +0000
Subject: [PATCH 15/26] fix: ModExp is correct when products exceed the word
 size

---
 math/num/num.go | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index cff091e..3fc590e 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -281,7 +281,7 @@ func ModExp[T Integer](x, y, m T) T {
 		x = ModInverse(x, m)
 		y = -y
 	case y == 0:
-		return 1
+		return 1 % m
 	}
 
 	x %= m
@@ -289,17 +289,21 @@ func ModExp[T Integer](x, y, m T) T {
 		x += m
 	}
 
-	res := T(1)
+	res := T(1) % m
 	for y > 0 {
 		if y&1 == 1 {
-			res = (res * x) % m
+			res = mulMod(res, x, m)
 		}
-		x = (x * x) % m
+		x = mulMod(x, x, m)
 		y >>= 1
 	}
 
-	if res < 0 {
-		res += m
-	}
 	return res
 }
+
+// mulMod returns x*y mod m for 0 <= x, y < m.
+func mulMod[T Integer](x, y, m T) T {
+	hi, lo := bits.Mul64(uint64(x), uint64(y))
+	_, r := bits.Div64(hi, lo, uint64(m))
+	return T(r)
+}
-- 
2.43.0


From 7f4484775299997254fcf4df6c164ab8ece50d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 16/26] fix: Lev, GSW, GLev and GGSW encryption of negative and
 large messages for any message modulus

---
 tfhe/fft_glwe_enc.go | 4 ++--
 tfhe/glwe_enc.go     | 6 +++---
 tfhe/lwe_enc.go      | 8 ++++----
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/tfhe/fft_glwe_enc.go b/tfhe/fft_glwe_enc.go
index cbdabeb..fd753be 100644
--- a/tfhe/fft_glwe_enc.go
+++ b/tfhe/fft_glwe_enc.go
@@ -63,7 +63,7 @@ func (e *Encryptor[T]) EncryptFFTGLev(messages []int, gadgetParams GadgetParamet
 func (e *Encryptor[T]) EncryptFFTGLevTo(ctOut FFTGLevCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -129,7 +129,7 @@ func (e *Encryptor[T]) EncryptFFTGGSW(messages []int, gadgetParams GadgetParamet
 func (e *Encryptor[T]) EncryptFFTGGSWTo(ctOut FFTGGSWCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/glwe_enc.go b/tfhe/glwe_enc.go
index 87fc490..73276ac 100644
--- a/tfhe/glwe_enc.go
+++ b/tfhe/glwe_enc.go
@@ -81,7 +81,7 @@ func (e *Encryptor[T]) EncryptGLev(messages []int, gadgetParams GadgetParameters
 func (e *Encryptor[T]) EncryptGLevTo(ctOut GLevCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -139,7 +139,7 @@ func (e *Encryptor[T]) DecryptGLevPolyTo(pOut poly.Poly[T], ct GLevCiphertext[T]
 func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters[T]) GGSWCiphertext[T] {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
@@ -150,7 +150,7 @@ func (e *Encryptor[T]) EncryptGGSW(messages []int, gadgetParams GadgetParameters
 func (e *Encryptor[T]) EncryptGGSWTo(ctOut GGSWCiphertext[T], messages []int) {
 	length := num.Min(e.Params.polyRank, len(messages))
 	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.messageModulus
+		e.buf.ptGLWE.Value.Coeffs[i] = reduceMessage(messages[i], e.Params.messageModulus)
 	}
 	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
 
diff --git a/tfhe/lwe_enc.go b/tfhe/lwe_enc.go
index d999dc7..9747a65 100644
--- a/tfhe/lwe_enc.go
+++ b/tfhe/lwe_enc.go
@@ -49,12 +49,12 @@ func (e *Encryptor[T]) DecryptLWEPhase(ct LWECiphertext[T]) LWEPlaintext[T] {
 
 // EncryptLev encrypts integer message to Lev ciphertext.
 func (e *Encryptor[T]) EncryptLev(message int, gadgetParams GadgetParameters[T]) LevCiphertext[T] {
-	return e.EncryptLevScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptLevScalar(reduceMessage(message, e.Params.messageModulus), gadgetParams)
 }
 
 // EncryptLevTo encrypts integer message to Lev ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptLevTo(ctOut LevCiphertext[T], message int) {
-	e.EncryptLevScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptLevScalarTo(ctOut, reduceMessage(message, e.Params.messageModulus))
 }
 
 // EncryptLevScalar encrypts scalar to Lev ciphertext.
@@ -85,12 +85,12 @@ func (e *Encryptor[T]) DecryptLevScalar(ct LevCiphertext[T]) T {
 
 // EncryptGSW encrypts integer message to GSW ciphertext.
 func (e *Encryptor[T]) EncryptGSW(message int, gadgetParams GadgetParameters[T]) GSWCiphertext[T] {
-	return e.EncryptGSWScalar(T(message)%e.Params.messageModulus, gadgetParams)
+	return e.EncryptGSWScalar(reduceMessage(message, e.Params.messageModulus), gadgetParams)
 }
 
 // EncryptGSWTo encrypts integer message to GSW ciphertext and writes it to ctOut.
 func (e *Encryptor[T]) EncryptGSWTo(ctOut GSWCiphertext[T], message int) {
-	e.EncryptGSWScalarTo(ctOut, T(message)%e.Params.messageModulus)
+	e.EncryptGSWScalarTo(ctOut, reduceMessage(message, e.Params.messageModulus))
 }
 
 // EncryptGSWScalar encrypts scalar to GSW ciphertext.
-- 
2.43.0


From f7b8f45a7a2f7d581df082df19ce1dcd9aef0c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 17/26] fix: rotating an empty vector must not panic

---
 math/vec/vec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/math/vec/vec.go b/math/vec/vec.go
index b3fe8eb..8f81238 100644
--- a/math/vec/vec.go
+++ b/math/vec/vec.go
@@ -80,6 +80,10 @@ func Rotate[T any](v []T, l int) []T {
 func RotateTo[T any](vOut, v []T, l int) {
 	checkLength(len(vOut), len(v))
 
+	if len(v) == 0 {
+		return
+	}
+
 	if l < 0 {
 		l = len(v) - ((-l) % len(v))
 	} else {
@@ -93,6 +97,10 @@ func RotateTo[T any](vOut, v []T, l int) {
 // RotateInPlace rotates v l times to the right in-place.
 // If l < 0, then it rotates the vector l times to the left.
 func RotateInPlace[T any](v []T, l int) {
+	if len(v) == 0 {
+		return
+	}
+
 	if l < 0 {
 		l = len(v) - ((-l) % len(v))
 	} else {
-- 
2.43.0


From c0589f02d959f82c4fe011644f31bc7667e14769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 18/26] fix: ModExp is correct for the smallest exponent of
 signed types

---
 math/num/num.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/math/num/num.go b/math/num/num.go
index 3fc590e..78106e5 100644
--- a/math/num/num.go
+++ b/math/num/num.go
@@ -276,10 +276,11 @@ func ModExp[T Integer](x, y, m T) T {
 		panic("modulus not positive")
 	}
 
+	e := uint64(y)
 	switch {
 	case y < 0:
 		x = ModInverse(x, m)
-		y = -y
+		e = -e
 	case y == 0:
 		return 1 % m
 	}
@@ -290,12 +291,12 @@ func ModExp[T Integer](x, y, m T) T {
 	}
 
 	res := T(1) % m
-	for y > 0 {
-		if y&1 == 1 {
+	for e > 0 {
+		if e&1 == 1 {
 			res = mulMod(res, x, m)
 		}
 		x = mulMod(x, x, m)
-		y >>= 1
+		e >>= 1
 	}
 
 	return res
-- 
2.43.0


From 0e9941b3aeae94f718ad025b02e5658befeaa6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:50 +0000
Subject: [PATCH 19/26] fix: portable vector operations on empty vectors must
 not panic

---
 math/vec/asm_vec.go       | 24 ++++++++++++++++++++++++
 math/vec/asm_vec_amd64.go | 24 ++++++++++++++++++++++++
 2 files changed, 48 insertions(+)

diff --git a/math/vec/asm_vec.go b/math/vec/asm_vec.go
index e8dce95..2d3c8a9 100644
--- a/math/vec/asm_vec.go
+++ b/math/vec/asm_vec.go
@@ -11,6 +11,9 @@ import (
 // AddTo computes vOut = v0 + v1.
 func AddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -43,6 +46,9 @@ func AddTo[T num.Number](vOut, v0, v1 []T) {
 // SubTo computes vOut = v0 - v1.
 func SubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -75,6 +81,9 @@ func SubTo[T num.Number](vOut, v0, v1 []T) {
 // ScalarMulTo computes vOut = c * v.
 func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -105,6 +114,9 @@ func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 // ScalarMulAddTo computes vOut += c * v.
 func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -135,6 +147,9 @@ func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 // ScalarMulSubTo computes vOut -= c * v0.
 func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -165,6 +180,9 @@ func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 // MulTo computes vOut = v0 * v1, where * is an elementwise multiplication.
 func MulTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -197,6 +215,9 @@ func MulTo[T num.Number](vOut, v0, v1 []T) {
 // MulAddTo computes vOut += v0 * v1, where * is an elementwise multiplication.
 func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
@@ -229,6 +250,9 @@ func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 // MulSubTo computes vOut -= v0 * v1, where * is an elementwise multiplication.
 func MulSubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	M := (len(vOut) >> 3) << 3
 	L := unsafe.Sizeof(T(0))
diff --git a/math/vec/asm_vec_amd64.go b/math/vec/asm_vec_amd64.go
index 16c79e9..5a8eef1 100644
--- a/math/vec/asm_vec_amd64.go
+++ b/math/vec/asm_vec_amd64.go
@@ -12,6 +12,9 @@ import (
 // AddTo computes vOut = v0 + v1.
 func AddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -65,6 +68,9 @@ func AddTo[T num.Number](vOut, v0, v1 []T) {
 // SubTo computes vOut = v0 - v1.
 func SubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -118,6 +124,9 @@ func SubTo[T num.Number](vOut, v0, v1 []T) {
 // ScalarMulTo computes vOut = c * v.
 func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -169,6 +178,9 @@ func ScalarMulTo[T num.Number](vOut, v []T, c T) {
 // ScalarMulAddTo computes vOut += c * v.
 func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -220,6 +232,9 @@ func ScalarMulAddTo[T num.Number](vOut, v []T, c T) {
 // ScalarMulSubTo computes vOut -= c * v0.
 func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 	checkLength(len(vOut), len(v))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -271,6 +286,9 @@ func ScalarMulSubTo[T num.Number](vOut, v []T, c T) {
 // MulTo computes vOut = v0 * v1, where * is an elementwise multiplication.
 func MulTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -324,6 +342,9 @@ func MulTo[T num.Number](vOut, v0, v1 []T) {
 // MulAddTo computes vOut += v0 * v1, where * is an elementwise multiplication.
 func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
@@ -377,6 +398,9 @@ func MulAddTo[T num.Number](vOut, v0, v1 []T) {
 // MulSubTo computes vOut -= v0 * v1, where * is an elementwise multiplication.
 func MulSubTo[T num.Number](vOut, v0, v1 []T) {
 	checkLength(len(vOut), len(v0), len(v1))
+	if len(vOut) == 0 {
+		return
+	}
 
 	if cpu.X86.HasAVX && cpu.X86.HasAVX2 {
 		var z T
-- 
2.43.0


From 3192930e8fb455fa03d57afb383caf88422383f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:31 +0000
Subject: [PATCH 20/26] fix: decoding with an automatic message modulus for any
 scale

---
 tfhe/encoder.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/tfhe/encoder.go b/tfhe/encoder.go
index 2de4b1b..db46b66 100644
--- a/tfhe/encoder.go
+++ b/tfhe/encoder.go
@@ -1,8 +1,6 @@
 package tfhe
 
 import (
-	"math"
-
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/vec"
 )
@@ -62,9 +60,22 @@ func (e *Encoder[T]) DecodeLWE(pt LWEPlaintext[T]) int {
 //
 // If MessageModulus = 0, then it is automatically set to round(Q / scale).
 func (e *Encoder[T]) DecodeLWECustom(pt LWEPlaintext[T], messageModulus, scale T) int {
-	decoded := num.DivRound(pt.Value, scale)
+	return decodeMessage(pt.Value, messageModulus, scale)
+}
+
+// decodeMessage decodes value with respect to messageModulus and scale.
+// If messageModulus = 0, then it is set to round(Q / scale).
+func decodeMessage[T TorusInt](value, messageModulus, scale T) int {
+	decoded := num.DivRound(value, scale)
 	if messageModulus == 0 {
-		messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
+		// Q itself does not fit in T: Q mod scale is -scale mod scale.
+		messageModulus = -scale/scale + 1
+		if r := -scale % scale; r >= scale-r {
+			messageModulus++
+		}
+		if messageModulus == 0 { // messageModulus = Q
+			return int(decoded)
+		}
 	}
 	return int(decoded % messageModulus)
 }
@@ -153,10 +164,6 @@ func (e *Encoder[T]) DecodeGLWECustom(pt GLWEPlaintext[T], messageModulus, scale
 func (e *Encoder[T]) DecodeGLWECustomTo(messagesOut []int, pt GLWEPlaintext[T], messageModulus, scale T) {
 	length := num.Min(e.Params.polyRank, len(messagesOut))
 	for i := 0; i < length; i++ {
-		decoded := num.DivRound(pt.Value.Coeffs[i], scale)
-		if messageModulus == 0 {
-			messageModulus = T(math.Round(math.Exp2(float64(e.Params.logQ)) / float64(scale)))
-		}
-		messagesOut[i] = int(decoded % messageModulus)
+		messagesOut[i] = decodeMessage(pt.Value.Coeffs[i], messageModulus, scale)
 	}
 }
-- 
2.43.0


From 840f6f5a181f10414f4c04df8cd06afd0c31d847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:09 +0000
Subject: [PATCH 21/26] fix: GLWEKeySwitchKey could not be serialized to byte
 slices

---
 tfhe/keyswitch_key_marshal.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/tfhe/keyswitch_key_marshal.go b/tfhe/keyswitch_key_marshal.go
index 4afb355..4f887b4 100644
--- a/tfhe/keyswitch_key_marshal.go
+++ b/tfhe/keyswitch_key_marshal.go
@@ -366,3 +366,17 @@ func (ksk *GLWEKeySwitchKey[T]) ReadFrom(r io.Reader) (n int64, err error) {
 
 	return
 }
+
+// MarshalBinary implements the [encoding.BinaryMarshaler] interface.
+func (ksk GLWEKeySwitchKey[T]) MarshalBinary() (data []byte, err error) {
+	buf := bytes.NewBuffer(make([]byte, 0, ksk.ByteSize()))
+	_, err = ksk.WriteTo(buf)
+	return buf.Bytes(), err
+}
+
+// UnmarshalBinary implements the [encoding.BinaryUnmarshaler] interface.
+func (ksk *GLWEKeySwitchKey[T]) UnmarshalBinary(data []byte) error {
+	buf := bytes.NewBuffer(data)
+	_, err := ksk.ReadFrom(buf)
+	return err
+}
-- 
2.43.0


From 32c1078ca56b505df57efb7a705f801da8823fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:08 +0000
Subject: [PATCH 22/26] fix: copying a UniEncryption into another must copy its
 gadget parameters

---
 mktfhe/fft_glwe.go | 1 +
 mktfhe/glwe.go     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/mktfhe/fft_glwe.go b/mktfhe/fft_glwe.go
index ffe7f6f..0493999 100644
--- a/mktfhe/fft_glwe.go
+++ b/mktfhe/fft_glwe.go
@@ -110,6 +110,7 @@ func (ct *FFTUniEncryption[T]) CopyFrom(ctIn FFTUniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
diff --git a/mktfhe/glwe.go b/mktfhe/glwe.go
index 6c76fb0..5c53564 100644
--- a/mktfhe/glwe.go
+++ b/mktfhe/glwe.go
@@ -137,6 +137,7 @@ func (ct *UniEncryption[T]) CopyFrom(ctIn UniEncryption[T]) {
 	for i := range ct.Value {
 		ct.Value[i].CopyFrom(ctIn.Value[i])
 	}
+	ct.GadgetParams = ctIn.GadgetParams
 }
 
 // Clear clears the ciphertext.
-- 
2.43.0


From ce3669e5127e78a55d02d46357b73535e5c67b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:38 +0000
Subject: [PATCH 23/26] fix: uni-encryption of negative and large messages, and
 its decryption, for any message modulus

---
 mktfhe/fft_glwe_enc.go | 10 ++--------
 mktfhe/glwe_enc.go     | 10 ++--------
 2 files changed, 4 insertions(+), 16 deletions(-)

diff --git a/mktfhe/fft_glwe_enc.go b/mktfhe/fft_glwe_enc.go
index 298dc37..c426bed 100644
--- a/mktfhe/fft_glwe_enc.go
+++ b/mktfhe/fft_glwe_enc.go
@@ -3,7 +3,6 @@ package mktfhe
 import (
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/poly"
-	"github.com/sp301415/tfhe-go/math/vec"
 	"github.com/sp301415/tfhe-go/tfhe"
 )
 
@@ -16,12 +15,7 @@ func (e *Encryptor[T]) FFTUniEncrypt(messages []int, gadgetParams tfhe.GadgetPar
 
 // FFTUniEncryptTo encrypts integer messages to FFTUniEncryption and writes it to ctOut.
 func (e *Encryptor[T]) FFTUniEncryptTo(ctOut FFTUniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
-	length := num.Min(e.Params.PolyRank(), len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
-
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.MessageModulus(), 1)
 	e.FFTUniEncryptPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
 
@@ -87,6 +81,6 @@ func (e *Encryptor[T]) FFTUniDecryptPolyTo(pOut poly.Poly[T], ct FFTUniEncryptio
 	pOut.CopyFrom(e.buf.ctSubGLWE.Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, e.buf.ctSubGLWE.Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
diff --git a/mktfhe/glwe_enc.go b/mktfhe/glwe_enc.go
index 6186f5a..6356d55 100644
--- a/mktfhe/glwe_enc.go
+++ b/mktfhe/glwe_enc.go
@@ -3,7 +3,6 @@ package mktfhe
 import (
 	"github.com/sp301415/tfhe-go/math/num"
 	"github.com/sp301415/tfhe-go/math/poly"
-	"github.com/sp301415/tfhe-go/math/vec"
 	"github.com/sp301415/tfhe-go/tfhe"
 )
 
@@ -16,12 +15,7 @@ func (e *Encryptor[T]) UniEncrypt(messages []int, gadgetParams tfhe.GadgetParame
 
 // UniEncryptTo encrypts integer messages to UniEncryption and writes it to ctOut.
 func (e *Encryptor[T]) UniEncryptTo(ctOut UniEncryption[T], messages []int, gadgetParams tfhe.GadgetParameters[T]) {
-	length := num.Min(e.Params.PolyRank(), len(messages))
-	for i := 0; i < length; i++ {
-		e.buf.ptGLWE.Value.Coeffs[i] = T(messages[i]) % e.Params.MessageModulus()
-	}
-	vec.Fill(e.buf.ptGLWE.Value.Coeffs[length:], 0)
-
+	e.EncodeGLWECustomTo(e.buf.ptGLWE, messages, e.Params.MessageModulus(), 1)
 	e.UniEncryptPolyTo(ctOut, e.buf.ptGLWE.Value)
 }
 
@@ -83,6 +77,6 @@ func (e *Encryptor[T]) UniDecryptPolyTo(pOut poly.Poly[T], ct UniEncryption[T])
 	pOut.CopyFrom(ct.Value[0].Value[0].Value[0])
 	e.SubEncryptor.PolyEvaluator.ShortFFTPolyMulSubPolyTo(pOut, ct.Value[0].Value[0].Value[1], e.buf.auxFourierKey.Value[0])
 	for i := 0; i < e.Params.PolyRank(); i++ {
-		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ())
+		pOut.Coeffs[i] = num.DivRoundBits(pOut.Coeffs[i], ct.GadgetParams.LogFirstBaseQ()) % ct.GadgetParams.Base()
 	}
 }
-- 
2.43.0


From f8ea4436bc2101c28321590799a87e5a65364a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:36 +0000
Subject: [PATCH 24/26] fix: many-LUT tables are aligned to the table count for
 any message modulus

---
 xtfhe/manylut_bootstrap.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xtfhe/manylut_bootstrap.go b/xtfhe/manylut_bootstrap.go
index d5114bc..52fb73d 100644
--- a/xtfhe/manylut_bootstrap.go
+++ b/xtfhe/manylut_bootstrap.go
@@ -86,9 +86,12 @@ func (e *ManyLUTEvaluator[T]) GenLUTCustomFullTo(lutOut tfhe.LookUpTable[T], f [
 
 	y := make([]T, e.Params.lutCount)
 
+	// Blind rotation only moves the LUT by multiples of LUTCount,
+	// so the windows of the messages must be aligned to it.
+	windowCount := e.Params.baseParams.LUTSize() >> e.Params.logLUTCount
 	for x := 0; x < int(messageModulus); x++ {
-		start := num.DivRound(x*e.Params.baseParams.LUTSize(), int(messageModulus))
-		end := num.DivRound((x+1)*e.Params.baseParams.LUTSize(), int(messageModulus))
+		start := num.DivRound(x*windowCount, int(messageModulus)) << e.Params.logLUTCount
+		end := num.DivRound((x+1)*windowCount, int(messageModulus)) << e.Params.logLUTCount
 		for i := range f {
 			y[i] = f[i](x)
 		}
@@ -99,7 +102,7 @@ func (e *ManyLUTEvaluator[T]) GenLUTCustomFullTo(lutOut tfhe.LookUpTable[T], f [
 		}
 	}
 
-	offset := num.DivRound(e.Params.baseParams.LUTSize(), int(2*messageModulus))
+	offset := num.DivRound(windowCount, int(2*messageModulus)) << e.Params.logLUTCount
 	vec.RotateInPlace(lutOut.Value[0].Coeffs, -offset)
 	for i := e.Params.baseParams.LUTSize() - offset; i < e.Params.baseParams.LUTSize(); i++ {
 		lutOut.Value[0].Coeffs[i] = -lutOut.Value[0].Coeffs[i]
-- 
2.43.0


From b70ad5ecf7d727b5bf6ff49631138851b3e13cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:36 +0000
Subject: [PATCH 25/26] fix: the discrete Gaussian sampler must not cut its
 tails around a large centre

---
 xtfhe/sanitization_sampler.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xtfhe/sanitization_sampler.go b/xtfhe/sanitization_sampler.go
index f8943c2..7fbc794 100644
--- a/xtfhe/sanitization_sampler.go
+++ b/xtfhe/sanitization_sampler.go
@@ -34,8 +34,8 @@ func NewCDTSampler[T num.Integer](center float64, stdDev float64) *CDTSampler[T]
 	cFloor := math.Floor(center)
 	cFrac := center - cFloor
 
-	tailLo := int64(math.Floor(center - GaussianTailCut*stdDev))
-	tailHi := int64(math.Ceil(center + GaussianTailCut*stdDev))
+	tailLo := int64(math.Floor(cFrac - GaussianTailCut*stdDev))
+	tailHi := int64(math.Ceil(cFrac + GaussianTailCut*stdDev))
 	tableSize := tailHi - tailLo + 1
 
 	table := make([]uint64, tableSize)
-- 
2.43.0


From c3af6f573c04e196cb84ed376320ad5df34bbdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:09 +0000
Subject: [PATCH 26/26] fix: the extended blind rotation must rotate the
 look-up table in the right direction

The initial rotation by the body of the ciphertext permuted the components
of an extended look-up table by minus the remainder instead of plus the
remainder, so the table was off by up to lutExtendFactor-1 positions.
---
 tfhe/bootstrap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tfhe/bootstrap.go b/tfhe/bootstrap.go
index 53b5b3c..c9217fb 100644
--- a/tfhe/bootstrap.go
+++ b/tfhe/bootstrap.go
@@ -70,10 +70,10 @@ func (e *Evaluator[T]) blindRotateExtendedTo(ctOut GLWECiphertext[T], ct LWECiph
 	b2NMono, b2NIdx := b2N/e.Params.lutExtendFactor, b2N%e.Params.lutExtendFactor
 
 	for i, ii := 0, e.Params.lutExtendFactor-b2NIdx; i < b2NIdx; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono+1)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono+1)
 	}
 	for i, ii := b2NIdx, 0; i < e.Params.lutExtendFactor; i, ii = i+1, ii+1 {
-		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[ii].Value[0], lut.Value[i], b2NMono)
+		e.PolyEvaluator.MonomialMulPolyTo(e.buf.ctAcc[i].Value[0], lut.Value[ii], b2NMono)
 	}
 
 	for i := 0; i < e.Params.lutExtendFactor; i++ {
-- 
2.43.0

