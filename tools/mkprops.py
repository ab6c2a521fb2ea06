import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("P01","Decryption recovers what was encrypted, for every ciphertext form",
 "For every parameter set that compiles with adequate noise margin, every message, and every ciphertext form (LWE, Lev, GSW, GLWE, GLev, GGSW and their FFT forms; secret-key and public-key encryption), decrypting a fresh ciphertext returns exactly the encrypted message modulo the message modulus. This holds on the first call and on every later call of the same encryptor, and whatever the output ciphertext contained before.",
 ["inputs","histories","configurations"],"all messages, all compiled parameter shapes (rank, degree, word size, order), all call histories of one encryptor, all prior contents of the output",
 "The tests encrypt the messages 1,2,3 once with one parameter set (rank 1, uint64) into fresh outputs; they never reuse an encryptor's output, use rank>1, or encrypt over a dirty output.",
 ["tfhe/lwe_enc.go","tfhe/glwe_enc.go","tfhe/fft_glwe_enc.go","tfhe/lwe_enc_public.go","tfhe/glwe_enc_public.go","tfhe/fft_glwe_enc_public.go","tfhe/encoder.go"],
 [("mask/body construction","tfhe/lwe_enc.go, tfhe/glwe_enc.go"),("gadget-scaled encryptions of message times key","tfhe/lwe_enc.go EncryptGSWScalarTo, tfhe/glwe_enc.go EncryptGGSWPolyTo")],
 ["decrypted messages and phases"])
p("P02","LWE linear operations act on messages as integer-linear maps",
 "Any program of LWE additions, subtractions, negations, plaintext additions/subtractions and scalar multiply(-add/-sub) operations, run while the noise stays within budget, decrypts to the same program run on the plaintext messages. Only the destination of each operation changes.",
 ["programs","inputs"],"all straight-line programs over a pool of ciphertexts, including destination = operand, within the noise budget",
 "Tests do not exercise these operations as programs at all; only single additions inside gates appear, so wrong sign/accumulate variants and dirty destinations are invisible.",
 ["tfhe/lwe_ops.go","math/vec/asm_vec.go","math/vec/asm_vec_amd64.go","math/vec/vec.go"],
 [("component-wise vector arithmetic","tfhe/lwe_ops.go")],["decrypted phases after each step","fingerprints of the other ciphertexts"])
p("P03","GLWE operations act on messages as negacyclic ring operations",
 "Any program of GLWE (standard or FFT-domain) additions, subtractions, negations, scalar/polynomial multiplications, monomial multiplications, conversions between the two domains and LWE sample extractions decrypts to the same program in the ring of negacyclic polynomials; automorphism (permutation) operations yield the permuted message under the permuted key. Exponents may be any integer, negative or beyond the period.",
 ["programs","inputs","configurations"],"all programs over a pool of GLWE ciphertexts, ranks 1..3, all exponents, all extraction indices",
 "The tests cover a handful of fixed products; negative exponents, wraparound, accumulate variants, rank>1 and extraction at every index are not sampled.",
 ["tfhe/glwe_ops.go","tfhe/fft_glwe_ops.go","tfhe/fft_glwe_conv.go","tfhe/glwe.go","math/poly/poly_ops.go","math/poly/fft_ops.go"],
 [("componentwise polynomial arithmetic","tfhe/glwe_ops.go"),("sample extraction","tfhe/glwe.go AsLWECiphertextTo")],["decrypted polynomials after each step"])
p("P04","Programmable bootstrapping evaluates the function for every message",
 "For every compiled parameter set with adequate margin (either bootstrap order, block or non-block keys, extended or plain look-up tables, any rank), for every function f and every message m, bootstrapping an encryption of m gives an encryption of f(m) with noise that does not depend on the input noise; when the padding bit is set the result is the negated table entry. Repeated bootstraps (chains) keep this property.",
 ["inputs","configurations","histories"],"all functions, all messages incl. padding-bit half, all algorithm variants, all chains",
 "Tests bootstrap three messages through one function under one or two parameter sets; rank>1, one block, non-multiple extension factors, the negacyclic half and long chains are not reached.",
 ["tfhe/bootstrap.go","tfhe/bootstrap_lut.go","tfhe/bootstrap_keygen.go","tfhe/keyswitch.go","tfhe/asm_decompose.go"],
 [("blind rotation (three variants)","tfhe/bootstrap.go"),("modulus switching","tfhe/bootstrap.go ModSwitch"),("key switching before/after","tfhe/bootstrap.go DefaultKeySwitchTo")],["decrypted message and phase noise after bootstrap"])
p("P05","Boolean gates compute their truth tables in any circuit",
 "For all inputs and all circuits built from NOT, AND, NAND, OR, NOR, XOR, XNOR on encrypted bits (secret- or public-key encrypted), every wire decrypts to the Boolean function of the inputs, including when a gate's output overwrites one of its inputs or both inputs are the same wire. Multi-bit encryption/decryption of integers is little-endian and lossless.",
 ["programs","inputs"],"all circuits over a pool of wires, all truth-table rows, both key types, all bit widths",
 "Tests check each gate once per truth-table row on fresh outputs; composition depth, in-place update, shared inputs and wide integers are not explored.",
 ["tfhe/binary_evaluator.go","tfhe/binary_encryptor.go","tfhe/binary_encryptor_public.go","tfhe/binary_encoder.go"],
 [("gate = linear combination + sign bootstrap","tfhe/binary_evaluator.go")],["decrypted wires after each gate"])
p("P06","An output may share storage with an input",
 "For every evaluator operation whose documentation does not forbid overlap, writing the result over one of the inputs gives the same message as writing it to separate storage, and leaves the remaining inputs intact. This covers linear ops, key switching, bootstrapping, external/gadget products and CMux.",
 ["inputs","programs"],"all operations x all admissible aliasing patterns (out=in0, out=in1, in0=in1, all equal)",
 "The tests practically always use fresh outputs, so an implementation that writes the output before it finished reading an input passes.",
 ["tfhe/lwe_ops.go","tfhe/glwe_ops.go","tfhe/fft_glwe_ops.go","tfhe/product.go","tfhe/keyswitch.go","tfhe/bootstrap.go","math/poly/poly_ops.go","math/poly/poly_mul.go"],
 [("read-before-write order / scratch buffers","tfhe/product.go, tfhe/keyswitch.go")],["decrypted result under aliasing vs the specified result"])
p("P07","Results do not depend on call history and inputs are never modified",
 "Deterministic operations return bit-identical results for identical inputs no matter which operations the same evaluator/encoder/decomposer executed before and what the destination contained. No operation modifies its non-destination operands, look-up tables, keys or parameters.",
 ["histories","inputs"],"all sequences of operations on one evaluator, all prior destination contents",
 "Tests use each operation in a fixed order and never compare results across histories nor check that operands are unchanged.",
 ["tfhe/evaluator.go","tfhe/product.go","tfhe/bootstrap.go","tfhe/decomposer.go","math/poly/poly_evaluator.go","math/poly/poly_mul.go"],
 [("scratch buffers fully overwritten before use","tfhe/evaluator.go buffers")],["fingerprints of every operand, key and result"])
p("P08","Key switching preserves the message and moves it to the new key",
 "Switching an LWE or GLWE ciphertext from any input key/dimension/rank to the evaluator's key preserves the message, for any gadget and any dimension relation (smaller, equal, larger); the default bootstrap key switch maps large-dimension to default-dimension ciphertexts. The result decrypts under the target key only with noise bounded by the gadget precision.",
 ["inputs","configurations"],"all messages, input dimensions/ranks and gadget shapes",
 "Tests switch between keys once with one gadget and equal dimensions.",
 ["tfhe/keyswitch.go","tfhe/keyswitch_keygen.go","tfhe/keyswitch_key.go","tfhe/bootstrap_keygen.go"],
 [("decompose and accumulate over key digits","tfhe/keyswitch.go")],["phase under the target key"])
p("P09","Gadget, external products and CMux multiply messages",
 "For every gadget, a gadget product of a Lev/GLev encryption by a constant and an external product of a GSW/GGSW encryption by an LWE/GLWE ciphertext yield an encryption of the product, the Add/Sub variants accumulate it with the right sign, and CMux selects ct0 when the control encrypts 0 and ct1 when it encrypts 1. The added noise is within the bound given by the gadget.",
 ["inputs","configurations","programs"],"all small multipliers, messages, gadget shapes, ranks, variants and aliasing patterns",
 "Tests check a few products with one gadget; accumulate/subtract variants, rank>1, deep gadgets and CMux trees are not covered.",
 ["tfhe/product.go","tfhe/decomposer.go","tfhe/fft_glwe_enc.go"],
 [("decomposition inner product","tfhe/product.go")],["decrypted product and noise magnitude"])
p("P10","Gadget decomposition is exact, balanced and closest",
 "For every word and every gadget, the digits returned by decomposition lie in the balanced range of the base and recompose to the multiple of the gadget precision closest to the input (error at most half of it), identically for scalars, polynomial coefficients and the FFT form, and independent of earlier calls with other gadgets.",
 ["inputs","configurations"],"all words (incl. extremes and carries), all gadget shapes, both word sizes, all polynomial degrees",
 "Tests never look at digits; a carry mistake at one boundary only adds noise that typical messages absorb.",
 ["tfhe/decomposer.go","tfhe/asm_decompose.go","tfhe/asm_decompose_amd64.go"],
 [("rounding and carry propagation","tfhe/decomposer.go DecomposeScalarTo, tfhe/asm_decompose*.go")],["digits and recomposed value"])
p("P11","Serialization round-trips every object",
 "For every serializable type and every valid shape, writing and reading back (through streams with arbitrary chunking, concatenated objects, or byte slices) yields an object equal to the original, the reported counts equal the bytes written/read and the advertised size, and the encoding is canonical (re-encoding gives the same bytes) whatever the receiver held before.",
 ["inputs","configurations","histories"],"all types of both packages, all shapes, all chunkings, all concatenations, all prior receiver contents",
 "Tests round-trip one default-shaped instance of each type through one buffer into a fresh receiver.",
 ["tfhe/lwe_marshal.go","tfhe/glwe_marshal.go","tfhe/fft_glwe_marshal.go","tfhe/bootstrap_key_marshal.go","tfhe/keyswitch_key_marshal.go","tfhe/encryptor_key_marshal.go","tfhe/params.go","mktfhe/lwe_marshal.go","mktfhe/glwe_marshal.go","mktfhe/fft_glwe_marshal.go","mktfhe/bootstrap_key_marshal.go","mktfhe/params.go"],
 [("header + big-endian values","tfhe/*_marshal.go")],["bytes, counts, deep equality"])
p("P12","Serialization faults are reported, never silently accepted",
 "If the destination stream fails at any byte, writing reports that error together with the number of bytes actually accepted; if the source stream ends or fails at any byte, reading reports an error and the number of bytes consumed, and never reports success for an incomplete object. Reading never consumes bytes beyond the object.",
 ["fault_sequences","crash_points"],"every fault position of every serializable type, for write errors, read errors and truncation",
 "Tests only use in-memory buffers that never fail.",
 ["tfhe/lwe_marshal.go","tfhe/glwe_marshal.go","tfhe/fft_glwe_marshal.go","tfhe/bootstrap_key_marshal.go","tfhe/keyswitch_key_marshal.go","tfhe/encryptor_key_marshal.go","mktfhe/lwe_marshal.go","mktfhe/glwe_marshal.go","mktfhe/fft_glwe_marshal.go","mktfhe/bootstrap_key_marshal.go"],
 [("error propagation with byte counts","tfhe/*_marshal.go")],["(n, err) of each call and bytes seen by the stream"])
p("P13","Parameter compilation accepts exactly the valid literals",
 "Compiling a parameter literal (core, gadget, multi-key and extension schemes) fails for every literal that violates a documented constraint and succeeds otherwise; every derived quantity reported by the compiled parameters is the documented function of the literal, and the literal recovered from compiled parameters compiles to the same parameters.",
 ["configurations"],"all combinations of boundary values of every literal field, for all parameter types and both word sizes",
 "Tests only compile the shipped default parameter sets.",
 ["tfhe/params.go","mktfhe/params.go","xtfhe/manylut_params.go","xtfhe/fhew_params.go","xtfhe/sanitization_params.go","xtfhe/circuit_bootstrap_params.go"],
 [("validation switch","Compile methods")],["accept/reject and all getters"])
p("P14","Seeded randomness is deterministic and shared reference strings agree",
 "A sampler (uniform, binary, rounded Gaussian) is a deterministic function of its seed and of the sequence of calls made on it: two samplers with the same seed and the same calls give the same outputs, whatever other samplers, goroutines or objects exist and however the destination looked before, and samplers with different seeds give different outputs. The stream of a uniform sampler moreover does not depend on how its consumption is split into single words, vectors and polynomials. The adding and subtracting forms of a sampler add (subtract) exactly the words that the plain form of the same call would have written. Parties constructed from the same common-reference seed derive the identical reference string, whatever their index and keys, so that their keys interoperate; different seeds give different strings.",
 ["inputs","histories"],"all seeds and all ways of splitting the consumption of the stream",
 "No test compares streams under different consumption patterns or checks agreement of independently built parties' reference strings.",
 ["math/csprng/uniform_sampler.go","math/csprng/binary_sampler.go","mktfhe/encryptor.go"],
 [("counter-mode keystream keyed by the seed hash; refill buffer","math/csprng/uniform_sampler.go")],["sampled words"])
p("P15","Sampled keys and values lie in their documented support",
 "Bounded samples are below their bound and reach every value, binary samples are 0/1, block-binary samples have at most one 1 per block, rounded Gaussian samples stay within a constant multiple of the standard deviation and have the requested centre and spread. Generated secret keys have the documented structure (block-binary LWE part embedded in the large key, FFT form consistent).",
 ["inputs","configurations"],"all bounds, block sizes, vector lengths, standard deviations and key shapes",
 "The only sampler test is a statistical one excluded from the stable suite; supports and key structure are never checked.",
 ["math/csprng/uniform_sampler.go","math/csprng/binary_sampler.go","math/csprng/gaussian_sampler.go","tfhe/encryptor.go","xtfhe/sanitization_sampler.go"],
 [("rejection sampling / block sampling","math/csprng")],["sampled values and key coefficients"])
p("P16","Parallel key generation is equivalent to sequential generation",
 "Evaluation keys generated in parallel, under any scheduling and any number of processors, are as good as sequentially generated ones: every key component is present, encrypts the secret-key component it must encrypt, and bootstrapping/key switching with it gives the same messages. Generating into a key or a map of keys that already holds content replaces it. Generation terminates and does not disturb the generating object.",
 ["schedules","configurations"],"all schedules and processor counts, all key shapes",
 "Tests generate one parallel key on one schedule and only use it indirectly.",
 ["tfhe/bootstrap_keygen.go","mktfhe/bootstrap_keygen.go","xtfhe/fhew_bootstrap_keygen.go"],
 [("job channel + worker copies","GenBlindRotateKeyParallel and friends")],["decrypted key components","bootstrap results"])
p("P17","Safe copies can be used concurrently with the original",
 "An object obtained by a thread-safe copy behaves exactly like the original, and any interleaving of operations on the original and its copies in different goroutines gives every goroutine the results it would have obtained alone, without data races.",
 ["schedules"],"all interleavings of operations on an object and its safe copies, for every type that offers one",
 "No test uses a safe copy concurrently.",
 ["tfhe/evaluator.go","tfhe/encryptor.go","tfhe/encryptor_public.go","tfhe/decomposer.go","tfhe/fft_glwe_conv.go","tfhe/binary_evaluator.go","mktfhe/evaluator.go","mktfhe/encryptor.go","mktfhe/decryptor.go","math/poly/poly_evaluator.go","xtfhe/bfv_evaluator.go","xtfhe/manylut_evaluator.go"],
 [("fresh scratch buffers per copy","SafeCopy methods")],["results per goroutine, race reports, copies sharing mutable memory"])
p("P18","All arithmetic back ends compute the same function",
 "The assembly, the portable and the feature-disabled builds give the same results (bit-identical for integer operations, equal after rounding for floating-point ones) for every vector and polynomial operation at every admissible length, including lengths that are not multiples of the SIMD width.",
 ["configurations","inputs"],"all operations x lengths x word sizes x extreme values on the three back ends",
 "Tests compare against a naive implementation on one power-of-two length with random data.",
 ["math/vec/asm_vec.go","math/vec/asm_vec_amd64.go","math/vec/asm_vec_amd64.s","math/poly/asm_fft_amd64.go","math/poly/asm_fold_amd64.go","math/poly/asm_vec_cmplx_amd64.go","tfhe/asm_decompose_amd64.go"],
 [("CPU-feature dispatch and tail loops","math/vec/asm_vec_amd64.go")],["operation outputs on each back end"])
p("P19","Polynomial arithmetic is exact negacyclic arithmetic",
 "Addition, subtraction, negation, scalar, polynomial, monomial and automorphism operations on polynomials are exact in the ring modulo X^N+1 and the word size for all coefficients (products exact for full-size operands through the splitting algorithm, and for short operands through the short algorithm), in plain, accumulate and subtract variants and in place where offered; the FFT and its inverse round-trip.",
 ["inputs","configurations"],"all coefficient vectors incl. extremes, all degrees, word types, exponents and variants",
 "Tests multiply one random pair per type at one degree with small coefficients.",
 ["math/poly/poly_ops.go","math/poly/poly_mul.go","math/poly/fft.go","math/poly/fft_ops.go","math/poly/poly_evaluator.go","math/poly/asm_fold.go"],
 [("split multiplication and folding FFT","math/poly/poly_mul.go, math/poly/fft.go")],["polynomial coefficients"])
p("P20","Multi-key ciphertexts decrypt and add across parties",
 "For every number of parties, every subset of participating parties and every message, ciphertexts encrypted by any party (secret- or public-key, LWE/GLWE/FFT-GLWE/uni-encryption) decrypt under the joint key, sums/differences/scalar and ring operations across parties act on the messages, and extraction, embedding of single-key ciphertexts and incremental registration of parties preserve them.",
 ["inputs","programs","configurations"],"all party counts/subsets/indices, messages, and programs of linear operations",
 "Tests use parties 0 and 1 of 2 with all keys present, each encryptor once per form.",
 ["mktfhe/encryptor.go","mktfhe/encryptor_public.go","mktfhe/decryptor.go","mktfhe/lwe_ops.go","mktfhe/glwe_ops.go","mktfhe/fft_glwe_ops.go","mktfhe/glwe.go","mktfhe/lwe.go","mktfhe/fft_glwe_conv.go"],
 [("per-party mask blocks","mktfhe/lwe.go, mktfhe/glwe.go"),("joint decryption over registered parties","mktfhe/decryptor.go")],["joint decryption"])
p("P21","Multi-key gates and bootstrapping are correct for any set of parties",
 "Gates and function bootstrapping on multi-key ciphertexts give the Boolean function / f(m) for every subset and order of registered parties, and the parallel variants always agree with the sequential ones.",
 ["programs","inputs","schedules","configurations"],"all circuits, functions, subsets of parties, processor counts; parallel vs sequential",
 "Tests evaluate each gate once for two parties.",
 ["mktfhe/bootstrap.go","mktfhe/binary_evaluator.go","mktfhe/evaluator.go","mktfhe/bootstrap_keygen.go"],
 [("per-party accumulators + hybrid product merge","mktfhe/bootstrap.go")],["decrypted wires"])
p("P22","Multi-key hybrid and external products multiply messages",
 "The hybrid product of one party's uni-encryption (and the external product of one party's GLev encryption) with a joint ciphertext gives an encryption of the product of messages, the Add/Sub variants accumulate it with the right sign, for every party index and every joint ciphertext.",
 ["inputs","programs","configurations"],"all party indices, multipliers, messages, variants and output aliasing",
 "Tests cover one product with party 0 only; Add/Sub variants are never executed.",
 ["mktfhe/product.go","mktfhe/fft_glwe_enc.go","mktfhe/bootstrap_keygen.go"],
 [("relinearization with the reference string","mktfhe/product.go")],["joint decryption of products"])
p("P23","Many-LUT bootstrapping evaluates all functions at once",
 "One many-LUT bootstrap of an encryption of m returns, in order, encryptions of f_0(m),...,f_k-1(m) for every tuple of functions, every message, every supported table count (also when fewer functions are given than the count), and in every variant (block/non-block keys, either order).",
 ["inputs","configurations"],"all function tuples, messages, table counts, key variants",
 "Tests evaluate one tuple on a few messages for the shipped parameters.",
 ["xtfhe/manylut_bootstrap.go","xtfhe/manylut_evaluator.go","xtfhe/manylut_params.go"],
 [("interleaved tables and coarse modulus switching","xtfhe/manylut_bootstrap.go")],["decrypted outputs"])
p("P24","BFV operations are homomorphic in the message ring",
 "Tensoring, relinearization, multiplication, permutation and LWE-to-GLWE packing act on messages as products/automorphisms/constant embedding in the negacyclic message ring, for all messages, when composed in any order, in place or not, and a tensor product may be stored and relinearized later.",
 ["inputs","programs","histories"],"all messages, all interleavings of tensor/relinearize/mul/permute/pack on one evaluator",
 "Tests multiply and permute one ciphertext pair; separate tensor/relinearize and interleavings are never run.",
 ["xtfhe/bfv_evaluator.go","xtfhe/bfv_keygen.go"],
 [("tensor over rationals, scaling, relinearization","xtfhe/bfv_evaluator.go"),("trace by Galois keys","xtfhe/bfv_evaluator.go PackTo")],["decrypted products"])
p("P25","Circuit bootstrapping yields a usable GGSW of the bit",
 "For every input bit and call history, circuit bootstrapping an LWE encryption yields a GGSW ciphertext whose use as a control (CMux / external product) selects/multiplies as the bit prescribes.",
 ["inputs","histories","configurations"],"all bits, histories, gadget shapes and ranks",
 "Tests bootstrap once per bit and check one product.",
 ["xtfhe/circuit_bootstrap.go","xtfhe/circuit_bootstrap_key.go"],
 [("many-LUT bootstrap + trace + scheme switch","xtfhe/circuit_bootstrap.go")],["decrypted CMux results"])
p("P26","FHEW-style bootstrapping evaluates the function for every message",
 "Bootstrapping with wide-distribution (non-binary) keys gives an encryption of f(m) for every message and function, for either order, any window size, sequentially or in parallel generated keys.",
 ["inputs","configurations"],"all functions, messages, window sizes, key signs, exponents",
 "Tests bootstrap a few messages under shipped parameters.",
 ["xtfhe/fhew_bootstrap.go","xtfhe/fhew_bootstrap_keygen.go","xtfhe/fhew_enc.go"],
 [("automorphism-based blind rotation","xtfhe/fhew_bootstrap.go")],["decrypted outputs"])
p("P27","Sanitized bootstrapping preserves the function value and re-randomizes",
 "Sanitizing an encryption of m with f decrypts to f(m) for all m, f, and re-randomization preserves the message while producing ciphertexts that share nothing with the input or with earlier outputs; the randomness that is added has the documented widths, is drawn anew for every component and every call, and this holds for copies of the sanitizer as well; sampled discrete Gaussians have the requested centre and spread.",
 ["inputs","histories","configurations"],"all messages, functions, repeated sanitizations, centres and widths",
 "Tests sanitize a few messages once and never compare repeated outputs.",
 ["xtfhe/sanitization.go","xtfhe/sanitization_sampler.go","xtfhe/sanitization_params.go"],
 [("public-key re-randomization + randomized blind rotation","xtfhe/sanitization.go")],["decrypted outputs, output masks"])
p("P28","Copies are deep, clears are complete, key views stay consistent",
 "A copy equals its source at the time of copying and shares no mutable storage with it; copying into an existing object makes it equal to the source; clearing zeroes the object. All views of a secret key (large LWE, default LWE, polynomial, FFT) always describe the same key, also after copy, copy-into, and deserialization.",
 ["histories","inputs"],"all histories of copy / copy-into / clear / mutate / serialize over two objects of each type",
 "No test copies an object and mutates the source.",
 ["tfhe/lwe.go","tfhe/glwe.go","tfhe/fft_glwe.go","tfhe/keyswitch_key.go","tfhe/bootstrap_key.go","tfhe/encryptor_key.go","tfhe/bootstrap_lut.go","mktfhe/lwe.go","mktfhe/glwe.go","mktfhe/fft_glwe.go","mktfhe/bootstrap_key.go","math/poly/poly.go"],
 [("element-wise deep copies; aliasing of key views on purpose","Copy/CopyFrom methods")],["deep fingerprints before/after mutations"])
p("P29","Look-up tables contain exactly the specified function values",
 "A generated table assigns to every input phase in the rounding interval of message m the encoded (or raw, for full tables) value f(m), negacyclically extended, for every modulus, scale, table size and extension factor, including tables that hold many functions at once, and regenerating into a used table leaves nothing of the old contents.",
 ["inputs","configurations"],"all functions, message moduli and scales, table sizes and extension factors, dirty tables",
 "Tests use tables only through bootstrapping at message centres, so wrong interval edges are absorbed.",
 ["tfhe/bootstrap_lut.go","xtfhe/manylut_bootstrap.go"],
 [("box expansion, rotation by half a box and interleaving","tfhe/bootstrap_lut.go GenLUTCustomFullTo")],["table coefficients"])
p("P30","Decoding inverts encoding and rounds to the nearest message",
 "Decoding an encoded message returns it modulo the message modulus for every integer message (negative or beyond the modulus) and every modulus/scale; decoding tolerates any error below half the scale; short vectors are zero-extended and long ones truncated.",
 ["inputs","configurations"],"all integers, moduli, scales, errors within +-scale/2, vector lengths",
 "Tests only decode small non-negative messages with the default modulus.",
 ["tfhe/encoder.go","tfhe/binary_encoder.go","math/num/num.go"],
 [("scaling and rounded division","tfhe/encoder.go")],["decoded messages"])
p("P31","Every encryption uses fresh randomness",
 "No two ciphertexts or keys produced by any encryptors - the same object, its safe copies, parallel key generation, or independently created ones - ever share a mask or are equal, fresh ciphertexts are never noiseless, and re-encrypting the same message always gives a different ciphertext.",
 ["histories","schedules"],"all histories of encryptions over an encryptor, its copies and its parallel workers",
 "Tests decrypt results only; identical masks or absent noise go unnoticed.",
 ["tfhe/encryptor.go","tfhe/encryptor_public.go","tfhe/lwe_enc.go","tfhe/glwe_enc.go","tfhe/bootstrap_keygen.go","mktfhe/encryptor.go","mktfhe/encryptor_public.go"],
 [("per-object samplers, re-seeded on copy","SafeCopy methods of encryptors")],["mask fingerprints and phases"])
p("P32","Integer and vector helpers compute their mathematical definition",
 "The exported number and vector helpers (logarithms, rounding division, bounds, modular inverse and power, square root, rotate, reverse, bit-reverse, dot, cast, fill, component-wise arithmetic) equal their mathematical definitions over their documented domain, including negative rotation amounts, empty or odd lengths and extreme words, and their in-place forms agree with the out-of-place ones.",
 ["inputs"],"all admissible arguments incl. extremes, signed and unsigned types, all lengths",
 "Tests cover only a few vector kernels at one length.",
 ["math/num/num.go","math/vec/vec.go","math/vec/asm_vec.go"],
 [("pure functions","math/num, math/vec")],["returned values"])
p("P33","Reported error estimates describe the errors that occur",
 "For every parameter set that compiles, the standard deviations that the parameters report for modulus switching, key switching and blind rotation agree with the errors of these operations measured over random keys and ciphertexts (an estimate may exceed the error where floating-point rounding dominates, it never falls short of it); no error lies beyond twelve reported deviations; the reported total variance is the sum of its parts and the reported failure probability is the Gaussian tail beyond the decoding bound.",
 ["inputs"],"all compiled parameter sets (whatever source of error dominates), all keys, ciphertexts and look-up tables",
 "No test looks at the estimates, and an excess of noise below the decoding bound is invisible to decryption.",
 ["tfhe/params.go","tfhe/bootstrap.go","tfhe/keyswitch.go","tfhe/decomposer.go"],
 [("estimates","tfhe/params.go")],["errors of phases in units of the reported deviations"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P), [ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
