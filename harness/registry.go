package main

import (
	"fmt"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// ---------------------------------------------------------------- registries of parties
//
// A multi-key evaluator or decryptor is a registry of parties' keys.  Every party has two generations of keys;
// RegTrace.tla keeps the registry of every object, and what an object computes is a function of its registry and of
// the arguments alone, whoever the object was copied from and whoever was copied from it.

type regObj[T tfhe.TorusInt] struct {
	kind string
	ev   *mktfhe.Evaluator[T]
	bev  *mktfhe.BinaryEvaluator[T]
	dec  *mktfhe.Decryptor[T]
	bdec *mktfhe.BinaryDecryptor[T]
}

type regSys[T tfhe.TorusInt] struct {
	c    *Ctx
	p    mktfhe.Parameters[T]
	K    int
	evks [2][]mktfhe.EvaluationKey[T]
	sks  [2][]tfhe.SecretKey[T]
	efp  [2][]int // fingerprints of the keys
	sub  [2][]int
	sfp  [2][]int

	lwe   []mktfhe.LWECiphertext[T] // arguments
	large []mktfhe.LWECiphertext[T]
	small []mktfhe.LWECiphertext[T]
	glwe  []mktfhe.GLWECiphertext[T]
	uni   []mktfhe.FFTUniEncryption[T]
	glev  []tfhe.FFTGLevCiphertext[T]
	lut   tfhe.LookUpTable[T]
}

func (s *regSys[T]) make(kind string, m []int) regObj[T] {
	o := regObj[T]{kind: kind}
	ek, sk := map[int]mktfhe.EvaluationKey[T]{}, map[int]tfhe.SecretKey[T]{}
	for i, v := range m {
		if v > 0 {
			ek[i], sk[i] = s.evks[v-1][i], s.sks[v-1][i]
		}
	}
	switch kind {
	case "eval":
		o.ev = mktfhe.NewEvaluator(s.p, ek)
	case "bineval":
		o.bev = mktfhe.NewBinaryEvaluator(s.p, ek)
		o.ev = o.bev.Evaluator
	case "dec":
		o.dec = mktfhe.NewDecryptor(s.p, sk)
	case "bindec":
		o.bdec = mktfhe.NewBinaryDecryptor(s.p, sk)
		o.dec = o.bdec.Decryptor
	}
	for i := 0; i < s.K; i++ { // the caller's maps are the caller's
		delete(ek, i)
		delete(sk, i)
	}
	return o
}

func (o regObj[T]) copy() regObj[T] {
	n := regObj[T]{kind: o.kind}
	switch o.kind {
	case "eval":
		n.ev = o.ev.SafeCopy()
	case "bineval":
		n.bev = o.bev.SafeCopy()
		n.ev = n.bev.Evaluator
	case "dec":
		n.dec = o.dec.SafeCopy()
	case "bindec":
		n.bdec = o.bdec.SafeCopy()
		n.dec = n.bdec.Decryptor
	}
	return n
}

func (s *regSys[T]) add(o regObj[T], i, v int) {
	switch {
	case o.bev != nil:
		o.bev.Evaluator.AddEvaluationKey(i, s.evks[v-1][i])
	case o.ev != nil:
		o.ev.AddEvaluationKey(i, s.evks[v-1][i])
	case o.bdec != nil:
		o.bdec.Decryptor.AddSecretKey(i, s.sks[v-1][i])
	default:
		o.dec.AddSecretKey(i, s.sks[v-1][i])
	}
}

// gen is the generation of the key with the given fingerprint: 0 none, 9 something else.
func gen(fp int, a [2][]int, i, none int) int {
	switch fp {
	case a[0][i]:
		return 1
	case a[1][i]:
		return 2
	case none:
		return 0
	}
	return 9
}

// view is what an object shows of its registry: per party, the bit, the key and the key of the party's own object.
func (s *regSys[T]) view(o regObj[T]) [][]int {
	out := [][]int{}
	for i := 0; i < s.K; i++ {
		b := 0
		var k, sub int
		if o.ev != nil {
			if o.ev.PartyBitMap[i] {
				b = 1
			}
			k = gen(s.c.FP(o.ev.EvalKey[i]), s.efp, i, s.c.FP(mktfhe.EvaluationKey[T]{}))
			if e := o.ev.SubEvaluators[i]; e != nil {
				sub = gen(s.c.FP(e.EvalKey), s.sub, i, -1)
			}
		} else {
			if o.dec.PartyBitMap[i] {
				b = 1
			}
			k = gen(s.c.FP(o.dec.SecretKeys[i]), s.sfp, i, s.c.FP(tfhe.SecretKey[T]{}))
			if e := o.dec.SubDecryptors[i]; e != nil {
				sub = gen(s.c.FP(e.SecretKey), s.sfp, i, -1)
			}
		}
		out = append(out, []int{b, k, sub})
	}
	return out
}

// use performs a call; the name identifies the call up to the registry.
func (s *regSys[T]) use(o regObj[T], m []int, name string, x, i int) (id string, res int, st string) {
	r := s.c.Rng
	id = fmt.Sprintf("%s/%d/%d", name, x, i)
	var out any
	st, _ = Try(func() {
		switch name {
		case "brot", "boot":
			g, l := mktfhe.NewGLWECiphertext(s.p), mktfhe.NewLWECiphertext(s.p)
			Dirty(r, &g)
			Dirty(r, &l)
			switch {
			case name == "brot" && r.Intn(2) == 0:
				o.ev.BlindRotateTo(g, s.small[x], s.lut)
				out = g
			case name == "brot":
				o.ev.BlindRotateParallelTo(g, s.small[x], s.lut)
				out = g
			case r.Intn(2) == 0:
				o.ev.BootstrapLUTTo(l, s.lwe[x], s.lut)
				out = l
			default:
				o.ev.BootstrapLUTParallelTo(l, s.lwe[x], s.lut)
				out = l
			}
		case "ks":
			l := mktfhe.NewLWECiphertextCustom[T](s.p.LWEDimension())
			Dirty(r, &l)
			o.ev.DefaultKeySwitchTo(l, s.large[x])
			out = l
		case "hyb", "ext":
			g := mktfhe.NewGLWECiphertext(s.p)
			Dirty(r, &g)
			if name == "hyb" {
				o.ev.HybridProdGLWETo(i, s.uni[i], s.glwe[x], g)
			} else {
				o.ev.ExternalProdGLWETo(i, s.glev[i], s.glwe[x], g)
			}
			out = g
		case "hybadd", "extadd", "hybsub", "extsub":
			g := s.glwe[(x+1)%len(s.glwe)].Copy()
			switch name {
			case "hybadd":
				o.ev.HybridProdAddGLWETo(i, s.uni[i], s.glwe[x], g)
			case "hybsub":
				o.ev.HybridProdSubGLWETo(i, s.uni[i], s.glwe[x], g)
			case "extadd":
				o.ev.ExternalProdAddGLWETo(i, s.glev[i], s.glwe[x], g)
			default:
				o.ev.ExternalProdSubGLWETo(i, s.glev[i], s.glwe[x], g)
			}
			out = g
		case "gate":
			l := mktfhe.NewLWECiphertext(s.p)
			Dirty(r, &l)
			if r.Intn(2) == 0 {
				o.bev.XORTo(l, s.lwe[x], s.lwe[(x+1)%len(s.lwe)])
			} else {
				o.bev.XORParallelTo(l, s.lwe[x], s.lwe[(x+1)%len(s.lwe)])
			}
			out = l
		case "declwe":
			out = o.dec.DecryptLWEPlaintext(s.lwe[x])
		case "decmsg":
			out = o.dec.DecryptLWE(s.lwe[x])
		case "decglwe":
			g := tfhe.NewGLWEPlaintext(s.p.SubParams())
			Dirty(r, &g)
			o.dec.DecryptGLWEPhaseTo(g, s.glwe[x])
			out = g
		case "decbool":
			out = o.bdec.DecryptLWEBool(s.lwe[x])
		}
	})
	if st == "ok" {
		res = s.c.FP(&out)
	}
	return
}

func (o regObj[T]) calls() (a, perParty []string) {
	switch o.kind {
	case "eval":
		return []string{"brot", "boot", "ks"}, []string{"hyb", "ext", "hybadd", "extadd", "hybsub", "extsub"}
	case "bineval":
		return []string{"brot", "gate", "ks"}, []string{"hyb", "ext"}
	case "dec":
		return []string{"declwe", "decmsg", "decglwe"}, nil
	}
	return []string{"declwe", "decglwe", "decbool"}, nil
}

func regRun[T tfhe.TorusInt](c *Ctx, sh Shape, K, rb, rl, ab, al, rounds, steps int) {
	r := c.Rng
	s := &regSys[T]{c: c, K: K}
	s.p = mktfhe.ParametersLiteral[T]{SubParams: literal[T](sh), PartyCount: K,
		AccumulatorParams: tfhe.GadgetParametersLiteral[T]{Base: T(1) << ab, Level: al},
		RelinKeyParams:    tfhe.GadgetParametersLiteral[T]{Base: T(1) << rb, Level: rl}}.Compile()
	for v := 0; v < 2; v++ {
		for i := 0; i < K; i++ {
			enc := mktfhe.NewEncryptor(s.p, i, []byte("registry"))
			s.evks[v] = append(s.evks[v], enc.GenEvalKey())
			s.sks[v] = append(s.sks[v], enc.SecretKey)
			s.efp[v] = append(s.efp[v], c.FP(s.evks[v][i]))
			s.sub[v] = append(s.sub[v], c.FP(s.evks[v][i].EvaluationKey))
			s.sfp[v] = append(s.sfp[v], c.FP(s.sks[v][i]))
			if v == 0 {
				pt := poly.NewPoly[T](sh.N)
				pt.Coeffs[r.Intn(sh.N)] = 1
				s.uni = append(s.uni, enc.FFTUniEncryptPoly(pt, s.p.RelinKeyParameters()))
				s.glev = append(s.glev, enc.SubEncryptor.EncryptFFTGLevPoly(pt, s.p.AccumulatorParameters()))
			}
		}
	}
	for x := 0; x < 3; x++ {
		l, a, b, g := mktfhe.NewLWECiphertext(s.p), mktfhe.NewLWECiphertextCustom[T](s.p.GLWEDimension()), mktfhe.NewLWECiphertextCustom[T](s.p.LWEDimension()), mktfhe.NewGLWECiphertext(s.p)
		for _, o := range []any{&l, &a, &b, &g} {
			Dirty(r, o)
		}
		s.lwe, s.large, s.small, s.glwe = append(s.lwe, l), append(s.large, a), append(s.small, b), append(s.glwe, g)
	}
	s.lut = tfhe.NewLUT(s.p.SubParams())
	Dirty(r, &s.lut)
	kinds := []string{"eval", "bineval", "dec", "bindec"}
	for n := 0; n < rounds; n++ {
		kind := kinds[n%4]
		c.Next()
		c.Emit(M{"ev": "begin", "K": K, "kind": kind, "shape": sh.Name})
		var objs []regObj[T]
		var maps [][]int
		views := func() (v [][][]int) {
			for _, o := range objs {
				v = append(v, s.view(o))
			}
			return
		}
		for t := 0; t < steps; t++ {
			x, h := r.Intn(10), 0
			if len(objs) > 0 {
				h = r.Intn(len(objs))
			}
			switch {
			case len(objs) == 0 || x == 0 && len(objs) < 5:
				m := make([]int, K)
				for i := range m {
					m[i] = r.Intn(3)
				}
				var o regObj[T]
				st, _ := Try(func() { o = s.make(kind, m) })
				if st != "ok" {
					c.Emit(M{"ev": "new", "h": len(objs) + 1, "m": m, "st": st, "views": views()})
					return
				}
				objs, maps = append(objs, o), append(maps, m)
				c.Emit(M{"ev": "new", "h": len(objs), "m": m, "st": st, "views": views()})
			case x < 3 && len(objs) < 6:
				objs, maps = append(objs, objs[h].copy()), append(maps, append([]int{}, maps[h]...))
				c.Emit(M{"ev": "copy", "h": len(objs), "src": h + 1, "st": "ok", "views": views()})
			case x < 6:
				i, v := r.Intn(K), 1+r.Intn(2)
				st, _ := Try(func() { s.add(objs[h], i, v) })
				maps[h][i] = v
				c.Emit(M{"ev": "add", "h": h + 1, "i": i + 1, "v": v, "st": st, "views": views()})
			default:
				all, per := objs[h].calls()
				on := []int{}
				for i, v := range maps[h] {
					if v > 0 {
						on = append(on, i)
					}
				}
				name, i := all[r.Intn(len(all))], 0
				if len(per) > 0 && len(on) > 0 && r.Intn(2) == 0 {
					name, i = per[r.Intn(len(per))], on[r.Intn(len(on))]
				}
				y := r.Intn(3)
				// a brand-new object with the same registry
				ref := s.make(kind, maps[h])
				id, res, st := s.use(ref, maps[h], name, y, i)
				c.Emit(M{"ev": "ref", "m": append([]int{}, maps[h]...), "call": id, "res": res, "st": st})
				id, res, st = s.use(objs[h], maps[h], name, y, i)
				c.Emit(M{"ev": "use", "h": h + 1, "call": id, "res": res, "st": st})
			}
		}
		c.Emit(M{"ev": "end", "views": views()})
	}
}

func init() {
	drivers["registry"] = func(c *Ctx) {
		for n := 0; n < c.Pick(2, 12); n++ {
			for i, K := range []int{1, 2, 3, 4} {
				sh := rotShape(fmt.Sprintf("r%d-%d", n, i), 64, 4, 2, 1, 16, 16, (n+i)%2)
				regRun[uint64](c, sh, K, 8, 5, 8, 4, 8, 40)
				sh = rotShape(fmt.Sprintf("s%d-%d", n, i), 32, 3, 1, 1, 16, 16, (n+i+1)%2)
				regRun[uint32](c, sh, K, 6, 4, 6, 4, 8, 40)
			}
		}
	}
}
