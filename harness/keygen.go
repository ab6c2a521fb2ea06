package main

import (
	"fmt"
	"math"
	"reflect"
	"runtime"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// ---------------------------------------------------------------- key generation (sequential and parallel)

type kgSys[T tfhe.TorusInt] struct {
	c     *Ctx
	trf   *tfhe.GLWETransformer[T]
	uniEv M
}

func ggsw01[T tfhe.TorusInt](v []T) []int {
	r := make([]int, len(v))
	for i := range v {
		r[i] = int(sgn(v[i]))
	}
	return r
}

// keyOpen announces a generated key object: what it must contain is decided by the specification.
func (s *kgSys[T]) open(kind, how string, lq, lb, lv, n, rank, N, ls, rows int, lwe []T, glwe [][]T, pre bool) {
	g := make([][]int, len(glwe))
	for i := range glwe {
		g[i] = ggsw01(glwe[i])
	}
	s.c.Emit(M{"ev": "keyopen", "kind": kind, "how": how, "logq": lq, "lb": lb, "lv": lv, "n": n, "rank": rank, "N": N, "ls": ls, "rows": rows,
		"lwe": ggsw01(lwe), "glwe": g, "same": b2i(pre)})
}

func lsOf(x float64) int { return int(math.Ceil(math.Log2(x))) }

func (s *kgSys[T]) brk(brk tfhe.BlindRotateKey[T], p tfhe.Parameters[T], lwe []T, glwe [][]T, kind, how string, same bool) {
	g := p.BlindRotateParams()
	s.open(kind, how, p.LogQ(), g.LogBase(), g.Level(), p.LWEDimension(), p.GLWERank(), p.PolyRank(), lsOf(p.GLWEStdDevQ()), len(brk.Value), lwe, glwe, same)
	for i := range brk.Value {
		for j := range brk.Value[i].Value {
			for k := range brk.Value[i].Value[j].Value {
				ct := s.trf.InvFFTGLWECiphertext(brk.Value[i].Value[j].Value[k])
				s.c.Emit(M{"ev": "row", "i": i, "j": j, "k": k, "w": words(PhaseGLWE(ct.Value, glwe))})
			}
		}
	}
	s.c.Emit(M{"ev": "keyclose"})
}

// lksk: key-switching key encrypting skIn under lwe.
func (s *kgSys[T]) lksk(ksk tfhe.LWEKeySwitchKey[T], logq int, skIn, lwe []T, std float64, how string, same bool) {
	g := ksk.GadgetParams
	s.open("lksk", how, logq, g.LogBase(), g.Level(), len(skIn), 0, 1, lsOf(std), len(ksk.Value), skIn, [][]T{}, same)
	for i := range ksk.Value {
		for k := range ksk.Value[i].Value {
			s.c.Emit(M{"ev": "row", "i": i, "j": 0, "k": k, "w": words([]T{PhaseLWE(ksk.Value[i].Value[k].Value, lwe)})})
		}
	}
	s.c.Emit(M{"ev": "keyclose"})
}

// gksk: GLWE key-switching key encrypting the polynomials of skIn under glwe.
func (s *kgSys[T]) gksk(ksk tfhe.GLWEKeySwitchKey[T], logq int, skIn, glwe [][]T, std float64, how string, same bool) {
	g := ksk.GadgetParams
	s.open("gksk", how, logq, g.LogBase(), g.Level(), len(skIn), len(glwe), len(glwe[0]), lsOf(std), len(ksk.Value), nil, skIn, same)
	for i := range ksk.Value {
		for k := range ksk.Value[i].Value {
			ct := s.trf.InvFFTGLWECiphertext(ksk.Value[i].Value[k])
			s.c.Emit(M{"ev": "row", "i": i, "j": 0, "k": k, "w": words(PhaseGLWE(ct.Value, glwe))})
		}
	}
	s.c.Emit(M{"ev": "keyclose"})
}

// uni: rows of a uni-encryption of the polynomial msg: Value[1] encrypts an auxiliary binary key r under glwe,
// Value[0] is msg masked with the reference string times r.
func (s *kgSys[T]) uni(ct mktfhe.FFTUniEncryption[T], logq int, crs []poly.Poly[T], msg []T, glwe [][]T, std float64, how string, same bool) {
	g := ct.GadgetParams
	var aux []T
	ph := make([][]T, g.Level())
	for k := range ph {
		ph[k] = PhaseGLWE(s.trf.InvFFTGLWECiphertext(ct.Value[1].Value[k]).Value, glwe)
	}
	// the auxiliary key read from the most significant level
	for _, x := range ph[0] {
		sc := g.BaseQ(0)
		aux = append(aux, (x+sc/2)/sc)
	}
	if s.uniEv != nil {
		s.uniEv["lwe"], s.uniEv["glwe"], s.uniEv["same"] = []int{}, [][]int{ggsw01(msg), ggsw01(aux)}, b2i(same)
		s.c.Emit(s.uniEv)
	} else {
		s.open("uni", how, logq, g.LogBase(), g.Level(), 2, 1, len(msg), lsOf(std), 2, nil, [][]T{msg, aux}, same)
	}
	neg := make([]T, len(aux))
	for i := range aux {
		neg[i] = -aux[i]
	}
	for k := range ph {
		v := s.trf.InvFFTGLWECiphertext(ct.Value[0].Value[k])
		w := PhaseGLWE([]poly.Poly[T]{v.Value[0], crs[k]}, [][]T{neg})
		s.c.Emit(M{"ev": "row", "i": 0, "j": 0, "k": k, "w": words(w)})
	}
	for k := range ph {
		s.c.Emit(M{"ev": "row", "i": 1, "j": 0, "k": k, "w": words(ph[k])})
	}
	s.c.Emit(M{"ev": "keyclose"})
}

func polysOf[T tfhe.TorusInt](v []poly.Poly[T]) [][]T {
	r := make([][]T, len(v))
	for i := range v {
		r[i] = v[i].Coeffs
	}
	return r
}

func kgShape[T tfhe.TorusInt](c *Ctx, sh Shape) {
	c.Balance()
	s := &kgSys[T]{c: c, trf: tfhe.NewGLWETransformer[T](sh.N)}
	p := literal[T](sh).Compile()
	enc := newEncryptor(p, "kg"+sh.Name, c.Seed)
	enc.EncryptLWE(1) // the encryptor has been used before
	gk := polysOf(enc.SecretKey.GLWEKey.Value)
	lk := enc.SecretKey.LWEKey.Value
	rest := enc.SecretKey.LWELargeKey.Value[p.LWEDimension():]
	before := Fingerprint(enc.SecretKey, enc.Params)
	same := func() bool { return Fingerprint(enc.SecretKey, enc.Params) == before }
	use := func(evk tfhe.EvaluationKey[T], how string) {
		ev := tfhe.NewEvaluator(p, evk)
		for i := 0; i < 3; i++ {
			m, a := c.Rng.Intn(sh.P), c.Rng.Intn(sh.P)
			ct := ev.BootstrapFunc(enc.EncryptLWE(m), func(x int) int { return x + a })
			c.Emit(M{"ev": "use", "how": how, "p": sh.P, "m": m, "a": a, "got": enc.DecryptLWE(ct)})
		}
	}
	for _, how := range []string{"parallel", "sequential"} {
		var evk tfhe.EvaluationKey[T]
		if how == "parallel" {
			runtime.GOMAXPROCS(1 + c.Rng.Intn(8))
			evk = enc.GenEvalKeyParallel()
		} else {
			evk = enc.GenEvalKey()
		}
		s.brk(evk.BlindRotateKey, p, lk, gk, "brk", how, same())
		s.lksk(evk.KeySwitchKey, p.LogQ(), rest, lk, p.LWEStdDevQ(), how, same())
		use(evk, how)
	}
	s.brk(enc.GenBlindRotateKeyParallel(), p, lk, gk, "brk", "GenBlindRotateKeyParallel", same())
	s.lksk(enc.GenDefaultKeySwitchKeyParallel(), p.LogQ(), rest, lk, p.LWEStdDevQ(), "GenDefaultKeySwitchKeyParallel", same())
	g := tfhe.GadgetParametersLiteral[T]{Base: T(1) << (1 + c.Rng.Intn(5)), Level: 1 + c.Rng.Intn(4)}.Compile()
	in := make([]T, 1+c.Rng.Intn(9))
	for i := range in {
		in[i] = T(c.Rng.Intn(3) - 1)
	}
	dl := enc.DefaultLWESecretKey().Value
	s.lksk(enc.GenLWEKeySwitchKey(tfhe.LWESecretKey[T]{Value: in}, g), p.LogQ(), in, dl, p.DefaultLWEStdDevQ(), "GenLWEKeySwitchKey", same())
	skg := tfhe.NewGLWESecretKeyCustom[T](1+c.Rng.Intn(3), sh.N)
	for i := range skg.Value {
		for j := range skg.Value[i].Coeffs {
			skg.Value[i].Coeffs[j] = T(c.Rng.Intn(3) - 1)
		}
	}
	s.gksk(enc.GenGLWEKeySwitchKey(skg, g), p.LogQ(), polysOf(skg.Value), gk, p.GLWEStdDevQ(), "GenGLWEKeySwitchKey", same())
	if sh.Order == 0 {
		// public keys: encryptions of zero, the LWE one under the reversed key
		pk := enc.GenPublicKey()
		pubKey(s, pk, p, gk, same())
	}
	// BFV and circuit-bootstrapping keys
	kg := xtfhe.NewBFVKeyGenerator(p, enc.SecretKey)
	rel := make([][]T, 0)
	for i := range gk {
		for j := i; j < len(gk); j++ {
			o := make([]T, sh.N)
			addMulNega(o, gk[i], gk[j])
			rel = append(rel, o)
		}
	}
	s.gksk(kg.GenRelinKey(g), p.LogQ(), rel, gk, p.GLWEStdDevQ(), "GenRelinKey", same())
	d := 2*c.Rng.Intn(sh.N) + 1
	gal := func(m map[int]tfhe.GLWEKeySwitchKey[T], how string) {
		for dd, k := range m {
			pg := make([][]T, len(gk))
			for i := range gk {
				pg[i] = permuteRef(gk[i], dd)
			}
			s.gksk(k, p.LogQ(), pg, gk, p.GLWEStdDevQ(), how, same())
		}
	}
	gal(kg.GenGaloisKeys([]int{d, 3, 2*sh.N - 1}, g), "GenGaloisKeys")
	// into a map that holds keys of somebody else
	idx := []int{d, 5}
	old := xtfhe.NewBFVKeyGenerator(p, tfhe.NewEncryptor(p).SecretKey).GenGaloisKeys([]int{5, sh.N + 1}, g)
	kg.GenGaloisKeysTo(old, idx, g)
	kg.GenGaloisKeysForPackTo(old, g)
	gal(old, "GenGaloisKeysTo")
}

func pubKey[T tfhe.TorusInt](s *kgSys[T], pk tfhe.PublicKey[T], p tfhe.Parameters[T], gk [][]T, same bool) {
	zero := make([][]T, len(gk))
	rev := make([][]T, len(gk))
	for i := range zero {
		zero[i] = make([]T, len(gk[i]))
		rev[i] = make([]T, len(gk[i]))
		for j := range gk[i] {
			rev[i][len(gk[i])-1-j] = gk[i][j]
		}
	}
	for _, x := range []struct {
		how  string
		rows []tfhe.GLWECiphertext[T]
		key  [][]T
	}{{"GLWEPublicKey", pk.GLWEKey.Value, gk}, {"LWEPublicKey", pk.LWEKey.Value, rev}} {
		s.open("gksk", x.how, p.LogQ(), 1, 1, len(gk), len(gk), p.PolyRank(), lsOf(p.GLWEStdDevQ()), len(x.rows), nil, zero, same)
		for i, r := range x.rows {
			s.c.Emit(M{"ev": "row", "i": i, "j": 0, "k": 0, "w": words(PhaseGLWE(r.Value, x.key))})
		}
		s.c.Emit(M{"ev": "keyclose"})
	}
}

func kgMK[T tfhe.TorusInt](c *Ctx, k int) {
	c.Balance()
	p := mkLiteral[T](logQ[T](), k).Compile()
	N := p.PolyRank()
	s := &kgSys[T]{c: c, trf: tfhe.NewGLWETransformer[T](N)}
	enc := mktfhe.NewEncryptor(p, k%p.PartyCount(), []byte{byte(k), 2, 3})
	gk := polysOf(enc.SecretKey.GLWEKey.Value)
	lk := enc.SecretKey.LWEKey.Value
	before := Fingerprint(enc.SecretKey, enc.Params, enc.CRS)
	same := func() bool { return Fingerprint(enc.SecretKey, enc.Params, enc.CRS) == before }
	for _, how := range []string{"parallel", "sequential"} {
		var evk mktfhe.EvaluationKey[T]
		if how == "parallel" {
			runtime.GOMAXPROCS(1 + c.Rng.Intn(8))
			evk = enc.GenEvalKeyParallel()
		} else {
			evk = enc.GenEvalKey()
		}
		sp := p.SubParams()
		s.brk(evk.EvaluationKey.BlindRotateKey, sp, lk, gk, "brk", "mk "+how, same())
		s.lksk(evk.EvaluationKey.KeySwitchKey, p.LogQ(), enc.SecretKey.LWELargeKey.Value[p.SubParams().LWEDimension():], lk, sp.LWEStdDevQ(), "mk "+how, same())
		zero := [][]T{make([]T, N)}
		rg := p.RelinKeyParameters()
		s.open("gksk", "GenCRSPublicKey", p.LogQ(), rg.LogBase(), rg.Level(), 1, 1, N, lsOf(p.GLWEStdDevQ()), 1, nil, zero, same())
		for i := range evk.CRSPublicKey.Value {
			ct := s.trf.InvFFTGLWECiphertext(evk.CRSPublicKey.Value[i])
			c.Emit(M{"ev": "row", "i": 0, "j": 0, "k": i, "w": words(PhaseGLWE([]poly.Poly[T]{ct.Value[0], enc.CRS[i]}, gk))})
		}
		c.Emit(M{"ev": "keyclose"})
		s.uni(evk.RelinKey, p.LogQ(), enc.CRS, gk[0], gk, p.GLWEStdDevQ(), "GenRelinKey", same())
	}
	sp, rest := p.SubParams(), enc.SecretKey.LWELargeKey.Value[p.SubParams().LWEDimension():]
	s.lksk(enc.GenDefaultKeySwitchKey(), p.LogQ(), rest, lk, sp.LWEStdDevQ(), "mk GenDefaultKeySwitchKey", same())
	s.lksk(enc.GenDefaultKeySwitchKeyParallel(), p.LogQ(), rest, lk, sp.LWEStdDevQ(), "mk GenDefaultKeySwitchKeyParallel", same())
	// the keys of boolean encryptors
	bm := mktfhe.NewBinaryEncryptorWithKey(p, k%p.PartyCount(), []byte{byte(k), 2, 3}, enc.SecretKey)
	be := tfhe.NewBinaryEncryptorWithKey(sp, enc.SecretKey)
	for how, e := range map[string]tfhe.EvaluationKey[T]{"binary": be.GenEvalKey(), "binary parallel": be.GenEvalKeyParallel(),
		"mk binary": bm.GenEvalKey().EvaluationKey, "mk binary parallel": bm.GenEvalKeyParallel().EvaluationKey} {
		s.brk(e.BlindRotateKey, sp, lk, gk, "brk", how, same())
		s.lksk(e.KeySwitchKey, p.LogQ(), rest, lk, sp.LWEStdDevQ(), how, same())
	}
}

func kgFHEW[T tfhe.TorusInt](c *Ctx, k int) {
	c.Balance()
	p := fhewLiteral[T](k).Compile()
	bp := p.BaseParams()
	s := &kgSys[T]{c: c, trf: tfhe.NewGLWETransformer[T](bp.PolyRank())}
	enc := xtfhe.NewFHEWEncryptor(p)
	gk := polysOf(enc.SecretKey.GLWEKey.Value)
	lk := enc.SecretKey.LWEKey.Value
	before := Fingerprint(enc.SecretKey)
	same := func() bool { return Fingerprint(enc.SecretKey) == before }
	for _, how := range []string{"parallel", "sequential"} {
		var evk xtfhe.FHEWEvaluationKey[T]
		if how == "parallel" {
			runtime.GOMAXPROCS(1 + c.Rng.Intn(8))
			evk = enc.GenEvalKeyParallel()
		} else {
			evk = enc.GenEvalKey()
		}
		s.brk(evk.BlindRotateKey, bp, lk, gk, "fbrk", "fhew "+how, same())
		s.lksk(evk.KeySwitchKey, bp.LogQ(), enc.SecretKey.LWELargeKey.Value[bp.LWEDimension():], lk, bp.LWEStdDevQ(), "fhew "+how, same())
		// Galois keys: X -> X^-5, then X -> X^(5^i)
		d, N := 1, bp.PolyRank()
		for i := range evk.GaloisKey {
			e := d
			if i == 0 {
				e = 2*N - 5
			} else {
				d = d * 5 % (2 * N)
				e = d
			}
			pg := make([][]T, len(gk))
			for j := range gk {
				pg[j] = permuteRef(gk[j], e)
			}
			s.gksk(evk.GaloisKey[i], bp.LogQ(), pg, gk, bp.GLWEStdDevQ(), "FHEW Galois", same())
		}
	}
}

func fhewLiteral[T tfhe.TorusInt](k int) xtfhe.FHEWParametersLiteral[T] {
	s := Shape{Name: "fhew", LogQ: logQ[T](), Dim: 5 + k%3, Rank: 1 + k%2, N: 32, Block: 1, P: 4, Order: k % 2, BRBase: 8, BRLevel: 5, KSBase: 3, KSLevel: 8, LogStdDev: -45}
	if s.LogQ == 32 {
		s.BRBase, s.BRLevel, s.KSBase, s.KSLevel, s.LogStdDev = 5, 5, 2, 8, -25
	}
	l := literal[T](s)
	l.BlockSize = 1
	return xtfhe.FHEWParametersLiteral[T]{BaseParams: l, SecretKeyStdDev: 0.8 / math.Exp2(float64(s.LogQ)), WindowSize: 1 + k%4}
}

func kgShapes(lq int) []Shape {
	std := -45
	a, b, ka, kb := 8, 5, 3, 8
	if lq == 32 {
		std, a, b, ka, kb = -25, 5, 5, 2, 8
	}
	f := func(name string, dim, rank, N, block, order int) Shape {
		return Shape{Name: name, LogQ: lq, Dim: dim, Rank: rank, N: N, Block: block, P: 4, Order: order, BRBase: a, BRLevel: b, KSBase: ka, KSLevel: kb, LogStdDev: std}
	}
	return []Shape{f("kg1", 6, 1, 64, 3, 0), f("kg2", 4, 2, 32, 2, 1), f("kg3", 1, 1, 32, 1, 0), f("kg4", 32, 1, 32, 8, 1), f("kg5", 5, 3, 16, 1, 0)}
}

func runKeygen(c *Ctx) {
	for r := 0; r < c.Pick(1, 4); r++ {
		for _, s := range kgShapes(64) {
			kgShape[uint64](c, s)
		}
		for _, s := range kgShapes(32) {
			kgShape[uint32](c, s)
		}
		for k := 0; k < 2; k++ {
			kgMK[uint64](c, k+2*r)
			kgMK[uint32](c, k+1+2*r)
			kgFHEW[uint64](c, k+2*r)
			kgFHEW[uint32](c, k+1+2*r)
		}
	}
}

// ---------------------------------------------------------------- freshness and noise

type noise struct {
	n        int
	s, s2, m float64
}

func (a *noise) add(x, sd float64) {
	x /= sd
	a.n++
	a.s += x
	a.s2 += x * x
	if math.Abs(x) > a.m {
		a.m = math.Abs(x)
	}
}

type freshSys[T tfhe.TorusInt] struct {
	c  *Ctx
	p  tfhe.Parameters[T]
	tr *tfhe.GLWETransformer[T]
	nz map[string]*noise
	ks []string
}

// maskIDs: a fingerprint of every mask word (of every pair of words when they have 32 bits).
func (s *freshSys[T]) maskIDs(v []T) []int {
	r := []int{}
	if logQ[T]() == 64 {
		for i := 0; i < len(v); i++ {
			r = append(r, s.c.ID(uint64(v[i])))
		}
		return r
	}
	for i := 0; i+1 < len(v); i += 2 {
		r = append(r, s.c.ID(uint64(v[i])<<32|uint64(v[i+1])))
	}
	return r
}

func thin(v []int) []int { return v }

// walk visits every row (LWE or GLWE ciphertext in coefficient form) of an object.
func (s *freshSys[T]) walk(o any, lwe func([]T), glwe func([]poly.Poly[T])) {
	switch x := o.(type) {
	case tfhe.LWECiphertext[T]:
		lwe(x.Value)
	case tfhe.LevCiphertext[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.GSWCiphertext[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.GLWECiphertext[T]:
		glwe(x.Value)
	case tfhe.GLevCiphertext[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.GGSWCiphertext[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.FFTGLWECiphertext[T]:
		s.walk(s.tr.InvFFTGLWECiphertext(x), lwe, glwe)
	case tfhe.FFTGLevCiphertext[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.FFTGGSWCiphertext[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.LWEKeySwitchKey[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.GLWEKeySwitchKey[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.BlindRotateKey[T]:
		for _, r := range x.Value {
			s.walk(r, lwe, glwe)
		}
	case tfhe.EvaluationKey[T]:
		s.walk(x.BlindRotateKey, lwe, glwe)
		s.walk(x.KeySwitchKey, lwe, glwe)
	case tfhe.PublicKey[T]:
		for _, r := range x.GLWEKey.Value {
			s.walk(r, lwe, glwe)
		}
		for _, r := range x.LWEKey.Value {
			s.walk(r, lwe, glwe)
		}
	default:
		v := reflect.ValueOf(o)
		if v.Kind() == reflect.Slice || v.Kind() == reflect.Map {
			if v.Kind() == reflect.Map {
				for _, k := range v.MapKeys() {
					s.walk(v.MapIndex(k).Interface(), lwe, glwe)
				}
				return
			}
			for i := 0; i < v.Len(); i++ {
				s.walk(v.Index(i).Interface(), lwe, glwe)
			}
			return
		}
		panic("HARNESS: walk " + v.Type().String())
	}
}

// masks records the mask words of everything in o.
func (s *freshSys[T]) masks(src string, o any) {
	ids := []int{}
	rows := 0
	s.walk(o, func(v []T) {
		rows++
		ids = append(ids, s.maskIDs(v[1:])...)
	}, func(v []poly.Poly[T]) {
		rows++
		for _, q := range v[1:] {
			ids = append(ids, s.maskIDs(q.Coeffs)...)
		}
	})
	s.c.Emit(M{"ev": "mask", "src": src, "rows": rows, "ids": ids})
}

// errs records the noise of zero encryptions: the phases of all rows, concatenated.
func (s *freshSys[T]) errs(src string, o any, lk []T, gk [][]T, sdl, sdg float64) {
	var le, ge []T
	s.walk(o, func(v []T) { le = append(le, PhaseLWE(v, lk)) }, func(v []poly.Poly[T]) { ge = append(ge, PhaseGLWE(v, gk)...) })
	for i, e := range [][]T{le, ge} {
		if len(e) == 0 {
			continue
		}
		sd := []float64{sdl, sdg}[i]
		k := src + []string{"/lwe", "/glwe"}[i]
		if s.nz[k] == nil {
			s.nz[k] = &noise{}
			s.ks = append(s.ks, k)
		}
		zero := 0
		for _, x := range e {
			s.nz[k].add(float64(sgn(x)), sd)
			if x == 0 {
				zero++
			}
		}
		s.c.Emit(M{"ev": "err", "src": k, "n": len(e), "zero": zero, "id": s.c.ID(Fingerprint("err", e))})
	}
}

func freshRun[T tfhe.TorusInt](c *Ctx, sh Shape, lstd, gstd float64) {
	c.Balance()
	c.ids = map[uint64]int{}
	c.Emit(M{"ev": "open", "name": sh.Name})
	l := literal[T](sh)
	l.LWEStdDev, l.GLWEStdDev = lstd, gstd
	p := l.Compile()
	s := &freshSys[T]{c: c, p: p, tr: tfhe.NewGLWETransformer[T](sh.N), nz: map[string]*noise{}}
	g := tfhe.GadgetParametersLiteral[T]{Base: 4, Level: 3}.Compile()
	enc0 := tfhe.NewEncryptor(p)
	// an encryptor whose samplers are already in the middle of their buffers
	for i := 0; i < c.Rng.Intn(40); i++ {
		enc0.EncryptLWE(0)
	}
	c1 := enc0.SafeCopy()
	c2 := c1.SafeCopy()
	same := tfhe.NewEncryptorWithKey(p, enc0.SecretKey)
	encs := []*tfhe.Encryptor[T]{enc0, c1, c2, same, enc0.SafeCopy()}
	names := []string{"original", "copy", "copy of copy", "same key", "later copy"}
	lk, gk := enc0.DefaultLWESecretKey().Value, polysOf(enc0.SecretKey.GLWEKey.Value)
	dsd := p.DefaultLWEStdDevQ()
	zl := make([]int, sh.N)
	for rep := 0; rep < 3; rep++ {
		for i, e := range encs {
			cts := []any{e.EncryptLWE(0), e.EncryptLWE(0), e.EncryptLev(0, g), e.EncryptGSW(0, g), e.EncryptGLWE(zl), e.EncryptGLev(zl, g), e.EncryptGGSW(zl, g),
				e.EncryptFFTGLWE(zl), e.EncryptFFTGLev(zl, g), e.EncryptFFTGGSW(zl, g)}
			var ls []tfhe.LWECiphertext[T]
			for k := 0; k < 12; k++ {
				ls = append(ls, e.EncryptLWE(0))
			}
			cts = append(cts, ls)
			if rep > 0 { // destinations that are used again
				o := tfhe.NewLWECiphertext(p)
				e.EncryptLWETo(o, 0)
				cts = append(cts, o.Copy())
				e.EncryptLWETo(o, 0)
				cts = append(cts, o)
				og := tfhe.NewGLWECiphertext(p)
				e.EncryptGLWETo(og, zl)
				cts = append(cts, og.Copy())
				e.EncryptGLWETo(og, zl)
				cts = append(cts, og)
			}
			for _, ct := range cts {
				s.masks(names[i], ct)
				if _, one := ct.(tfhe.LWECiphertext[T]); !one {
					s.errs("secret-key encryption", ct, lk, gk, dsd, p.GLWEStdDevQ())
				}
			}
		}
	}
	// public keys and public-key encryption
	if sh.Order == 0 {
		pk := enc0.GenPublicKey()
		s.masks("public key", pk)
		s.masks("public key", c1.GenPublicKey())
		s.errs("public key", []any{pk.GLWEKey.Value}, nil, gk, 1, p.GLWEStdDevQ())
		pe := tfhe.NewPublicEncryptor(p, pk)
		for _, e := range []*tfhe.PublicEncryptor[T]{pe, pe.SafeCopy(), pe.SafeCopy().SafeCopy(), tfhe.NewPublicEncryptor(p, pk)} {
			for rep := 0; rep < 4; rep++ {
				s.masks("public encryption", []any{e.EncryptLWE(0), e.EncryptLWE(0), e.EncryptGLWE(zl), e.EncryptFFTGLWE(zl)})
			}
		}
		c3 := pe.EncryptLWE(1)
		o := pe.EncryptLWE(0)
		for rep := 0; rep < 3; rep++ {
			pe.EncryptLWETo(o, 1)
			s.masks("public encryption", o)
		}
		s.masks("public encryption", c3)
		s.probe("public ", pk, func(k tfhe.PublicKey[T]) (func() []poly.Poly[T], func() []poly.Poly[T]) {
			e := tfhe.NewPublicEncryptor(p, k)
			return func() []poly.Poly[T] {
					ct := e.EncryptLWE(0)
					r := []poly.Poly[T]{{Coeffs: ct.Value[:1]}}
					for i := 0; i < sh.Rank; i++ {
						r = append(r, poly.Poly[T]{Coeffs: ct.Value[1+i*sh.N : 1+(i+1)*sh.N]})
					}
					return r
				}, func() []poly.Poly[T] {
					if c.Rng.Intn(2) == 0 {
						return s.tr.InvFFTGLWECiphertext(e.EncryptFFTGLWE(zl)).Value
					}
					return e.EncryptGLWE(zl).Value
				}
		})
	}
	// evaluation keys; the phases of rows are compared with their documented content by the key specification
	for i, e := range []*tfhe.Encryptor[T]{enc0, c2} {
		evp := e.GenEvalKeyParallel()
		s.masks("parallel key "+names[i], evp)
		evs := e.GenEvalKey()
		s.masks("sequential key "+names[i], evs)
		for _, evk := range []tfhe.EvaluationKey[T]{evp, evs} {
			s.errs("key-switching key", subRows(evk.KeySwitchKey, enc0.SecretKey.LWELargeKey.Value[p.LWEDimension():], p.KeySwitchParams()), enc0.SecretKey.LWEKey.Value, gk, p.LWEStdDevQ(), 1)
			s.errs("bootstrapping key", s.subBRK(evk.BlindRotateKey, enc0.SecretKey.LWEKey.Value, gk), nil, gk, 1, p.GLWEStdDevQ())
		}
	}
	// zero keys: the phases are noise only
	zk := tfhe.LWESecretKey[T]{Value: make([]T, 7)}
	kk := c1.GenLWEKeySwitchKey(zk, g)
	s.masks("LWE key-switching key", kk)
	s.errs("LWE key-switching key", kk, lk, gk, dsd, 1)
	zg := tfhe.NewGLWESecretKey(p)
	for i := 0; i < 3; i++ {
		gg := encs[i].GenGLWEKeySwitchKey(zg, g)
		s.masks("GLWE key-switching key", gg)
		s.errs("GLWE key-switching key", gg, nil, gk, 1, p.GLWEStdDevQ())
	}
	bk := xtfhe.NewBFVKeyGenerator(p, enc0.SecretKey)
	s.masks("BFV keys", bk.GenRelinKey(g))
	s.masks("BFV keys", bk.SafeCopy().GenGaloisKeys([]int{3, 5}, g))
	// independent encryptors have independent keys and masks
	ind := tfhe.NewEncryptor(p)
	s.masks("independent", ind.EncryptGLWE(zl))
	s.keyIDs("secret keys", enc0.SecretKey, ind.SecretKey, enc0.GenSecretKey(), c1.GenSecretKey(), same.GenSecretKey(), enc0.GenSecretKey())
	// multi-key: parties sharing a reference string still use their own randomness elsewhere
	if sh.Rank == 1 && sh.Order == 0 || sh.Rank == 1 {
		ml := mktfhe.ParametersLiteral[T]{SubParams: l, PartyCount: 2, AccumulatorParams: tfhe.GadgetParametersLiteral[T]{Base: 16, Level: 2},
			RelinKeyParams: tfhe.GadgetParametersLiteral[T]{Base: 8, Level: 2}}
		if sh.LUT == 0 || sh.LUT == sh.N {
			s.mk(ml)
		}
	}
	for _, k := range s.ks {
		a := s.nz[k]
		if a.n < 300 {
			continue
		}
		n := float64(a.n)
		mean := a.s / n * 1000
		c.Emit(M{"ev": "noise", "src": k, "n": a.n, "mean": int(mean), "var": int(a.s2 / n * 1000), "max": int(math.Min(a.m, 1e6) * 1000)})
	}
}

func (s *freshSys[T]) keyIDs(src string, sks ...tfhe.SecretKey[T]) {
	ids := []int{}
	for _, k := range sks {
		ids = append(ids, s.c.ID(Fingerprint("sk", k.LWELargeKey.Value)))
	}
	s.c.Emit(M{"ev": "mask", "src": src, "rows": len(ids), "ids": ids})
}

func (s *freshSys[T]) mk(ml mktfhe.ParametersLiteral[T]) {
	p := ml.Compile()
	g := p.RelinKeyParameters()
	var all []*mktfhe.Encryptor[T]
	for i := 0; i < 2; i++ {
		e := mktfhe.NewEncryptor(p, i, []byte("shared"))
		all = append(all, e, e.SafeCopy())
	}
	z := make([]int, p.PolyRank())
	for rep := 0; rep < 2; rep++ {
		for i, e := range all {
			sl := func(ct mktfhe.LWECiphertext[T]) tfhe.LWECiphertext[T] {
				n := (len(ct.Value) - 1) / p.PartyCount()
				return tfhe.LWECiphertext[T]{Value: append([]T{0}, ct.Value[1+e.Index*n:1+(e.Index+1)*n]...)}
			}
			sg := func(ct mktfhe.GLWECiphertext[T]) tfhe.GLWECiphertext[T] {
				return tfhe.GLWECiphertext[T]{Value: []poly.Poly[T]{ct.Value[0], ct.Value[1+e.Index]}}
			}
			u := e.UniEncrypt(z, g)
			fu := e.FFTUniEncrypt(z, g)
			s.masks("multi-key encryption", []any{sl(e.EncryptLWE(0)), sl(e.EncryptLWE(0)), sg(e.EncryptGLWE(z)), u.Value[1], fu.Value[1]})
			// the bodies of the first half are masked by the auxiliary key
			ids := []int{}
			for _, r := range u.Value[0].Value {
				ids = append(ids, s.maskIDs(r.Value[0].Coeffs)...)
			}
			for _, r := range fu.Value[0].Value {
				ids = append(ids, s.maskIDs(s.tr.InvFFTGLWECiphertext(r).Value[0].Coeffs)...)
			}
			s.c.Emit(M{"ev": "mask", "src": "uni-encryption", "rows": len(ids), "ids": ids})
			lk, gk := e.SubEncryptor.DefaultLWESecretKey().Value, polysOf(e.SecretKey.GLWEKey.Value)
			s.errs("multi-key encryption", []any{sg(e.EncryptGLWE(z)), sg(e.EncryptGLWE(z)), sg(e.EncryptGLWE(z)), sg(e.EncryptGLWE(z))}, lk, gk, p.DefaultLWEStdDevQ(), p.GLWEStdDevQ())
			s.uni("uni-encryption", e, u, gk)
			s.uni("uni-encryption", e, mktfhe.NewGLWETransformer[T](p.PolyRank()).InvFFTUniEncryption(fu), gk)
			if i%2 == 0 {
				evk := e.GenEvalKeyParallel()
				s.masks("multi-key evaluation key", evk.EvaluationKey)
				s.masks("multi-key relinearization key", evk.RelinKey.Value[1])
				s.uni("relinearization key", e, mktfhe.NewGLWETransformer[T](p.PolyRank()).InvFFTUniEncryption(evk.RelinKey), gk)
				var r []any
				for k := range evk.CRSPublicKey.Value {
					r = append(r, tfhe.GLWECiphertext[T]{Value: []poly.Poly[T]{s.tr.InvFFTGLWECiphertext(evk.CRSPublicKey.Value[k]).Value[0], e.CRS[k]}})
				}
				s.errs("reference public key", r, lk, gk, 1, p.GLWEStdDevQ())
			}
		}
	}
	s.keyIDs("multi-key secret keys", all[0].SecretKey, all[2].SecretKey)
}

// uni measures the noise of a uni-encryption: the rows of its second half encrypt an auxiliary key, which masks (with the
// reference string) the rows of its first half.  The content of the first half is the message, zero or the auxiliary key of a
// relinearization key, the encrypted secret key.
func (s *freshSys[T]) uni(src string, e *mktfhe.Encryptor[T], u mktfhe.UniEncryption[T], gk [][]T) {
	g := u.GadgetParams
	near := func(v []T) []T {
		r := make([]T, len(v))
		for i := range v {
			r[i] = num.DivRoundBits(v[i], g.LogBaseQ(0)) & (1<<(logQ[T]()-g.LogBaseQ(0)) - 1)
			if r[i]>>(logQ[T]()-g.LogBaseQ(0)-1) == 1 {
				r[i] -= 1 << (logQ[T]() - g.LogBaseQ(0))
			}
		}
		return r
	}
	aux := near(PhaseGLWE(u.Value[1].Value[0].Value, gk))
	neg := make([]T, len(aux))
	for i := range aux {
		neg[i] = -aux[i]
	}
	msg := near(PhaseGLWE([]poly.Poly[T]{u.Value[0].Value[0].Value[0], e.CRS[0]}, [][]T{neg}))
	var a, b []any
	for k := 0; k < g.Level(); k++ {
		x, y := u.Value[0].Value[k].Copy(), u.Value[1].Value[k].Copy()
		for i := range aux {
			x.Value[0].Coeffs[i] -= msg[i] * g.BaseQ(k)
			y.Value[0].Coeffs[i] -= aux[i] * g.BaseQ(k)
		}
		a = append(a, tfhe.GLWECiphertext[T]{Value: []poly.Poly[T]{x.Value[0], e.CRS[k]}})
		b = append(b, tfhe.GLWECiphertext[T]{Value: y.Value})
	}
	s.errs(src+" message half", a, nil, [][]T{neg}, 1, s.p.GLWEStdDevQ())
	s.errs(src+" key half", b, nil, gk, 1, s.p.GLWEStdDevQ())
}

// subRows subtracts the documented content of a key-switching key from its bodies.
func subRows[T tfhe.TorusInt](k tfhe.LWEKeySwitchKey[T], sk []T, g tfhe.GadgetParameters[T]) tfhe.LWEKeySwitchKey[T] {
	o := k.Copy()
	for i := range o.Value {
		for j := range o.Value[i].Value {
			o.Value[i].Value[j].Value[0] -= sk[i] * g.BaseQ(j)
		}
	}
	return o
}

func (s *freshSys[T]) subBRK(b tfhe.BlindRotateKey[T], lk []T, gk [][]T) []any {
	var r []any
	g := s.p.BlindRotateParams()
	for i := range b.Value {
		for j := range b.Value[i].Value {
			for k := range b.Value[i].Value[j].Value {
				ct := s.tr.InvFFTGLWECiphertext(b.Value[i].Value[j].Value[k])
				if j == 0 {
					ct.Value[0].Coeffs[0] -= lk[i] * g.BaseQ(k)
				} else {
					for x := range ct.Value[0].Coeffs {
						ct.Value[0].Coeffs[x] -= lk[i] * gk[j-1][x] * g.BaseQ(k)
					}
				}
				r = append(r, ct)
			}
		}
	}
	return r
}

// probe makes encryptors with public keys of known content.  Under the zero key a ciphertext is its noise; under a key whose
// i-th row is a large constant in component i + 1, that component shows the auxiliary secret of the encryption.
func (s *freshSys[T]) probe(src string, pk tfhe.PublicKey[T], mk func(tfhe.PublicKey[T]) (lwe, glwe func() []poly.Poly[T])) {
	k := pk.Copy()
	rows := func(f func(i, j int, q poly.Poly[T])) {
		for i := range k.GLWEKey.Value {
			for j := range k.GLWEKey.Value[i].Value {
				f(i, j, k.GLWEKey.Value[i].Value[j])
				f(i, j, k.LWEKey.Value[i].Value[j])
			}
		}
	}
	rows(func(i, j int, q poly.Poly[T]) { q.Clear() })
	l, g := mk(k)
	sd := s.p.GLWEStdDevQ()
	for t, f := range []func() []poly.Poly[T]{l, g} {
		for rep := 0; rep < []int{400, 12}[t]; rep++ {
			for j, q := range f() {
				nm := fmt.Sprint(src, []string{"LWE", "GLWE"}[t], " noise ", j)
				if s.nz[nm] == nil {
					s.nz[nm] = &noise{}
					s.ks = append(s.ks, nm)
				}
				for _, x := range q.Coeffs {
					s.nz[nm].add(float64(sgn(x)), sd)
				}
				if len(q.Coeffs) > 1 && rep < 12 {
					s.c.Emit(M{"ev": "err", "src": nm, "n": len(q.Coeffs), "zero": 0, "id": s.c.ID(Fingerprint("err", q.Coeffs))})
				}
			}
		}
	}
	w := logQ[T]()
	rows(func(i, j int, q poly.Poly[T]) {
		if j == i+1 {
			q.Coeffs[0] = 1 << (w - 3)
		}
	})
	l, g = mk(k)
	for t, f := range []func() []poly.Poly[T]{l, g} {
		for rep := 0; rep < 20; rep++ {
			ones, ids, bad := []int{}, []int{}, 0
			for _, q := range f()[1:] {
				u, n := make([]T, len(q.Coeffs)), 0
				for i, x := range q.Coeffs {
					if u[i] = num.DivRoundBits(x, w-3) & 7; u[i] == 1 || t == 0 && u[i] == 7 { // the order of an LWE mask may come with a sign
						n++
					} else if u[i] != 0 {
						bad++
					}
				}
				ones, ids = append(ones, n), append(ids, s.c.ID(Fingerprint("aux", u)))
			}
			s.c.Emit(M{"ev": "aux", "src": fmt.Sprint(src, t), "N": s.p.PolyRank(), "ones": ones, "ids": ids, "bad": bad})
		}
	}
}

func runFresh(c *Ctx) {
	for r := 0; r < c.Pick(1, 3); r++ {
		f := func(name string, lq, dim, rank, N, block, order int) Shape {
			return Shape{Name: name, LogQ: lq, Dim: dim, Rank: rank, N: N, Block: block, P: 4, Order: order, BRBase: 4, BRLevel: 2, KSBase: 3, KSLevel: 2, LogStdDev: -30}
		}
		e := math.Exp2
		freshRun[uint64](c, f("f1", 64, 24, 1, 64, 4, 0), e(-22), e(-28))
		freshRun[uint64](c, f("f2", 64, 20, 2, 32, 5, 1), e(-20), e(-27))
		freshRun[uint32](c, f("f3", 32, 24, 1, 64, 1, 1), e(-12), e(-17))
		freshRun[uint32](c, f("f4", 32, 30, 3, 32, 3, 0), e(-13), e(-18))
	}
}

// ---------------------------------------------------------------- structure of secret keys

func skRun[T tfhe.TorusInt](c *Ctx, s Shape) {
	c.Balance()
	p := literal[T](s).Compile()
	enc := tfhe.NewEncryptor(p)
	seedEncryptor(enc, "sk"+s.Name, c.Seed)
	trf := tfhe.NewGLWETransformer[T](s.N)
	view := func(sk tfhe.SecretKey[T], def []T) {
		inv := trf.InvFFTGLWESecretKey(sk.FFTGLWEKey)
		var g, f [][]int
		for i := range sk.GLWEKey.Value {
			g = append(g, ggsw01(sk.GLWEKey.Value[i].Coeffs))
			f = append(f, ggsw01(inv.Value[i].Coeffs))
		}
		c.Emit(M{"ev": "key", "name": s.Name, "rank": s.Rank, "N": s.N, "dim": s.Dim, "bs": s.Block, "order": s.Order,
			"large": ggsw01(sk.LWELargeKey.Value), "lwe": ggsw01(sk.LWEKey.Value), "glwe": g, "fft": f, "def": ggsw01(def)})
	}
	view(enc.SecretKey, enc.DefaultLWESecretKey().Value)
	ones := make([]int, s.Rank*s.N)
	reps := c.Pick(400, 4000)
	for i := 0; i < reps; i++ {
		sk := enc.GenSecretKey()
		e2 := tfhe.Encryptor[T]{Params: p, SecretKey: sk}
		if i < 6 {
			view(sk, e2.DefaultLWESecretKey().Value)
		}
		for j, x := range sk.LWELargeKey.Value {
			if x == 1 {
				ones[j]++
			}
		}
	}
	c.Emit(M{"ev": "keys", "dim": s.Dim, "bs": s.Block, "reps": reps, "ones": ones})
	for i := 0; i < 2; i++ { // independent encryptors
		e := tfhe.NewEncryptor(p)
		view(e.SecretKey, e.DefaultLWESecretKey().Value)
	}
}

func runSecret(c *Ctx) {
	for i, d := range [][5]int{{8, 1, 32, 2, 0}, {9, 2, 16, 3, 1}, {16, 1, 16, 4, 0}, {6, 3, 16, 1, 1}, {32, 2, 16, 16, 0}, {20, 1, 64, 20, 1}, {1, 1, 16, 1, 0}} {
		s := Shape{Name: "sk" + string(rune('a'+i)), LogQ: 64, Dim: d[0], Rank: d[1], N: d[2], Block: d[3], Order: d[4], P: 4, BRBase: 4, BRLevel: 2, KSBase: 3, KSLevel: 2, LogStdDev: -30}
		skRun[uint64](c, s)
		s.LogQ, s.LogStdDev = 32, -20
		skRun[uint32](c, s)
	}
}

func init() {
	drivers["keygen"] = runKeygen
	drivers["fresh"] = runFresh
	drivers["secret"] = runSecret
}

// ---------------------------------------------------------------- uni-encryption

// uniOne encrypts a message polynomial in some form with a long-lived encryptor, reports every row, then decrypts.
func uniOne[T tfhe.TorusInt](c *Ctx, s *kgSys[T], p mktfhe.Parameters[T], enc *mktfhe.Encryptor[T], trf *mktfhe.GLWETransformer[T], gk [][]T) {
	r := c.Rng
	N := p.PolyRank()
	g := p.RelinKeyParameters()
	if r.Intn(2) == 0 { // another gadget, not longer than the reference string
		lv := 1 + r.Intn(g.Level())
		b := 4 + r.Intn(5)
		if b*lv > logQ[T]() {
			b = 4
		}
		g = tfhe.GadgetParametersLiteral[T]{Base: T(1) << b, Level: lv}.Compile()
	}
	msgs := make([]int, N)
	for i := range msgs {
		msgs[i] = r.Intn(7) - 3
		if r.Intn(6) == 0 {
			msgs[i] = r.Intn(200) - 100
		}
	}
	sub := []string{"", "", "Poly"}[r.Intn(3)]
	if sub == "" {
		switch r.Intn(4) {
		case 0:
			msgs = msgs[:r.Intn(N)]
		case 1:
			msgs = append(msgs, 1, 2, 3)
		}
	} else {
		for i := range msgs {
			if msgs[i] < -3 || msgs[i] > 3 {
				msgs[i] = 0
			}
		}
	}
	pl := poly.NewPoly[T](N)
	for i := range pl.Coeffs {
		if i < len(msgs) {
			pl.Coeffs[i] = T(msgs[i])
		}
	}
	fft, to := r.Intn(2) == 0, r.Intn(2) == 0
	var u mktfhe.UniEncryption[T]
	var fu mktfhe.FFTUniEncryption[T]
	if to {
		u, fu = mktfhe.NewUniEncryption(p, g), mktfhe.NewFFTUniEncryption(p, g)
		Dirty(r, &u.Value)
		Dirty(r, &fu.Value)
	}
	before := Fingerprint(enc.SecretKey, enc.Params, enc.CRS, pl, msgs)
	st, msg := Try(func() {
		switch {
		case sub == "" && fft && to:
			enc.FFTUniEncryptTo(fu, msgs, g)
		case sub == "" && fft:
			fu = enc.FFTUniEncrypt(msgs, g)
		case sub == "" && to:
			enc.UniEncryptTo(u, msgs, g)
		case sub == "":
			u = enc.UniEncrypt(msgs, g)
		case fft && to:
			enc.FFTUniEncryptPolyTo(fu, pl)
		case fft:
			fu = enc.FFTUniEncryptPoly(pl, g)
		case to:
			enc.UniEncryptPolyTo(u, pl)
		default:
			u = enc.UniEncryptPoly(pl, g)
		}
	})
	if st != "ok" {
		c.Emit(M{"ev": "udec", "st": st, "msg": msg})
		return
	}
	same := Fingerprint(enc.SecretKey, enc.Params, enc.CRS, pl, msgs) == before
	if !fft {
		if to {
			fu = mktfhe.NewFFTUniEncryption(p, g)
			Dirty(r, &fu.Value)
			trf.FwdFFTUniEncryptionTo(fu, u)
		} else {
			fu = trf.FwdFFTUniEncryption(u)
		}
	} else {
		if to {
			u = mktfhe.NewUniEncryption(p, g)
			Dirty(r, &u.Value)
			trf.InvFFTUniEncryptionTo(u, fu)
		} else {
			u = trf.InvFFTUniEncryption(fu)
		}
	}
	// the polynomial it encrypts is decided by the specification from the request
	want := make([]T, N)
	mod := p.MessageModulus()
	for i := range want {
		if i < len(msgs) {
			want[i] = T(msgs[i])
			if sub == "" {
				want[i] = T(((msgs[i] % int(mod)) + int(mod)) % int(mod))
			}
		}
	}
	ms := append([]int{}, msgs...)
	ev := func(m M) M {
		for k, v := range (M{"c": ms, "sub": sub, "p": int(mod), "N": N, "lb": g.LogBase()}) {
			m[k] = v
		}
		return m
	}
	s.uniEv = ev(M{"ev": "keyopen", "kind": "uni", "how": "UniEncrypt", "logq": p.LogQ(), "lv": g.Level(), "n": 2, "rank": 1, "ls": lsOf(p.GLWEStdDevQ()), "rows": 2})
	s.uni(fu, p.LogQ(), enc.CRS, want, gk, p.GLWEStdDevQ(), "", same)
	s.uniEv = nil
	for k := 0; k < 2; k++ {
		dsub := []string{"", "Poly"}[r.Intn(2)]
		var dec []int
		keep := 0
		cu, cfu := u, fu
		b := Fingerprint(u, fu)
		st, msg := Try(func() {
			if dsub == "Poly" {
				var q poly.Poly[T]
				switch {
				case k == 0 && to:
					q = poly.NewPoly[T](N)
					Dirty(r, &q)
					enc.UniDecryptPolyTo(q, cu)
				case k == 0:
					q = enc.UniDecryptPoly(cu)
				case to:
					q = poly.NewPoly[T](N)
					Dirty(r, &q)
					enc.FFTUniDecryptPolyTo(q, cfu)
				default:
					q = enc.FFTUniDecryptPoly(cfu)
				}
				for _, x := range q.Coeffs {
					if x > 1<<20 {
						x = 1 << 20
					}
					dec = append(dec, int(x))
				}
				return
			}
			if to {
				keep = -7
				dec = make([]int, N+r.Intn(7)-3)
				for i := range dec {
					dec[i] = keep
				}
				if k == 0 {
					enc.UniDecryptTo(dec, cu)
				} else {
					enc.FFTUniDecryptTo(dec, cfu)
				}
			} else if k == 0 {
				dec = enc.UniDecrypt(cu)
			} else {
				dec = enc.FFTUniDecrypt(cfu)
			}
		})
		if Fingerprint(u, fu) != b {
			st, msg = "input changed", ""
		}
		m := ev(M{"ev": "udec", "st": st, "dsub": dsub, "dec": dec, "keep": keep})
		if msg != "" {
			m["msg"] = msg
		}
		c.Emit(m)
	}
	c.Stats["uni:"+sub]++
}

func uniShape[T tfhe.TorusInt](c *Ctx, k, n int) {
	c.Balance()
	sh := Shape{Name: fmt.Sprint("uni", k), LogQ: logQ[T](), Dim: 4, Rank: 1, N: 16 << (k % 2), Block: 2, P: []int{4, 5, 7, 8, 12}[k%5], Order: k % 2, BRBase: 5, BRLevel: 3, KSBase: 4, KSLevel: 4, LogStdDev: -50}
	if sh.LogQ == 32 {
		sh.LogStdDev = -29
	}
	p := mktfhe.ParametersLiteral[T]{SubParams: literal[T](sh), PartyCount: 1 + k%4,
		AccumulatorParams: tfhe.GadgetParametersLiteral[T]{Base: 1 << 4, Level: 3},
		RelinKeyParams:    tfhe.GadgetParametersLiteral[T]{Base: 1 << (4 + k%4), Level: 1 + k%4}}.Compile()
	s := &kgSys[T]{c: c, trf: tfhe.NewGLWETransformer[T](sh.N)}
	enc := mktfhe.NewEncryptor(p, k%p.PartyCount(), []byte{byte(k), 7})
	trf := mktfhe.NewGLWETransformer[T](sh.N)
	gk := polysOf(enc.SecretKey.GLWEKey.Value)
	for i := 0; i < n; i++ {
		uniOne(c, s, p, enc, trf, gk)
		if i == n/2 {
			enc = enc.SafeCopy()
		}
	}
}

func runUni(c *Ctx) {
	for k := 0; k < c.Pick(8, 20); k++ {
		uniShape[uint64](c, k, c.Pick(12, 40))
		uniShape[uint32](c, k+1, c.Pick(12, 40))
	}
}

func init() { drivers["uni"] = runUni }
