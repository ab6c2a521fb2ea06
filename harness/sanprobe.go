package main

import (
	"fmt"
	"math"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// ---------------------------------------------------------------- the randomness of a Sanitizer
//
// With all-zero keys nothing but the fresh randomness of each operation is left in its output; with a public key of two equal
// constant rows the encryption randomness itself appears in both components.

func sanProbe[T tfhe.TorusInt](c *Ctx, name string, p uint64, sig [4]float64) {
	w := logQ[T]()
	q := math.Exp2(float64(w))
	sh := Shape{Name: name, LogQ: int(w), Dim: 8, Rank: 1, N: 32, Block: 1 + c.Rng.Intn(2), P: int(p), Order: 0, BRBase: 4, BRLevel: 2, KSBase: 3, KSLevel: 2, LogStdDev: -25}
	sp := xtfhe.SanitizationParametersLiteral[T]{BaseParams: literal[T](sh), RandSigma: sig[0] / q, RandTau: sig[1] / q, LinEvalSigma: sig[2] / q, LinEvalTau: sig[3] / q}.Compile()
	bp := sp.BaseParams()
	N := bp.PolyRank()
	three := func(pk tfhe.PublicKey[T]) []*xtfhe.Sanitizer[T] {
		s := xtfhe.NewSanitizer(sp, pk, tfhe.NewEvaluationKey(bp))
		r := s.SafeCopy()
		return []*xtfhe.Sanitizer[T]{s, r, r.SafeCopy()}
	}
	ss := three(tfhe.NewPublicKey(bp))

	nz, ks := map[string]*noise{}, []string{}
	add := func(i int, src string, sd float64, v ...T) {
		k := fmt.Sprint(name, " ", i, " ", src)
		if nz[k] == nil {
			nz[k], ks = &noise{}, append(ks, k)
		}
		for _, x := range v {
			nz[k].add(float64(sgn(x)), sd)
		}
	}
	lwe := func() tfhe.LWECiphertext[T] { return tfhe.NewLWECiphertext(bp) }

	for rep := 0; rep < 150; rep++ { // re-randomizations
		for i, s := range ss {
			g := tfhe.NewGLWECiphertext(bp)
			s.ReRandGLWETo(g, g)
			add(i, "ReRandGLWE body", sig[1], g.Value[0].Coeffs...)
			add(i, "ReRandGLWE mask", sig[0], g.Value[1].Coeffs...)
			l := lwe()
			s.ReRandLWETo(l, l)
			add(i, "ReRandLWE mask", sig[0], l.Value[1:]...)
			for j := 0; j < 16; j++ {
				s.ReRandLWETo(l, lwe())
				add(i, "ReRandLWE body", sig[1], l.Value[0])
			}
		}
	}

	pk := tfhe.NewPublicKey(bp)
	for i := range pk.GLWEKey.Value {
		pk.GLWEKey.Value[i].Value[0].Coeffs[0], pk.GLWEKey.Value[i].Value[1].Coeffs[0] = 1<<(w-13), 1<<(w-13)
	}
	rd := func(x T) T { return num.DivRoundBits(x, w-13) << (w - 13) >> (w - 13) }
	rs := func(v []T) []T {
		r := make([]T, len(v))
		for i, x := range v {
			r[i] = rd(x)
		}
		return r
	}
	signed := func(v []T) []T { // thirteen-bit values back to words
		r := make([]T, len(v))
		for i, x := range v {
			if r[i] = x; x>>12 == 1 {
				r[i] = x - 1<<13
			}
		}
		return r
	}
	for i, s := range three(pk) {
		bi, mi := []int{}, []int{}
		for rep := 0; rep < 60; rep++ {
			g := tfhe.NewGLWECiphertext(bp)
			s.ReRandGLWETo(g, g)
			b, m := rs(g.Value[0].Coeffs), rs(g.Value[1].Coeffs)
			add(i, "ReRandGLWE secret", sig[0], signed(b)...)
			bi, mi = append(bi, c.ID(Fingerprint("r", b))), append(mi, c.ID(Fingerprint("r", m)))
		}
		c.Emit(M{"ev": "rerand", "src": fmt.Sprint(name, i, "GLWE"), "a": bi, "b": mi})
		bi, mi = []int{}, []int{}
		for rep := 0; rep < 60; rep++ {
			l := lwe()
			s.ReRandLWETo(l, l)
			m := rs(l.Value[1:])
			add(i, "ReRandLWE secret", sig[0], signed(m)...)
			bi, mi = append(bi, c.ID(Fingerprint("r", []T{rd(l.Value[0])}, m[1:]))), append(mi, c.ID(Fingerprint("r", m[:1], m[1:])))
		}
		c.Emit(M{"ev": "rerand", "src": fmt.Sprint(name, i, "LWE"), "a": bi, "b": mi})
	}

	for rep := 0; rep < c.Pick(25, 300); rep++ { // randomized linear evaluation
		for i, s := range ss {
			f := tfhe.NewLUT(bp)
			l := lwe()
			for j := 0; j < 40; j++ {
				s.SanitizeLUTTo(l, lwe(), f)
				add(i, "Sanitize body", sig[3], l.Value[0])
			}
			sd := 2 * float64(p) * sig[2]
			for k := 0; k < N; k++ {
				f.Value[0].Coeffs[k] = 1 << (w - 13)
				s.SanitizeLUTTo(l, lwe(), f)
				f.Value[0].Coeffs[k] = 0
				add(i, "Sanitize coefficient", sd, signed([]T{rd(l.Value[0])})...)
			}
			f.Value[0].Coeffs[0] = 1 << (w - 13)
			for j := 0; j < 250; j++ { // 1 + 2p x0, whose mean is zero
				s.SanitizeLUTTo(l, lwe(), f)
				v := signed([]T{rd(l.Value[0])})
				add(i, "Sanitize constant", sd, v...)
				if (v[0]-1)%T(2*p) != 0 {
					c.Stats["sanodd"]++
				}
			}
			f.Value[0].Coeffs[0] = 0
		}
	}
	for _, k := range ks {
		a := nz[k]
		n := float64(a.n)
		c.Emit(M{"ev": "noise", "src": k, "n": a.n, "mean": int(a.s / n * 1000), "var": int(a.s2 / n * 1000), "max": int(math.Min(a.m, 1e6) * 1000)})
	}
	c.Emit(M{"ev": "lineval", "odd": c.Stats["sanodd"]})
}

func runSanProbe(c *Ctx) {
	sanProbe[uint64](c, "san64", 4, [4]float64{40, 90, 25, 160})
	c.Next()
	sanProbe[uint32](c, "san32", 2, [4]float64{20, 70, 1, 50})
	c.Next()
	sanProbe[uint64](c, "san64b", 2, [4]float64{10, 25, 1, 1000})
}

func init() { drivers["sanprobe"] = runSanProbe }
