package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// ---------------------------------------------------------------- exact blind rotations
//
// A blind rotation of a table with arbitrary torus entries by an arbitrary ciphertext: every coefficient of the
// result is the entry of the table at a position the specification computes from the switched words and the key.

type rotSys[T tfhe.TorusInt] struct {
	c      *Ctx
	sh     Shape
	kind   string
	p      tfhe.Parameters[T]
	mk     M // extra parameters of the kind
	cnt    int
	sk     []T   // key of the rotated ciphertexts
	gk     [][]T // key of the rotated tables
	out    []T   // key of the bootstrapped ciphertexts
	ms     func(T) int
	rot    map[string]func(out, ct any, lut tfhe.LookUpTable[T])
	boot   map[string]func(out, ct any, lut tfhe.LookUpTable[T])
	newG   func() any
	newL   func() any    // vector of results of the bootstraps
	wrap   func([]T) any // a ciphertext with the given words
	pre    func(any) any // key switching before the rotation
	absent []int         // parties without keys: their masks are zero
	guard  []any
}

// maskWord draws a word: arbitrary, or at a point where the switched value changes or wraps around.
func (s *rotSys[T]) word() T {
	r := s.c.Rng
	q := uint(logQ[T]())
	if r.Intn(3) > 0 {
		return T(r.Uint64())
	}
	L2 := uint64(2 * s.p.LUTSize())
	k := uint64(r.Intn(int(L2)))
	if r.Intn(3) == 0 {
		k = L2 - 1
	}
	// (2k+1) Q / (4 L), the middle between two switched values
	x := T(float64(2*k+1) / float64(2*L2) * math.Exp2(float64(q)))
	switch r.Intn(5) {
	case 0:
		return T(r.Intn(3)) - 1
	case 1:
		return T(float64(k) / float64(L2) * math.Exp2(float64(q)))
	default:
		d := T(1) << (q - 20)
		return x + T(r.Intn(3)-1)*d
	}
}

func (s *rotSys[T]) words(n, per int) []T {
	r := s.c.Rng
	v := make([]T, n+1)
	for i := range v {
		v[i] = s.word()
	}
	mode := r.Intn(6)
	for i := 1; i <= n; i++ {
		if mode == 0 || mode == 1 && r.Intn(n) > 0 {
			v[i] = 0
		}
		for _, a := range s.absent {
			if (i-1)/per == a {
				v[i] = 0
			}
		}
	}
	return v
}

func (s *rotSys[T]) run(n int) {
	c, p := s.c, s.p
	f := p.LUTExtendFactor()
	for k := 0; k < n; k++ {
		lut := tfhe.NewLUT(p)
		tab := make([]T, p.LUTSize())
		one := c.Rng.Intn(4)
		for i := range tab {
			tab[i] = T(c.Rng.Uint64())
			if one == 0 { // every entry names its position
				tab[i] = T(i+1) << (logQ[T]() - 12)
			}
			lut.Value[i%f].Coeffs[i/f] = tab[i]
		}
		kd := "rot"
		fs := s.rot
		if len(s.boot) > 0 && c.Rng.Intn(3) == 0 {
			kd, fs = "boot", s.boot
		}
		names := []string{}
		for nm := range fs {
			names = append(names, nm)
		}
		sort.Strings(names)
		nm := names[c.Rng.Intn(len(names))]
		parties := 1
		if v, ok := s.mk["K"]; ok {
			parties = v.(int)
		}
		var in, small any
		if kd == "boot" && s.sh.Order == 0 {
			d := p.GLWEDimension()
			in = s.wrap(s.words(d*parties, d))
			small = s.pre(in)
		} else {
			d := p.LWEDimension()
			in = s.wrap(s.words(d*parties, d))
			small = in
		}
		x := lweWords[T](small)
		var out any
		if kd == "rot" {
			out = s.newG()
		} else {
			out = s.newL()
		}
		Dirty(c.Rng, out)
		before := Fingerprint(s.guard...) ^ Fingerprint(in, lut)
		st, msg := Try(func() { fs[nm](out, in, lut) })
		ev := M{"ev": "rot", "kind": s.kind, "op": nm, "k": kd, "sh": s.sh, "L": p.LUTSize(), "f": f, "cnt": s.cnt, "st": st,
			"same": b2i(before == Fingerprint(s.guard...)^Fingerprint(in, lut)), "tab": words(tab), "x": words(x), "s": ggsw01(s.sk)}
		for a, b := range s.mk {
			ev[a] = b
		}
		if st != "ok" {
			ev["msg"] = msg
		}
		ms := []int{}
		for _, w := range x {
			if s.kind == "fhew" {
				w = -w
			}
			ms = append(ms, s.ms(w))
		}
		ev["ms"] = ms
		var ph []T
		switch o := out.(type) {
		case tfhe.GLWECiphertext[T]:
			ph = PhaseGLWE(o.Value, s.gk)
		case mktfhe.GLWECiphertext[T]:
			ph = PhaseGLWE(o.Value, s.gk)
		case []tfhe.LWECiphertext[T]:
			for _, y := range o {
				ph = append(ph, PhaseLWE(y.Value, s.out))
			}
		case []mktfhe.LWECiphertext[T]:
			for _, y := range o {
				ph = append(ph, PhaseLWE(y.Value, s.out))
			}
		}
		ev["w"] = words(ph)
		c.Emit(ev)
		c.Next()
	}
}

func lweWords[T tfhe.TorusInt](v any) []T {
	switch ct := v.(type) {
	case tfhe.LWECiphertext[T]:
		return ct.Value
	case mktfhe.LWECiphertext[T]:
		return ct.Value
	}
	return nil
}

func (s *rotSys[T]) base(sk tfhe.SecretKey[T], def tfhe.LWESecretKey[T]) {
	p := s.p
	s.sk, s.gk, s.out = sk.LWEKey.Value, polysOf(sk.GLWEKey.Value), def.Value
	s.newG = func() any { return tfhe.NewGLWECiphertext(p) }
	s.wrap = func(v []T) any { return tfhe.LWECiphertext[T]{Value: v} }
	s.newL = func() any { return []tfhe.LWECiphertext[T]{tfhe.NewLWECiphertext(p)} }
}

func rotStd[T tfhe.TorusInt](c *Ctx, sh Shape, n int) {
	p := literal[T](sh).Compile()
	enc := newEncryptor(p, "rot"+sh.Name, c.Seed)
	s := &rotSys[T]{c: c, sh: sh, kind: "std", p: p, cnt: 1}
	s.base(enc.SecretKey, enc.DefaultLWESecretKey())
	evk := enc.GenEvalKeyParallel()
	e, e2 := tfhe.NewEvaluator(p, evk), tfhe.NewEvaluator(p, evk)
	s.guard = []any{&evk}
	s.ms = e2.ModSwitch
	s.pre = func(v any) any { return e2.DefaultKeySwitch(v.(tfhe.LWECiphertext[T])) }
	s.rot = map[string]func(o, i any, l tfhe.LookUpTable[T]){
		"BlindRotateTo": func(o, i any, l tfhe.LookUpTable[T]) {
			e.BlindRotateTo(o.(tfhe.GLWECiphertext[T]), i.(tfhe.LWECiphertext[T]), l)
		},
		"BlindRotate": func(o, i any, l tfhe.LookUpTable[T]) {
			g := o.(tfhe.GLWECiphertext[T])
			g.CopyFrom(e.BlindRotate(i.(tfhe.LWECiphertext[T]), l))
		}}
	s.boot = map[string]func(o, i any, l tfhe.LookUpTable[T]){
		"BootstrapLUTTo": func(o, i any, l tfhe.LookUpTable[T]) {
			e.BootstrapLUTTo(o.([]tfhe.LWECiphertext[T])[0], i.(tfhe.LWECiphertext[T]), l)
		},
		"BootstrapLUT": func(o, i any, l tfhe.LookUpTable[T]) {
			o.([]tfhe.LWECiphertext[T])[0].CopyFrom(e.BootstrapLUT(i.(tfhe.LWECiphertext[T]), l))
		}}
	s.run(n)
}

func rotMany[T tfhe.TorusInt](c *Ctx, sh Shape, cnt, n int) {
	mp := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: literal[T](sh), LUTCount: cnt}.Compile()
	p := mp.BaseParams()
	enc := newEncryptor(p, "rotm"+sh.Name, c.Seed)
	s := &rotSys[T]{c: c, sh: sh, kind: "many", p: p, cnt: cnt}
	s.base(enc.SecretKey, enc.DefaultLWESecretKey())
	evk := enc.GenEvalKeyParallel()
	e, e2 := xtfhe.NewManyLUTEvaluator(mp, evk), xtfhe.NewManyLUTEvaluator(mp, evk)
	s.guard = []any{&evk}
	s.ms = e2.ModSwitch
	s.pre = func(v any) any { return e2.DefaultKeySwitch(v.(tfhe.LWECiphertext[T])) }
	s.newL = func() any {
		r := make([]tfhe.LWECiphertext[T], cnt)
		for i := range r {
			r[i] = tfhe.NewLWECiphertext(p)
		}
		return r
	}
	s.rot = map[string]func(o, i any, l tfhe.LookUpTable[T]){
		"BlindRotateTo": func(o, i any, l tfhe.LookUpTable[T]) {
			e.BlindRotateTo(o.(tfhe.GLWECiphertext[T]), i.(tfhe.LWECiphertext[T]), l)
		},
		"BlindRotate": func(o, i any, l tfhe.LookUpTable[T]) {
			g := o.(tfhe.GLWECiphertext[T])
			g.CopyFrom(e.BlindRotate(i.(tfhe.LWECiphertext[T]), l))
		}}
	s.boot = map[string]func(o, i any, l tfhe.LookUpTable[T]){
		"BootstrapLUTTo": func(o, i any, l tfhe.LookUpTable[T]) {
			e.BootstrapLUTTo(o.([]tfhe.LWECiphertext[T]), i.(tfhe.LWECiphertext[T]), l)
		},
		"BootstrapLUT": func(o, i any, l tfhe.LookUpTable[T]) {
			r := e.BootstrapLUT(i.(tfhe.LWECiphertext[T]), l)
			for k := range r {
				o.([]tfhe.LWECiphertext[T])[k].CopyFrom(r[k])
			}
		}}
	s.run(n)
}

func rotFHEW[T tfhe.TorusInt](c *Ctx, sh Shape, std float64, window, n int) {
	fp := xtfhe.FHEWParametersLiteral[T]{BaseParams: literal[T](sh), SecretKeyStdDev: std / math.Exp2(float64(sh.LogQ)), WindowSize: window}.Compile()
	p := fp.BaseParams()
	enc := xtfhe.NewFHEWEncryptor(fp)
	seedEncryptor(enc.Encryptor, "rotf"+sh.Name, c.Seed)
	enc.Encryptor.SecretKey = enc.GenSecretKey()
	s := &rotSys[T]{c: c, sh: sh, kind: "fhew", p: p, cnt: 1}
	s.base(enc.SecretKey, enc.DefaultLWESecretKey())
	evk := enc.GenEvalKeyParallel()
	e, e2 := xtfhe.NewFHEWEvaluator(fp, evk), xtfhe.NewFHEWEvaluator(fp, evk)
	s.guard = []any{&evk}
	s.ms = e2.ModSwitch
	s.pre = func(v any) any { return e2.DefaultKeySwitch(v.(tfhe.LWECiphertext[T])) }
	s.rot = map[string]func(o, i any, l tfhe.LookUpTable[T]){
		"BlindRotateTo": func(o, i any, l tfhe.LookUpTable[T]) {
			e.BlindRotateTo(o.(tfhe.GLWECiphertext[T]), i.(tfhe.LWECiphertext[T]), l)
		},
		"BlindRotate": func(o, i any, l tfhe.LookUpTable[T]) {
			g := o.(tfhe.GLWECiphertext[T])
			g.CopyFrom(e.BlindRotate(i.(tfhe.LWECiphertext[T]), l))
		}}
	s.boot = map[string]func(o, i any, l tfhe.LookUpTable[T]){
		"BootstrapLUTTo": func(o, i any, l tfhe.LookUpTable[T]) {
			e.BootstrapLUTTo(o.([]tfhe.LWECiphertext[T])[0], i.(tfhe.LWECiphertext[T]), l)
		},
		"BootstrapLUT": func(o, i any, l tfhe.LookUpTable[T]) {
			o.([]tfhe.LWECiphertext[T])[0].CopyFrom(e.BootstrapLUT(i.(tfhe.LWECiphertext[T]), l))
		}}
	s.run(n)
}

func rotMK[T tfhe.TorusInt](c *Ctx, sh Shape, K int, rb, rl, ab, al, n int) {
	p := mktfhe.ParametersLiteral[T]{SubParams: literal[T](sh), PartyCount: K,
		AccumulatorParams: tfhe.GadgetParametersLiteral[T]{Base: T(1) << ab, Level: al},
		RelinKeyParams:    tfhe.GadgetParametersLiteral[T]{Base: T(1) << rb, Level: rl}}.Compile()
	seed := seedBytes("rot"+sh.Name, c.Seed)
	evks := map[int]mktfhe.EvaluationKey[T]{}
	s := &rotSys[T]{c: c, sh: sh, kind: "mk", p: p.SubParams(), cnt: 1, mk: M{"K": K, "rb": rb, "rl": rl, "ab": ab, "al": al}}
	reg := c.Rng.Perm(K)[:1+c.Rng.Intn(K)]
	on := map[int]bool{}
	for _, i := range reg {
		on[i] = true
	}
	for i := 0; i < K; i++ {
		enc := mktfhe.NewEncryptor(p, i, append([]byte{}, seed...))
		if on[i] {
			evks[i] = enc.GenEvalKeyParallel()
		} else {
			s.absent = append(s.absent, i)
		}
		s.sk = append(s.sk, enc.SecretKey.LWEKey.Value...)
		s.gk = append(s.gk, enc.SecretKey.GLWEKey.Value[0].Coeffs)
		s.out = append(s.out, enc.SubEncryptor.DefaultLWESecretKey().Value...)
	}
	e, e2 := mktfhe.NewEvaluator(p, evks), mktfhe.NewEvaluator(p, evks)
	s.guard = []any{&evks}
	sub := tfhe.NewEvaluator(p.SubParams(), tfhe.EvaluationKey[T]{})
	s.ms = sub.ModSwitch
	s.pre = func(v any) any { return e2.DefaultKeySwitch(v.(mktfhe.LWECiphertext[T])) }
	s.newG = func() any { return mktfhe.NewGLWECiphertext(p) }
	s.wrap = func(v []T) any { return mktfhe.LWECiphertext[T]{Value: v} }
	s.newL = func() any { return []mktfhe.LWECiphertext[T]{mktfhe.NewLWECiphertext(p)} }
	type G = mktfhe.GLWECiphertext[T]
	type L = mktfhe.LWECiphertext[T]
	s.rot = map[string]func(o, i any, l tfhe.LookUpTable[T]){
		"BlindRotateTo":         func(o, i any, l tfhe.LookUpTable[T]) { e.BlindRotateTo(o.(G), i.(L), l) },
		"BlindRotate":           func(o, i any, l tfhe.LookUpTable[T]) { g := o.(G); g.CopyFrom(e.BlindRotate(i.(L), l)) },
		"BlindRotateParallelTo": func(o, i any, l tfhe.LookUpTable[T]) { e.BlindRotateParallelTo(o.(G), i.(L), l) },
		"BlindRotateParallel":   func(o, i any, l tfhe.LookUpTable[T]) { g := o.(G); g.CopyFrom(e.BlindRotateParallel(i.(L), l)) }}
	s.boot = map[string]func(o, i any, l tfhe.LookUpTable[T]){
		"BootstrapLUTTo":         func(o, i any, l tfhe.LookUpTable[T]) { e.BootstrapLUTTo(o.([]L)[0], i.(L), l) },
		"BootstrapLUT":           func(o, i any, l tfhe.LookUpTable[T]) { o.([]L)[0].CopyFrom(e.BootstrapLUT(i.(L), l)) },
		"BootstrapLUTParallelTo": func(o, i any, l tfhe.LookUpTable[T]) { e.BootstrapLUTParallelTo(o.([]L)[0], i.(L), l) },
		"BootstrapLUTParallel":   func(o, i any, l tfhe.LookUpTable[T]) { o.([]L)[0].CopyFrom(e.BootstrapLUTParallel(i.(L), l)) }}
	s.run(n)
}

func rotShape(name string, logq, dim, block, rank, N, lut, order int) Shape {
	s := Shape{Name: name, LogQ: logq, Dim: dim, Block: block, Rank: rank, N: N, LUT: lut, P: 4, Order: order, BRBase: 8, BRLevel: 5, KSBase: 6, KSLevel: 6, LogStdDev: -55}
	if logq == 32 {
		s.BRBase, s.BRLevel, s.KSBase, s.KSLevel, s.LogStdDev = 6, 4, 5, 5, -28
	}
	return s
}

func pickAny[T any](c *Ctx, v ...T) T { return v[c.Rng.Intn(len(v))] }

func init() {
	drivers["rotstd"] = func(c *Ctx) {
		for r := 0; r < c.Pick(6, 60); r++ {
			for i, f := range []int{1, 1, 1, 2, 3, 4, 8} {
				for _, lq := range []int{64, 32} {
					block := pickAny(c, 1, 2, 3, 4)
					if i == 0 {
						block = 1
					}
					cntB := pickAny(c, 1, 2, 3)
					N := pickAny(c, 16, 32, 64)
					if f >= 4 {
						N = 16
					}
					rank := pickAny(c, 1, 2, 2, 3, 4)
					sh := rotShape(fmt.Sprintf("s%d-%d-%d", r, i, lq), lq, block*cntB, block, rank, N, N*f, c.Rng.Intn(2))
					if lq == 64 {
						rotStd[uint64](c, sh, c.Pick(8, 16))
					} else {
						rotStd[uint32](c, sh, c.Pick(8, 16))
					}
				}
			}
		}
	}
	drivers["rotmany"] = func(c *Ctx) {
		for r := 0; r < c.Pick(6, 60); r++ {
			for i, cnt := range []int{1, 2, 4, 8, 16} {
				for _, lq := range []int{64, 32} {
					block := pickAny(c, 1, 2, 3)
					if i == 1 {
						block = 1
					}
					N := pickAny(c, 16, 32, 64)
					sh := rotShape(fmt.Sprintf("m%d-%d-%d", r, i, lq), lq, block*pickAny(c, 1, 2, 3), block, pickAny(c, 1, 2, 3), N, N, c.Rng.Intn(2))
					if lq == 64 {
						rotMany[uint64](c, sh, cnt, c.Pick(8, 16))
					} else {
						rotMany[uint32](c, sh, cnt, c.Pick(8, 16))
					}
				}
			}
		}
	}
	drivers["rotfhew"] = func(c *Ctx) {
		for r := 0; r < c.Pick(6, 60); r++ {
			for i, w := range []int{1, 2, 3, 5, 20} {
				for _, lq := range []int{64, 32} {
					N := pickAny(c, 16, 32, 64)
					sh := rotShape(fmt.Sprintf("f%d-%d-%d", r, i, lq), lq, 1+c.Rng.Intn(12), 1, pickAny(c, 1, 2, 3), N, N, c.Rng.Intn(2))
					std := pickAny(c, 0.5, 0.8, 1.5)
					if lq == 64 {
						rotFHEW[uint64](c, sh, std, w, c.Pick(8, 16))
					} else {
						rotFHEW[uint32](c, sh, std, w, c.Pick(8, 16))
					}
				}
			}
		}
	}
	drivers["rotmk"] = func(c *Ctx) {
		for r := 0; r < c.Pick(6, 60); r++ {
			for i, K := range []int{1, 2, 3, 5} {
				for _, lq := range []int{64, 32} {
					block := pickAny(c, 1, 2, 3)
					N := pickAny(c, 16, 32)
					sh := rotShape(fmt.Sprintf("k%d-%d-%d", r, i, lq), lq, block*pickAny(c, 1, 2, 3), block, 1, N, N, c.Rng.Intn(2))
					if lq == 64 {
						rotMK[uint64](c, sh, K, 8, 6, 8, 5, c.Pick(8, 16))
					} else {
						rotMK[uint32](c, sh, K, 4, 7, 5, 5, c.Pick(8, 16))
					}
				}
			}
		}
	}
}
