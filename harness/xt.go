package main

import (
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// picker handles vectors of ciphertexts: it copies one entry, or bootstraps one entry into the vector itself.
type picker[T tfhe.TorusInt] struct{ ev *xtfhe.ManyLUTEvaluator[T] }

func (p *picker[T]) Pick(v []tfhe.LWECiphertext[T], i int) tfhe.LWECiphertext[T] { return v[i].Copy() }
func (p *picker[T]) PickTo(o tfhe.LWECiphertext[T], v []tfhe.LWECiphertext[T], i int) {
	o.CopyFrom(v[i])
}
func (p *picker[T]) BootstrapEntryTo(o []tfhe.LWECiphertext[T], v []tfhe.LWECiphertext[T], i int, f []func(int) int) {
	p.ev.BootstrapFuncTo(o, v[i], f)
}
func (p *picker[T]) SafeCopy() *picker[T] { return &picker[T]{ev: p.ev.SafeCopy()} }

// tensorKey is the key polynomials followed by their products s_i s_j, i <= j.
func tensorKey[T tfhe.TorusInt](k Key[T]) Key[T] {
	r := Key[T]{Polys: append([][]T{}, k.Polys...)}
	for i := range k.Polys {
		for j := i; j < len(k.Polys); j++ {
			q := make([]T, len(k.Polys[i]))
			addMulNega(q, k.Polys[i], k.Polys[j])
			r.Polys = append(r.Polys, q)
		}
	}
	return r
}

func xtSys[T tfhe.TorusInt](c *Ctx, cfg MachineCfg) (*Sys[T], func(*Sys[T])) {
	s, init := coreSys[T](c, cfg)
	p := s.P
	rk, gk := s.gadget(cfg.RBase, cfg.RLevel), s.gadget(cfg.ABase, cfg.ALevel)
	share := func(r any) func() any { return func() any { return r } }
	mlp := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: literal[T](cfg.Shape), LUTCount: cfg.LutCnt}
	manyLUT := func() {
		if cfg.Kind != "mlut" && cfg.Kind != "cb" {
			return
		}
		s.Make["mlwe"] = func() any {
			v := make([]tfhe.LWECiphertext[T], cfg.LutCnt)
			for i := range v {
				v[i] = tfhe.NewLWECiphertext(p)
			}
			return v
		}
		s.LUTF = func(s *Sys[T], op *Op) tfhe.LookUpTable[T] {
			e := xtfhe.NewManyLUTEvaluator(mlp.Compile(), tfhe.EvaluationKey[T]{})
			fs := []func(int) int{}
			for _, f := range op.FNs {
				fs = append(fs, fnOf(f))
			}
			if s.C.Rng.Intn(2) == 0 {
				return e.GenLUT(fs)
			}
			l := tfhe.NewLUT(p)
			Dirty(s.C.Rng, l)
			e.GenLUTTo(l, fs)
			return l
		}
	}
	manyLUT()
	s.PhaseF = func(s *Sys[T], o *Obj) []T {
		if v, ok := o.Val.([]tfhe.LWECiphertext[T]); ok {
			r := []T{}
			for i := range v {
				r = append(r, PhaseLWE(v[i].Value, s.Keys["lwe"].LWE))
			}
			return r
		}
		return nil
	}
	bfv := func(evk xtfhe.BFVEvaluationKey[T]) {
		s.Guard = append(s.Guard, &evk)
		s.Fresh["bfv"] = func() any { return xtfhe.NewBFVEvaluator(p, evk) }
	}
	switch cfg.Kind {
	case "bfv":
		kg := xtfhe.NewBFVKeyGenerator(p, s.enc.SecretKey)
		var evk xtfhe.BFVEvaluationKey[T]
		switch c.Rng.Intn(3) {
		case 0:
			evk.RelinKey, evk.GaloisKeys = kg.GenRelinKey(rk), kg.GenGaloisKeysForPack(gk)
			kg.GenGaloisKeysTo(evk.GaloisKeys, cfg.Gals, gk)
		case 1:
			evk.GaloisKeys = kg.GenGaloisKeys(cfg.Gals, gk)
			kg.GenGaloisKeysForPackTo(evk.GaloisKeys, gk)
			evk.RelinKey = kg.GenRelinKey(rk)
		default:
			evk = kg.GenEvalKey(cfg.Gals, gk)
			kg.GenGaloisKeysForPackTo(evk.GaloisKeys, gk)
			evk.RelinKey = kg.SafeCopy().GenRelinKey(rk)
		}
		bfv(evk)
		e := xtfhe.NewBFVEvaluator(p, evk)
		s.Recv["bfv"] = share(e)
		s.Recv["ev"] = share(e.Evaluator) // the embedded evaluator shares its buffers with the BFV operations
		s.Keys["tens"] = tensorKey(s.Keys["glwe"])
		k := cfg.Shape.Rank
		s.Make["tens"] = func() any { return tfhe.NewGLWECiphertextCustom[T](k*(k+3)/2, cfg.N) }
	case "mlut":
		e := xtfhe.NewManyLUTEvaluator(mlp.Compile(), s.evk)
		s.Recv["mlut"], s.Recv["ev"], s.Recv["pick"] = share(e), share(e.Evaluator), share(&picker[T]{e})
		evk := s.evk
		s.Fresh["mlut"] = func() any { return xtfhe.NewManyLUTEvaluator(mlp.Compile(), evk) }
		s.Fresh["pick"] = func() any { return &picker[T]{xtfhe.NewManyLUTEvaluator(mlp.Compile(), evk)} }
	case "cb":
		lit := func(b, l int) tfhe.GadgetParametersLiteral[T] {
			return tfhe.GadgetParametersLiteral[T]{Base: T(1) << b, Level: l}
		}
		cp := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: mlp, SchemeSwitchParams: lit(cfg.RBase, cfg.RLevel),
			TraceKeySwitchParams: lit(cfg.ABase, cfg.ALevel), OutputParams: lit(cfg.OBase, cfg.OLevel)}.Compile()
		kg := xtfhe.NewCircuitBootstrapKeyGenerator(cp, s.enc.SecretKey)
		if c.Rng.Intn(2) == 0 {
			kg = kg.SafeCopy()
		}
		cbk := kg.GenCircuitBootstrapKey()
		s.Guard = append(s.Guard, &cbk)
		e, evk := xtfhe.NewCircuitBootstrapper(cp, s.evk, cbk), s.evk
		s.Recv["cb"], s.Recv["mlut"], s.Recv["bfv"], s.Recv["ev"], s.Recv["pick"] = share(e), share(e.ManyLUTEvaluator), share(e.BFVEvaluator), share(e.ManyLUTEvaluator.Evaluator), share(&picker[T]{e.ManyLUTEvaluator})
		bfv(xtfhe.BFVEvaluationKey[T]{GaloisKeys: cbk.TraceKeys})
		s.Fresh["cb"] = func() any { return xtfhe.NewCircuitBootstrapper(cp, evk, cbk) }
		s.Fresh["mlut"] = func() any { return xtfhe.NewManyLUTEvaluator(cp.ManyLUTParams(), evk) }
		s.Fresh["pick"] = func() any { return &picker[T]{xtfhe.NewManyLUTEvaluator(cp.ManyLUTParams(), evk)} }
		s.Make["cggsw"] = func() any { return tfhe.NewFFTGGSWCiphertext(p, cp.OutputParams()) }
		s.ObsF = func(s *Sys[T], o *Obj) ([]int, int, bool) {
			ct, ok := o.Val.(tfhe.FFTGGSWCiphertext[T])
			if !ok {
				return nil, 0, false
			}
			return obsGGSW(s, ct)
		}
	case "san":
		q := math.Exp2(float64(cfg.Shape.LogQ))
		sd := func(i int) float64 { return math.Exp2(float64(cfg.San[i])) / q }
		sp := xtfhe.SanitizationParametersLiteral[T]{BaseParams: literal[T](cfg.Shape), RandSigma: sd(0), RandTau: sd(1), LinEvalSigma: sd(2), LinEvalTau: sd(3)}.Compile()
		pk := s.enc.GenPublicKey()
		s.Guard = append(s.Guard, &pk)
		e := xtfhe.NewSanitizer(sp, pk, s.evk)
		s.Recv["san"], s.Recv["ev"] = share(e), share(e.Evaluator)
	}
	return s, init
}

// obsGGSW is the integer constant a Fourier GGSW ciphertext encrypts and the size of the worst row error.
func obsGGSW[T tfhe.TorusInt](s *Sys[T], ct tfhe.FFTGGSWCiphertext[T]) ([]int, int, bool) {
	key := s.Keys["glwe"]
	N := s.Shape.N
	gp := ct.GadgetParams
	phase := func(i, j int) []T {
		return PhaseGLWE(s.trf.InvFFTGLWECiphertext(ct.Value[i].Value[j]).Value, key.Polys)
	}
	bq := gp.BaseQ(0)
	c := int64(0)
	ph := phase(0, 0)[0]
	k := uint64((ph + bq/2) / bq)
	if ph+bq/2 < ph {
		k = 0
	}
	c = int64(k)
	if b := uint64(gp.Base()); uint64(c) >= b/2 {
		c -= int64(b)
	}
	nb := 0
	for i := range ct.Value {
		for j := range ct.Value[i].Value {
			ph := phase(i, j)
			for x := 0; x < N; x++ {
				w := T(0)
				if i == 0 && x == 0 {
					w = T(c) * gp.BaseQ(j)
				} else if i > 0 {
					w = T(c) * gp.BaseQ(j) * key.Polys[i-1][x]
				}
				if b := absBits(ph[x] - w); b > nb {
					nb = b
				}
			}
		}
	}
	v := make([]int, N)
	v[0] = int(c)
	return v, nb, true
}
