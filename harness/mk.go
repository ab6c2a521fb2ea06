package main

import (
	"sort"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// subEmb encrypts with the single-key scheme of one party and embeds the result.
type subEmb[T tfhe.TorusInt] struct {
	p   mktfhe.Parameters[T]
	e   *tfhe.Encryptor[T]
	b   *tfhe.BinaryEncryptor[T]
	idx int
}

func (s *subEmb[T]) EncryptLWE(m int) mktfhe.LWECiphertext[T] {
	o := mktfhe.NewLWECiphertext(s.p)
	s.EncryptLWETo(o, m)
	return o
}
func (s *subEmb[T]) EncryptLWETo(o mktfhe.LWECiphertext[T], m int) {
	o.CopyFromSubKey(s.e.EncryptLWE(m), s.idx)
}
func (s *subEmb[T]) EncryptLWEBool(m bool) mktfhe.LWECiphertext[T] {
	o := mktfhe.NewLWECiphertext(s.p)
	s.EncryptLWEBoolTo(o, m)
	return o
}
func (s *subEmb[T]) EncryptLWEBoolTo(o mktfhe.LWECiphertext[T], m bool) {
	o.CopyFromSubKey(s.b.EncryptLWEBool(m), s.idx)
}
func (s *subEmb[T]) EncryptGLWE(m []int) mktfhe.GLWECiphertext[T] {
	o := mktfhe.NewGLWECiphertext(s.p)
	s.EncryptGLWETo(o, m)
	return o
}
func (s *subEmb[T]) EncryptGLWETo(o mktfhe.GLWECiphertext[T], m []int) {
	o.CopyFromSubKey(s.e.EncryptGLWE(m), s.idx)
}
func (s *subEmb[T]) EncryptFFTGLWE(m []int) mktfhe.FFTGLWECiphertext[T] {
	o := mktfhe.NewFFTGLWECiphertext(s.p)
	s.EncryptFFTGLWETo(o, m)
	return o
}
func (s *subEmb[T]) EncryptFFTGLWETo(o mktfhe.FFTGLWECiphertext[T], m []int) {
	o.CopyFromSubKey(s.e.EncryptFFTGLWE(m), s.idx)
}

func idxName(p string, i int) string { return p + string(rune('0'+i)) }

// maskParties lists the parties whose mask is not zero; n is the number of mask words per party.
func maskParties[T tfhe.TorusInt](v any, trf *tfhe.GLWETransformer[T], n int) []int {
	r := []int{}
	anyNZ := func(x []T) bool {
		for _, y := range x {
			if y != 0 {
				return true
			}
		}
		return false
	}
	switch ct := v.(type) {
	case mktfhe.LWECiphertext[T]:
		for i := 0; 1+(i+1)*n <= len(ct.Value); i++ {
			if anyNZ(ct.Value[1+i*n : 1+(i+1)*n]) {
				r = append(r, i)
			}
		}
	case mktfhe.GLWECiphertext[T]:
		for i := 1; i < len(ct.Value); i++ {
			if anyNZ(ct.Value[i].Coeffs) {
				r = append(r, i-1)
			}
		}
	case mktfhe.FFTGLWECiphertext[T]:
		for i := 1; i < len(ct.Value); i++ {
			for _, y := range ct.Value[i].Coeffs {
				if y != 0 {
					r = append(r, i-1)
					break
				}
			}
		}
	}
	return r
}

func mkSys[T tfhe.TorusInt](c *Ctx, cfg MachineCfg) (*Sys[T], func(*Sys[T])) {
	s := NewSys[T](c, cfg.Shape)
	K := cfg.Parties
	p := mktfhe.ParametersLiteral[T]{SubParams: literal[T](cfg.Shape), PartyCount: K,
		AccumulatorParams: tfhe.GadgetParametersLiteral[T]{Base: T(1) << cfg.ABase, Level: cfg.ALevel},
		RelinKeyParams:    tfhe.GadgetParametersLiteral[T]{Base: T(1) << cfg.RBase, Level: cfg.RLevel}}.Compile()
	s.GP = s.gadget(cfg.GPBase, cfg.GPLevel)
	seed := []byte("common " + cfg.Shape.Name)
	encs := make([]*mktfhe.Encryptor[T], K)
	bins := make([]*mktfhe.BinaryEncryptor[T], K)
	evks := make([]mktfhe.EvaluationKey[T], K)
	sks := make([]tfhe.SecretKey[T], K)
	order := make([]int, K)
	for i := range order {
		order[i] = i
	}
	c.Rng.Shuffle(K, func(i, j int) { order[i], order[j] = order[j], order[i] })
	var ll, ls, lw []T
	var gp [][]T
	for _, i := range order { // parties set up independently, in any order
		encs[i] = mktfhe.NewEncryptor(p, i, append([]byte{}, seed...))
		seedEncryptor(encs[i].SubEncryptor, idxName("mk"+cfg.Shape.Name, i), c.Seed)
		if cfg.Bits {
			bins[i] = mktfhe.NewBinaryEncryptorWithKey(p, i, append([]byte{}, seed...), encs[i].SecretKey)
		}
		sks[i] = encs[i].SecretKey
		if cfg.Eval {
			if i%2 == 0 {
				evks[i] = encs[i].GenEvalKeyParallel()
			} else {
				evks[i] = encs[i].GenEvalKey()
			}
		}
	}
	for i := 0; i < K; i++ {
		ll = append(ll, sks[i].LWELargeKey.Value...)
		ls = append(ls, sks[i].LWEKey.Value...)
		lw = append(lw, encs[i].SubEncryptor.DefaultLWESecretKey().Value...)
		gp = append(gp, sks[i].GLWEKey.Value[0].Coeffs)
	}
	s.Guard = []any{&evks, &sks}
	s.Keys["lwe"], s.Keys[cfg.L], s.Keys[cfg.S] = Key[T]{LWE: lw}, Key[T]{LWE: ll}, Key[T]{LWE: ls}
	s.Keys["glwe"] = Key[T]{Polys: gp}
	s.Keys["fglwe"], s.Keys["rot"] = s.Keys["glwe"], s.Keys["glwe"]
	s.Obs1["rot"] = true
	s.PhaseF = func(s *Sys[T], o *Obj) []T {
		k := s.Keys[o.Cls]
		if o.Aut != 0 && o.Aut != 1 {
			k = k.permuted(o.Aut)
		}
		switch ct := o.Val.(type) {
		case mktfhe.LWECiphertext[T]:
			return []T{PhaseLWE(ct.Value, k.LWE)}
		case mktfhe.GLWECiphertext[T]:
			return PhaseGLWE(ct.Value, k.Polys)
		case mktfhe.FFTGLWECiphertext[T]:
			return PhaseGLWE(mktfhe.NewGLWETransformer[T](cfg.Shape.N).InvGLWECiphertext(ct).Value, k.Polys)
		}
		return nil
	}
	s.Make["lwe"] = func() any { return mktfhe.NewLWECiphertext(p) }
	s.Make[cfg.L] = func() any { return mktfhe.NewLWECiphertextCustom[T](p.GLWEDimension()) }
	s.Make[cfg.S] = func() any { return mktfhe.NewLWECiphertextCustom[T](p.LWEDimension()) }
	s.Make["glwe"] = func() any { return mktfhe.NewGLWECiphertext(p) }
	s.Make["rot"] = s.Make["glwe"]
	s.Make["fglwe"] = func() any { return mktfhe.NewFFTGLWECiphertext(p) }
	n := map[string]int{"lwe": len(lw) / K, cfg.L: len(ll) / K, cfg.S: len(ls) / K}

	consts := map[string]any{}
	for _, sl := range cfg.Slots {
		switch sl.C {
		case "funi":
			consts[sl.N] = encs[sl.I].FFTUniEncryptPoly(s.toPoly(sl.V), p.RelinKeyParameters())
		case "mlev":
			consts[sl.N] = encs[sl.I].SubEncryptor.EncryptFFTGLevPoly(s.toPoly(sl.V), s.GP)
		}
	}
	for i := 0; i < K; i++ {
		i := i
		var e, se, pe any
		se = &subEmb[T]{p: p, e: encs[i].SubEncryptor, idx: i}
		e = encs[i]
		if cfg.Bits {
			s.Scale["lwe"] = T(1) << (logQ[T]() - 3)
			e = bins[i]
			se = &subEmb[T]{p: p, b: tfhe.NewBinaryEncryptorWithKey(p.SubParams(), sks[i]), idx: i}
			if cfg.Public {
				pe = bins[i].PublicEncryptor()
			}
		} else if cfg.Public {
			pe = mktfhe.NewPublicEncryptor(p, i, encs[i].GenPublicKey())
		}
		s.Recv[idxName("enc", i)] = func() any { return e }
		s.Recv[idxName("sub", i)] = func() any { return se }
		s.Recv[idxName("penc", i)] = func() any { return pe }
	}
	// the evaluator and the decryptor know the parties registered so far
	keysOf := func(m map[int]bool) map[int]mktfhe.EvaluationKey[T] {
		r := map[int]mktfhe.EvaluationKey[T]{}
		for i := range m {
			r[i] = evks[i]
		}
		return r
	}
	mkEv := func(m map[int]bool) (any, *mktfhe.Evaluator[T]) {
		if cfg.Bits {
			b := mktfhe.NewBinaryEvaluator(p, keysOf(m))
			return b, b.Evaluator
		}
		e := mktfhe.NewEvaluator(p, keysOf(m))
		return e, e
	}
	type state struct {
		reg, dreg map[int]bool
		ev        any
		evI       *mktfhe.Evaluator[T]
		dec       *mktfhe.Decryptor[T]
		bdec      *mktfhe.BinaryDecryptor[T]
	}
	states := map[*Sys[T]]*state{}
	var install func(s *Sys[T], st *state)
	install = func(s *Sys[T], st *state) {
		states[s] = st
		s.ForkF = func(n *Sys[T]) {
			ns := &state{reg: map[int]bool{}, dreg: map[int]bool{}}
			for k := range st.reg {
				ns.reg[k] = true
			}
			for k := range st.dreg {
				ns.dreg[k] = true
			}
			switch e := n.Recv["ev"]().(type) {
			case *mktfhe.BinaryEvaluator[T]:
				ns.ev, ns.evI, ns.bdec = e, e.Evaluator, st.bdec.SafeCopy()
			case *mktfhe.Evaluator[T]:
				ns.ev, ns.evI, ns.dec = e, e, st.dec.SafeCopy()
			}
			install(n, ns)
		}
		c := func() *Ctx { return s.C }
		s.Recv["ev"] = func() any { return st.ev }
		s.Fresh["ev"] = func() any { e, _ := mkEv(st.reg); return e }
		s.InitF = func(ev M) { ev["regs"], ev["dregs"] = setOf(st.reg), setOf(st.dreg) }
		s.Extra = func(op *Op, m M) {
			o := s.Slots[op.Out]
			m["ms"] = maskParties(o.Val, s.trf, n[o.Cls])
		}
		fps := func() []int {
			r := []int{}
			for _, n := range s.Order {
				r = append(r, c().FP(s.Slots[n].Val))
			}
			return r
		}
		s.Meta = func(op *Op) bool {
			m := M{"ev": "meta", "op": op.Op, "out": op.Out, "ints": op.Ints}
			out := []int{}
			var f func()
			switch op.Op {
			case "AddEvaluationKey":
				f = func() { st.reg[op.Ints[0]] = true; st.evI.AddEvaluationKey(op.Ints[0], evks[op.Ints[0]]) }
			case "AddSecretKey":
				f = func() {
					st.dreg[op.Ints[0]] = true
					if cfg.Bits {
						st.bdec.Decryptor.AddSecretKey(op.Ints[0], sks[op.Ints[0]])
					} else {
						st.dec.AddSecretKey(op.Ints[0], sks[op.Ints[0]])
					}
				}
			case "Decrypt":
				f = func() {
					switch ct := s.Slots[op.Out].Val.(type) {
					case mktfhe.LWECiphertext[T]:
						if cfg.Bits {
							out = []int{b2i(st.bdec.DecryptLWEBool(ct))}
						} else {
							out = []int{st.dec.DecryptLWE(ct)}
						}
					case mktfhe.GLWECiphertext[T]:
						out = make([]int, cfg.N)
						for i := range out {
							out[i] = -1
						}
						if c().Rng.Intn(2) == 0 {
							out = st.dec.DecryptGLWE(ct)
						} else {
							st.dec.DecryptGLWETo(out, ct)
						}
					case mktfhe.FFTGLWECiphertext[T]:
						out = st.dec.DecryptFFTGLWE(ct)
					}
				}
			default:
				return false
			}
			rc, msg := Try(f)
			m["st"], m["dec"], m["fp"], m["kfp"] = rc, out, fps(), c().FP(s.Guard...)
			if rc != "ok" {
				m["msg"] = msg
			}
			c().Stats["op:"+op.Op]++
			c().Emit(m)
			return true
		}
	}
	install(s, &state{})
	init := func(s *Sys[T]) {
		st := states[s]
		if st.ev == nil || cfg.Conc <= 1 {
			st.reg, st.dreg = map[int]bool{}, map[int]bool{}
			for _, i := range cfg.Regs {
				st.reg[i] = true
			}
			dk := map[int]tfhe.SecretKey[T]{}
			for _, i := range cfg.DRegs {
				st.dreg[i] = true
				dk[i] = sks[i]
			}
			st.ev, st.evI = mkEv(st.reg)
			if cfg.Bits {
				st.bdec = mktfhe.NewBinaryDecryptor(p, dk)
			} else {
				st.dec = mktfhe.NewDecryptor(p, dk)
			}
		}
		s.Order = nil
		for _, sl := range cfg.Slots {
			e := s.Recv[idxName("enc", sl.I)]()
			switch {
			case isConstCls(sl.C):
				s.AddSlot(sl.N, sl.C, consts[sl.N])
			case sl.C == "glwe":
				s.AddSlot(sl.N, sl.C, encs[sl.I].EncryptGLWE(sl.V))
			case sl.C == "fglwe":
				s.AddSlot(sl.N, sl.C, encs[sl.I].EncryptFFTGLWE(sl.V))
			case sl.C == "rot":
				s.AddSlot(sl.N, sl.C, encs[sl.I].EncryptGLWE([]int{}))
			case cfg.Bits:
				s.AddSlot(sl.N, sl.C, e.(*mktfhe.BinaryEncryptor[T]).EncryptLWEBool(sl.V[0] == 1))
			case sl.C == "lwe":
				s.AddSlot(sl.N, sl.C, encs[sl.I].EncryptLWE(sl.V[0]))
			default: // under the other LWE key: a joint ciphertext holding one party's encryption
				key := sks[sl.I].LWEKey.Value
				if sl.C == cfg.L {
					key = sks[sl.I].LWELargeKey.Value
				}
				o := s.Make[sl.C]().(mktfhe.LWECiphertext[T])
				m := o.Value[1+sl.I*len(key) : 1+(sl.I+1)*len(key)]
				encs[sl.I].SubEncryptor.UniformSampler.SampleVecTo(m)
				o.Value[0] = s.encd.EncodeLWE(sl.V[0]).Value
				for j := range key {
					o.Value[0] -= m[j] * key[j]
				}
				s.AddSlot(sl.N, sl.C, o)
			}
		}
	}
	return s, init
}

func setOf(m map[int]bool) []int {
	r := []int{}
	for i := range m {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}

func (s *subEmb[T]) SafeCopy() *subEmb[T] {
	r := &subEmb[T]{p: s.p, idx: s.idx}
	if s.e != nil {
		r.e = s.e.SafeCopy()
	}
	if s.b != nil {
		r.b = s.b.SafeCopy()
	}
	return r
}
