package main

import (
	"reflect"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// ---------------------------------------------------------------- the published parameter sets
//
// Programs over the recommended parameters, at their real sizes.  Their noise is not tracked: every operation gets operands of
// the kind the parameters are documented for (fresh or bootstrapped ones, at most one addition away), whose failure probability
// is negligible.  PresetTrace.tla holds the message of every register.

type preset[T tfhe.TorusInt] struct {
	c   *Ctx
	p   tfhe.Parameters[T]
	enc *tfhe.Encryptor[T]
	pub *tfhe.PublicEncryptor[T]
	reg map[int]tfhe.LWECiphertext[T]
	g   map[int]tfhe.GLWECiphertext[T]
	gm  map[int][]int
	n   int
}

func newPreset[T tfhe.TorusInt](c *Ctx, name string, p tfhe.Parameters[T], enc *tfhe.Encryptor[T]) *preset[T] {
	c.Next()
	e := &preset[T]{c: c, p: p, enc: enc, reg: map[int]tfhe.LWECiphertext[T]{}, g: map[int]tfhe.GLWECiphertext[T]{}, gm: map[int][]int{}}
	if p.IsPublicKeyEncryptable() {
		e.pub = tfhe.NewPublicEncryptor(p, enc.GenPublicKey())
	}
	c.Stats["preset:"+name]++
	c.Emit(M{"ev": "new", "name": name, "p": int(p.MessageModulus()), "N": p.PolyRank()})
	return e
}

// phase is the decrypted phase in units of the scale, modulo twice the message modulus.
func (e *preset[T]) phase(ct tfhe.LWECiphertext[T]) int {
	return int(num.DivRound(e.enc.DecryptLWEPhase(ct).Value, e.p.Scale()) % (2 * e.p.MessageModulus()))
}

func (e *preset[T]) put(ct tfhe.LWECiphertext[T]) int {
	e.n++
	e.reg[e.n] = ct
	return e.n
}

// encrypt makes a fresh register; the padding bit may be set.
func (e *preset[T]) encrypt(pad bool) int {
	P := int(e.p.MessageModulus())
	m := e.c.Rng.Intn(P)
	if pad {
		m = e.c.Rng.Intn(2 * P)
	}
	pt := tfhe.LWEPlaintext[T]{Value: T(m) * e.p.Scale()}
	var ct tfhe.LWECiphertext[T]
	pub := e.pub != nil && e.c.Rng.Intn(2) == 0
	if pub {
		ct = e.pub.EncryptLWEPlaintext(pt)
	} else {
		ct = e.enc.EncryptLWEPlaintext(pt)
	}
	d := e.put(ct)
	e.c.Emit(M{"ev": "enc", "d": d, "m": m, "ph": e.phase(ct), "dec": e.enc.DecryptLWE(ct), "pub": pub})
	return d
}

func (e *preset[T]) table() []int {
	f := make([]int, int(e.p.MessageModulus()))
	for i := range f {
		f[i] = e.c.Rng.Intn(len(f))
	}
	return f
}

// evaluatorPBS is a bootstrapping evaluator.
type evaluatorPBS[T tfhe.TorusInt] interface {
	BootstrapFunc(ct tfhe.LWECiphertext[T], f func(int) int) tfhe.LWECiphertext[T]
	BootstrapFuncTo(ctOut, ct tfhe.LWECiphertext[T], f func(int) int)
	BootstrapLUT(ct tfhe.LWECiphertext[T], lut tfhe.LookUpTable[T]) tfhe.LWECiphertext[T]
	BootstrapLUTTo(ctOut, ct tfhe.LWECiphertext[T], lut tfhe.LookUpTable[T])
	GenLUT(f func(int) int) tfhe.LookUpTable[T]
	AddLWE(a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
	SubLWE(a, b tfhe.LWECiphertext[T]) tfhe.LWECiphertext[T]
}

func (e *preset[T]) pbs(ev evaluatorPBS[T], a int) int {
	f := e.table()
	fn := func(x int) int { return f[x] }
	in := e.reg[a]
	var out tfhe.LWECiphertext[T]
	form := e.c.Rng.Intn(4)
	switch form {
	case 0:
		out = ev.BootstrapFunc(in, fn)
	case 1:
		out = e.enc.EncryptLWE(1)
		ev.BootstrapFuncTo(out, in, fn)
	case 2:
		out = ev.BootstrapLUT(in, ev.GenLUT(fn))
	default:
		out = in.Copy()
		ev.BootstrapLUTTo(out, out, ev.GenLUT(fn))
	}
	d := e.put(out)
	e.c.Emit(M{"ev": "pbs", "d": d, "a": a, "f": f, "form": form, "ph": e.phase(out)})
	return d
}

// sum adds or subtracts two registers.
func (e *preset[T]) sum(ev evaluatorPBS[T], a, b int) int {
	sub := e.c.Rng.Intn(2) == 0
	var out tfhe.LWECiphertext[T]
	if sub {
		out = ev.SubLWE(e.reg[a], e.reg[b])
	} else {
		out = ev.AddLWE(e.reg[a], e.reg[b])
	}
	d := e.put(out)
	e.c.Emit(M{"ev": "sum", "d": d, "a": a, "b": b, "sub": sub, "ph": e.phase(out)})
	return d
}

// chain draws a short program of bootstraps.
func (e *preset[T]) chain(ev evaluatorPBS[T], steps int) {
	live := []int{e.encrypt(false), e.encrypt(true), e.encrypt(true)}
	pick := func() int { return live[e.c.Rng.Intn(len(live))] }
	for i := 0; i < steps; i++ {
		switch e.c.Rng.Intn(4) {
		case 0:
			live = append(live, e.encrypt(true))
		case 1:
			s := e.sum(ev, pick(), pick()) // only bootstrapped afterwards
			live = append(live, e.pbs(ev, s))
		default:
			live = append(live, e.pbs(ev, pick()))
		}
	}
}

func runPreUint(c *Ctx, pbs bool) {
	type np struct {
		n string
		p tfhe.ParametersLiteral[uint64]
	}
	l := []np{{"Uint2", tfhe.ParamsUint2}, {"Uint3", tfhe.ParamsUint3}, {"Uint4", tfhe.ParamsUint4}, {"Uint5", tfhe.ParamsUint5}, {"Uint6", tfhe.ParamsUint6}, {"Uint7", tfhe.ParamsUint7}, {"Uint8", tfhe.ParamsUint8}}
	if !c.Thorough() && !pbs {
		l = []np{l[0], l[1], l[2+c.Rng.Intn(2)], l[4+c.Rng.Intn(3)]}
	}
	for _, x := range l {
		p := x.p.Compile()
		enc := tfhe.NewEncryptor(p)
		e := newPreset(c, x.n, p, enc)
		ev := tfhe.NewEvaluator(p, enc.GenEvalKeyParallel())
		if pbs {
			e.chain(ev, c.Pick(24, 120))
		} else {
			e.glwe(ev, enc.EncryptFFTGGSW, c.Pick(30, 120))
		}
	}
}

// glwe draws a program on polynomial messages; sparse ones keep it cheap to check.
func (e *preset[T]) sparse(k, bound int) ([][]int, []int) {
	N := e.p.PolyRank()
	v := make([]int, N)
	for i := 0; i < k; i++ {
		j := e.c.Rng.Intn(N)
		if i == 0 && e.c.Rng.Intn(2) == 0 {
			j = N - 1
		}
		v[j] = e.c.Rng.Intn(bound)
	}
	t := [][]int{}
	for j, x := range v {
		if x != 0 {
			t = append(t, []int{j, x})
		}
	}
	return t, v
}

func (e *preset[T]) gput(ct tfhe.GLWECiphertext[T], ev M) int {
	e.n++
	d := e.n
	e.g[d] = ct
	ev["d"], ev["r"] = d, e.enc.DecryptGLWE(ct)
	e.gm[d] = ev["r"].([]int)
	e.c.Emit(ev)
	return d
}

func (e *preset[T]) genc(dense bool) int {
	N, P := e.p.PolyRank(), int(e.p.MessageModulus())
	t, v := e.sparse(6, P)
	if dense {
		t = [][]int{}
		for i := range v {
			v[i] = e.c.Rng.Intn(P)
			t = append(t, []int{i, v[i]})
		}
	}
	if len(v) != N {
		panic("length")
	}
	var ct tfhe.GLWECiphertext[T]
	if e.pub != nil && e.c.Rng.Intn(2) == 0 {
		ct = e.pub.EncryptGLWE(v)
	} else {
		ct = e.enc.EncryptGLWE(v)
	}
	return e.gput(ct, M{"ev": "genc", "t": t})
}

func (e *preset[T]) glwe(ev *tfhe.Evaluator[T], ggsw func([]int, tfhe.GadgetParameters[T]) tfhe.FFTGGSWCiphertext[T], steps int) {
	r := e.c.Rng
	N, P := e.p.PolyRank(), int(e.p.MessageModulus())
	fresh := func() int { return e.genc(r.Intn(3) == 0) }
	for i := 0; i < steps; i++ {
		a := fresh()
		switch k := r.Intn(9); k {
		case 0:
			b := fresh()
			e.gput(ev.AddGLWE(e.g[a], e.g[b]), M{"ev": "gop", "op": "add", "a": a, "b": b})
		case 1:
			b := fresh()
			e.gput(ev.SubGLWE(e.g[a], e.g[b]), M{"ev": "gop", "op": "sub", "a": a, "b": b})
		case 2:
			k := r.Intn(8*N) - 4*N
			e.gput(ev.MonomialMulGLWE(e.g[a], k), M{"ev": "gop", "op": "mono", "a": a, "k": k})
		case 3:
			k := r.Intn(P)
			e.gput(ev.ScalarMulGLWE(e.g[a], T(k)), M{"ev": "gop", "op": "smul", "a": a, "k": k})
		case 4:
			t, v := e.sparse(4, P)
			q := poly.NewPoly[T](N)
			for i := range v {
				q.Coeffs[i] = T(v[i])
			}
			e.gput(ev.PolyMulGLWE(e.g[a], q), M{"ev": "gop", "op": "pmul", "a": a, "q": t})
		case 5, 6: // sample extraction; sometimes the default key switch and a bootstrap
			k := r.Intn(N)
			ct := e.g[a].AsLWECiphertext(k)
			var d int
			if len(ct.Value) == e.p.DefaultLWEDimension()+1 {
				d = e.put(ct)
			} else {
				d = e.put(ev.DefaultKeySwitch(ct))
			}
			e.c.Emit(M{"ev": "ext", "d": d, "a": a, "k": k, "m": e.enc.DecryptLWE(e.reg[d])})
		default:
			b := fresh()
			c := r.Intn(2)
			gp := e.p.BlindRotateParams()
			ctl := ggsw([]int{c}, gp)
			if k == 7 {
				e.gput(ev.CMux(ctl, e.g[a], e.g[b]), M{"ev": "gop", "op": "cmux", "a": a, "b": b, "k": c})
			} else {
				e.gput(ev.ExternalProdGLWE(ctl, e.g[a]), M{"ev": "gop", "op": "smul", "a": a, "k": c})
			}
		}
	}
}

// ---------------------------------------------------------------- gates

var gateNames = []string{"AND", "NAND", "OR", "NOR", "XOR", "XNOR"}

// gates draws a circuit; make encrypts a bit, dec decrypts one.
func gates[C any](c *Ctx, name string, ev any, mk func(bool) C, dec func(C) bool, steps int, par bool) {
	c.Next()
	c.Stats["preset:"+name]++
	c.Emit(M{"ev": "new", "name": name, "p": 2, "N": 0})
	reg := []C{}
	put := func(x C, e M) {
		reg = append(reg, x)
		e["d"], e["bit"] = len(reg), dec(x)
		c.Emit(e)
	}
	v := reflect.ValueOf(ev)
	for i := 0; i < 4; i++ {
		b := c.Rng.Intn(2) == 0
		put(mk(b), M{"ev": "bit", "m": b})
	}
	for i := 0; i < steps; i++ {
		a, b := c.Rng.Intn(len(reg)), c.Rng.Intn(len(reg))
		if c.Rng.Intn(6) == 0 {
			put(v.MethodByName("NOT").Call([]reflect.Value{reflect.ValueOf(reg[a])})[0].Interface().(C), M{"ev": "gate", "op": "NOT", "a": a + 1, "b": a + 1})
			continue
		}
		g := gateNames[(i+c.Rng.Intn(2))%len(gateNames)]
		m := g
		if par && c.Rng.Intn(2) == 0 {
			m += "Parallel"
		}
		args := []reflect.Value{reflect.ValueOf(reg[a]), reflect.ValueOf(reg[b])}
		var out C
		if c.Rng.Intn(3) == 0 {
			out = mk(true)
			v.MethodByName(m + "To").Call(append([]reflect.Value{reflect.ValueOf(out)}, args...))
		} else {
			out = v.MethodByName(m).Call(args)[0].Interface().(C)
		}
		put(out, M{"ev": "gate", "op": g, "a": a + 1, "b": b + 1})
	}
}

func runPreBin(c *Ctx) {
	type np struct {
		n string
		p tfhe.ParametersLiteral[uint32]
	}
	for _, x := range []np{{"Binary", tfhe.ParamsBinary}, {"BinaryCompact", tfhe.ParamsBinaryCompact}, {"BinaryOriginal", tfhe.ParamsBinaryOriginal}} {
		p := x.p.Compile()
		enc := tfhe.NewBinaryEncryptor(p)
		ev := tfhe.NewBinaryEvaluator(p, enc.GenEvalKeyParallel())
		mk := enc.EncryptLWEBool
		if p.IsPublicKeyEncryptable() {
			pub := tfhe.NewBinaryPublicEncryptor(p, enc.GenPublicKey())
			mk = func(b bool) tfhe.LWECiphertext[uint32] {
				if c.Rng.Intn(2) == 0 {
					return pub.EncryptLWEBool(b)
				}
				return enc.EncryptLWEBool(b)
			}
		}
		gates(c, x.n, ev, mk, enc.DecryptLWEBool, c.Pick(60, 400), false)
	}
}

func runPreMK(c *Ctx) {
	type np struct {
		n string
		p mktfhe.ParametersLiteral[uint64]
	}
	l := []np{{"BinaryParty2", mktfhe.ParamsBinaryParty2}, {"BinaryParty4", mktfhe.ParamsBinaryParty4}}
	if c.Thorough() {
		l = append(l, np{"BinaryParty8", mktfhe.ParamsBinaryParty8})
	}
	for _, x := range l {
		p := x.p.Compile()
		evk, sk := map[int]mktfhe.EvaluationKey[uint64]{}, map[int]tfhe.SecretKey[uint64]{}
		var encs []*mktfhe.BinaryEncryptor[uint64]
		var pubs []*mktfhe.BinaryPublicEncryptor[uint64]
		for i := 0; i < p.PartyCount(); i++ {
			e := mktfhe.NewBinaryEncryptor(p, i, []byte("preset"))
			encs = append(encs, e)
			if p.SubParams().IsPublicKeyEncryptable() {
				pubs = append(pubs, e.PublicEncryptor())
			}
			evk[i], sk[i] = e.GenEvalKeyParallel(), e.Encryptor.SecretKey
		}
		ev, dec := mktfhe.NewBinaryEvaluator(p, evk), mktfhe.NewBinaryDecryptor(p, sk)
		mk := func(b bool) mktfhe.LWECiphertext[uint64] {
			i := c.Rng.Intn(len(encs))
			if len(pubs) > 0 && c.Rng.Intn(3) == 0 {
				return pubs[i].EncryptLWEBool(b)
			}
			return encs[i].EncryptLWEBool(b)
		}
		gates(c, x.n, ev, mk, dec.DecryptLWEBool, c.Pick(24, 120), true)
	}
}

// ---------------------------------------------------------------- extension schemes

func preMany[T tfhe.TorusInt](c *Ctx, name string, lit xtfhe.ManyLUTParametersLiteral[T]) {
	p := lit.Compile()
	enc := tfhe.NewEncryptor(p.BaseParams())
	e := newPreset(c, name, p.BaseParams(), enc)
	ev := xtfhe.NewManyLUTEvaluator(p, enc.GenEvalKeyParallel())
	live := []int{e.encrypt(true), e.encrypt(false)}
	for i := 0; i < c.Pick(10, 50); i++ {
		a := live[c.Rng.Intn(len(live))]
		if c.Rng.Intn(3) == 0 {
			a = e.encrypt(true)
		}
		var fs []func(int) int
		var tabs [][]int
		for j := 0; j < 1+c.Rng.Intn(p.LUTCount()); j++ {
			t := e.table()
			tabs = append(tabs, t)
			fs = append(fs, func(x int) int { return t[x] })
		}
		out := ev.BootstrapFunc(e.reg[a], fs)
		ds, ph := []int{}, []int{}
		for j := range tabs {
			d := e.put(out[j])
			ds, ph = append(ds, d), append(ph, e.phase(out[j]))
			live = append(live, d)
		}
		c.Emit(M{"ev": "many", "ds": ds, "a": a, "fs": tabs, "phs": ph})
	}
}

func runPreMany(c *Ctx) {
	preMany(c, "BinaryLUT2", xtfhe.ParamsBinaryLUT2)
	preMany(c, "BinaryCompactLUT2", xtfhe.ParamsBinaryCompactLUT2)
	preMany(c, "Uint2LUT4", xtfhe.ParamsUint2LUT4)
	preMany(c, "Uint3LUT2", xtfhe.ParamsUint3LUT2)
}

func runPreFHEW(c *Ctx) {
	p := xtfhe.ParamsFHEWBinary.Compile()
	enc := xtfhe.NewFHEWEncryptor(p)
	e := newPreset(c, "FHEWBinary", p.BaseParams(), enc.Encryptor)
	for _, par := range []bool{false, true} {
		evk := enc.GenEvalKeyParallel()
		if !par {
			evk = enc.GenEvalKey()
		}
		e.chain(xtfhe.NewFHEWEvaluator(p, evk), c.Pick(10, 60))
	}
}

func runPreSan(c *Ctx) {
	p := xtfhe.ParamsSanitizeBinary.Compile()
	enc := tfhe.NewEncryptor(p.BaseParams())
	e := newPreset(c, "SanitizeBinary", p.BaseParams(), enc)
	s := xtfhe.NewSanitizer(p, enc.GenPublicKey(), enc.GenEvalKeyParallel())
	a := e.encrypt(false)
	for i := 0; i < c.Pick(5, 40); i++ {
		f := e.table()
		fn := func(x int) int { return f[x] }
		var out tfhe.LWECiphertext[uint64]
		if c.Rng.Intn(2) == 0 {
			out = s.SanitizeFunc(e.reg[a], fn)
		} else {
			out = e.reg[a].Copy()
			s.SanitizeFuncTo(out, out, fn)
		}
		d := e.put(out)
		c.Emit(M{"ev": "pbs", "d": d, "a": a, "f": f, "form": 9, "ph": e.phase(out)})
		if a = d; c.Rng.Intn(3) == 0 {
			a = e.encrypt(true)
		}
	}
}

func runPreCB(c *Ctx) {
	for name, lit := range map[string]xtfhe.CircuitBootstrapParametersLiteral[uint64]{"CircuitBootstrapMedium": xtfhe.ParamsCircuitBootstrapMedium, "CircuitBootstrapLarge": xtfhe.ParamsCircuitBootstrapLarge} {
		if !c.Thorough() && (name == "CircuitBootstrapLarge") != (c.Seed%2 == 0) {
			continue
		}
		p := lit.Compile()
		enc := tfhe.NewEncryptor(p.BaseParams())
		e := newPreset(c, name, p.BaseParams(), enc)
		cb := xtfhe.NewCircuitBootstrapper(p, enc.GenEvalKeyParallel(), xtfhe.NewCircuitBootstrapKeyGenerator(p, enc.SecretKey).GenCircuitBootstrapKey())
		out := tfhe.NewFFTGGSWCiphertext(p.BaseParams(), p.OutputParams())
		for i := 0; i < c.Pick(5, 30); i++ {
			a := e.encrypt(false)
			if c.Rng.Intn(2) == 0 {
				out = cb.CircuitBootstrap(e.reg[a])
			} else {
				cb.CircuitBootstrapTo(out, e.reg[a])
			}
			x, y := e.genc(true), e.genc(false)
			if c.Rng.Intn(2) == 0 {
				e.gput(cb.ManyLUTEvaluator.CMux(out, e.g[x], e.g[y]), M{"ev": "gop", "op": "cmuxr", "a": x, "b": y, "k": a})
			} else {
				e.gput(cb.ManyLUTEvaluator.ExternalProdGLWE(out, e.g[x]), M{"ev": "gop", "op": "smulr", "a": x, "b": y, "k": a})
			}
		}
	}
}

func runPreBFV(c *Ctx) {
	p := tfhe.ParamsUint3.Compile()
	gp := xtfhe.ParamsBFVKeySwitchLogN11.Compile()
	enc := tfhe.NewEncryptor(p)
	e := newPreset(c, "BFVUint3", p, enc)
	kg := xtfhe.NewBFVKeyGenerator(p, enc.SecretKey)
	N := p.PolyRank()
	gal := kg.GenGaloisKeysForPack(gp)
	idx := []int{3, -1, 2*N - 3, 5 + 2*N}
	kg.GenGaloisKeysTo(gal, idx, gp)
	for k := range gal {
		idx = append(idx, k)
	}
	ev := xtfhe.NewBFVEvaluator(p, xtfhe.BFVEvaluationKey[uint64]{RelinKey: kg.GenRelinKey(gp), GaloisKeys: gal})
	r := c.Rng
	for i := 0; i < c.Pick(24, 120); i++ {
		switch r.Intn(4) {
		case 0:
			a, b := e.genc(false), e.genc(false)
			e.gput(ev.Mul(e.g[a], e.g[b]), M{"ev": "gop", "op": "mul", "a": a, "b": b})
		case 1:
			a, b := e.genc(false), e.genc(false)
			t := ev.Tensor(e.g[a], e.g[b])
			e.gput(ev.Relinearize(t), M{"ev": "gop", "op": "mul", "a": a, "b": b})
		case 2:
			a := e.genc(true)
			d := idx[r.Intn(len(idx))]
			e.gput(ev.Permute(e.g[a], d), M{"ev": "gop", "op": "perm", "a": a, "k": d})
		default:
			a := e.encrypt(false)
			e.gput(ev.Pack(e.reg[a]), M{"ev": "gop", "op": "pack", "a": a})
		}
	}
}

func init() {
	drivers["preuint"] = func(c *Ctx) { runPreUint(c, true) }
	drivers["preglwe"] = func(c *Ctx) { runPreUint(c, false) }
	drivers["prebin"] = runPreBin
	drivers["premk"] = runPreMK
	drivers["premany"] = runPreMany
	drivers["prefhew"] = runPreFHEW
	drivers["presan"] = runPreSan
	drivers["precb"] = runPreCB
	drivers["prebfv"] = runPreBFV
}
