package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// ---------------------------------------------------------------- objects with scratch memory and their safe copies
//
// Every deterministic method of an object is a function of its arguments.  A call is first recorded on a brand-new
// object, then made on a used object and its copies, concurrently; ConcTrace.tla requires equal results.

// concType is a type under test.
type concType struct {
	name string
	mk   func() any             // a brand-new object (same keys)
	only func(name string) bool // methods to call
}

type concArgs[T tfhe.TorusInt] struct {
	r  *rand.Rand
	p  tfhe.Parameters[T]
	mp mktfhe.Parameters[T]
	gp tfhe.GadgetParameters[T]
	N  int

	luts int
}

func (a *concArgs[T]) poly() poly.Poly[T] {
	p := poly.NewPoly[T](a.N)
	for i := range p.Coeffs {
		p.Coeffs[i] = T(a.r.Uint64())
	}
	return p
}

func (a *concArgs[T]) fft() poly.FFTPoly {
	p := poly.NewFFTPoly(a.N)
	for i := range p.Coeffs {
		p.Coeffs[i] = float64(a.r.Intn(1<<20) - 1<<19)
	}
	return p
}

// arg makes argument i, of type t, of the named method, or reports that it cannot.
func (a *concArgs[T]) arg(m string, i int, t reflect.Type) (any, bool) {
	var v any
	switch t {
	case reflect.TypeOf(T(0)):
		if strings.HasPrefix(m, "GenLUT") { // a modulus or a scale
			return T(1 + a.r.Intn(int(a.p.MessageModulus()))), true
		}
		return T(a.r.Uint64()), true
	case reflect.TypeOf(0):
		if i == 0 && (strings.HasPrefix(m, "HybridProd") || strings.HasPrefix(m, "ExternalProd")) {
			return a.r.Intn(a.mp.PartyCount()), true
		}
		if strings.HasPrefix(m, "Permute") {
			return 2*a.r.Intn(a.N) + 1, true
		}
		return a.r.Intn(a.N), true
	case reflect.TypeOf(0.0):
		return float64(a.r.Intn(1000)) / 8, true
	case reflect.TypeOf(1i):
		return complex(float64(a.r.Intn(1000))/8, float64(a.r.Intn(1000))/16), true
	case reflect.TypeOf(false):
		return a.r.Intn(2) == 0, true
	case reflect.TypeOf(a.gp):
		return a.gp, true
	case reflect.TypeOf(poly.Poly[T]{}):
		return a.poly(), true
	case reflect.TypeOf(poly.FFTPoly{}):
		return a.fft(), true
	case reflect.TypeOf([]T{}):
		return a.poly().Coeffs[:a.gp.Level()], true
	case reflect.TypeOf([]int{}):
		x := make([]int, a.N)
		for i := range x {
			x[i] = a.r.Intn(int(a.p.MessageModulus()))
		}
		return x, true
	case reflect.TypeOf([]poly.Poly[T]{}):
		x := []poly.Poly[T]{}
		for i := 0; i < a.gp.Level(); i++ {
			x = append(x, a.poly())
		}
		return x, true
	case reflect.TypeOf([]poly.FFTPoly{}):
		x := []poly.FFTPoly{}
		for i := 0; i < a.gp.Level(); i++ {
			x = append(x, a.fft())
		}
		return x, true
	case reflect.TypeOf(tfhe.LWEPlaintext[T]{}):
		return tfhe.LWEPlaintext[T]{Value: T(a.r.Uint64())}, true
	case reflect.TypeOf(tfhe.GLWEPlaintext[T]{}):
		return tfhe.GLWEPlaintext[T]{Value: a.poly()}, true
	case reflect.TypeOf(func(int) int { return 0 }):
		k := a.r.Intn(9)
		return func(x int) int { return x*x + k }, true
	case reflect.TypeOf(func(int) T { return 0 }):
		k := a.r.Intn(9)
		return func(x int) T { return T(x*x + k) }, true
	case reflect.TypeOf([]func(int) int{}):
		r := []func(int) int{}
		for j := 0; j < a.luts; j++ {
			k := a.r.Intn(9)
			r = append(r, func(x int) int { return x*x + k })
		}
		return r, true
	case reflect.TypeOf([]func(int) T{}):
		r := []func(int) T{}
		for j := 0; j < a.luts; j++ {
			k := T(a.r.Uint64())
			r = append(r, func(x int) T { return T(x*x) + k })
		}
		return r, true
	case reflect.TypeOf([]tfhe.LWECiphertext[T]{}):
		r := []tfhe.LWECiphertext[T]{}
		for j := 0; j < a.luts; j++ {
			r = append(r, tfhe.NewLWECiphertext(a.p))
		}
		a.fill(reflect.ValueOf(r))
		return r, true
	case reflect.TypeOf(tfhe.LWEKeySwitchKey[T]{}):
		v = tfhe.NewLWEKeySwitchKey(a.p, a.p.DefaultLWEDimension(), a.gp)
	case reflect.TypeOf(tfhe.GLWEKeySwitchKey[T]{}):
		v = tfhe.NewGLWEKeySwitchKey(a.p, a.p.GLWERank(), a.gp)
	case reflect.TypeOf(tfhe.LookUpTable[T]{}):
		v = tfhe.NewLUT(a.p)
	case reflect.TypeOf(tfhe.LWECiphertext[T]{}):
		v = tfhe.NewLWECiphertext(a.p)
	case reflect.TypeOf(tfhe.LevCiphertext[T]{}):
		v = tfhe.NewLevCiphertext(a.p, a.gp)
	case reflect.TypeOf(tfhe.GSWCiphertext[T]{}):
		v = tfhe.NewGSWCiphertext(a.p, a.gp)
	case reflect.TypeOf(tfhe.GLWECiphertext[T]{}):
		v = tfhe.NewGLWECiphertext(a.p)
		if k := a.p.GLWERank(); strings.HasPrefix(m, "Tensor") && i == 0 || m == "Relinearize" || m == "RelinearizeTo" && i == 1 {
			v = tfhe.NewGLWECiphertextCustom[T](k*(k+3)/2, a.N)
		}
	case reflect.TypeOf(tfhe.GLevCiphertext[T]{}):
		v = tfhe.NewGLevCiphertext(a.p, a.gp)
	case reflect.TypeOf(tfhe.GGSWCiphertext[T]{}):
		v = tfhe.NewGGSWCiphertext(a.p, a.gp)
	case reflect.TypeOf(tfhe.FFTGLWECiphertext[T]{}):
		v = tfhe.NewFFTGLWECiphertext(a.p)
	case reflect.TypeOf(tfhe.FFTGLevCiphertext[T]{}):
		v = tfhe.NewFFTGLevCiphertext(a.p, a.gp)
	case reflect.TypeOf(tfhe.FFTGGSWCiphertext[T]{}):
		v = tfhe.NewFFTGGSWCiphertext(a.p, a.gp)
	case reflect.TypeOf(tfhe.GLWESecretKey[T]{}):
		v = tfhe.NewGLWESecretKey(a.p)
	case reflect.TypeOf(tfhe.FFTGLWESecretKey[T]{}):
		v = tfhe.NewFFTGLWESecretKey(a.p)
	case reflect.TypeOf(mktfhe.LWECiphertext[T]{}):
		v = mktfhe.NewLWECiphertext(a.mp)
	case reflect.TypeOf(mktfhe.GLWECiphertext[T]{}):
		v = mktfhe.NewGLWECiphertext(a.mp)
	case reflect.TypeOf(mktfhe.FFTGLWECiphertext[T]{}):
		v = mktfhe.NewFFTGLWECiphertext(a.mp)
	case reflect.TypeOf(mktfhe.UniEncryption[T]{}):
		v = mktfhe.NewUniEncryption(a.mp, a.gp)
	case reflect.TypeOf(mktfhe.FFTUniEncryption[T]{}):
		v = mktfhe.NewFFTUniEncryption(a.mp, a.gp)
	default:
		return nil, false
	}
	a.fill(reflect.ValueOf(v))
	return v, true
}

// fill puts arbitrary contents into every coefficient.
func (a *concArgs[T]) fill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(a.gp) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				a.fill(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			a.fill(v.Index(i))
		}
	case reflect.Uint32, reflect.Uint64:
		v.SetUint(a.r.Uint64() >> (64 - uint(v.Type().Bits())))
	case reflect.Float64:
		v.SetFloat(float64(a.r.Intn(1<<20) - 1<<19))
	}
}

// concCall is a call: the arguments are made anew, from the seed, every time it is performed.
type concCall struct {
	m    string
	seed int64
}

// concSkip: constructors of copies, randomized methods, registrations and accessors of scratch memory.
func concSkip(n string) bool {
	for _, s := range []string{"SafeCopy", "Encrypt", "Sample", "PublicEncryptor", "AddSecretKey", "AddEvaluationKey", "Sanitize", "ReRand"} {
		if strings.HasPrefix(n, s) {
			return true
		}
	}
	return strings.Contains(n, "Buffer") || strings.HasPrefix(n, "Gen") && !strings.HasPrefix(n, "GenLUT")
}

// callRes is the outcome of a call: everything (arguments afterwards and results), the destination alone, and which arguments changed.
type callRes struct {
	st  string
	res int
	out int
	ch  []int
}

func formOf(m string) string {
	switch {
	case strings.HasSuffix(m, "Unsafe"):
		return "Unsafe"
	case strings.HasSuffix(m, "To"):
		return "To"
	case strings.HasSuffix(m, "InPlace"):
		return "InPlace"
	}
	return "New"
}

// perform makes the arguments of the call from its seed and calls the method. alias >= 0 makes that argument the destination
// itself; ref makes the destination a copy of that argument instead.
func (a concArgs[T]) perform(c *Ctx, obj any, call concCall, alias int, ref bool) (r callRes, ok bool) {
	a.r = rand.New(rand.NewSource(call.seed))
	m := reflect.ValueOf(obj).MethodByName(call.m)
	var args []reflect.Value
	var keep []any
	t := m.Type()
	pos := destPos(call.m, t)
	for i := 0; i < t.NumIn(); i++ {
		x, ok := a.arg(call.m, i, t.In(i))
		if !ok {
			return r, false
		}
		args = append(args, reflect.ValueOf(x))
		keep = append(keep, x)
	}
	if alias >= 0 {
		if ref {
			keep[pos] = deepCopy(keep[alias])
		} else {
			keep[pos] = keep[alias]
		}
		args[pos] = reflect.ValueOf(keep[pos])
	}
	var fp []int
	for _, x := range keep {
		fp = append(fp, c.FP(x))
	}
	r.ch = []int{}
	r.st, _ = Try(func() {
		for _, v := range m.Call(args) {
			keep = append(keep, v.Interface())
		}
	})
	for i := range fp {
		if c.FP(keep[i]) != fp[i] {
			r.ch = append(r.ch, i)
		}
	}
	if r.st == "ok" {
		r.res = c.FP(keep...)
		if len(args) > 0 {
			r.out = c.FP(keep[pos])
		}
	}
	return r, true
}

func (a concArgs[T]) methods(c *Ctx, ct concType) (ms []string) {
	typ := reflect.TypeOf(ct.mk())
	for i := 0; i < typ.NumMethod(); i++ {
		n := typ.Method(i).Name
		if concSkip(n) || (ct.only != nil && !ct.only(n)) {
			continue
		}
		if _, ok := a.perform(c, ct.mk(), concCall{n, 1}, -1, false); ok {
			ms = append(ms, n)
		} else {
			c.Stats["skip:"+ct.name+"."+n]++
		}
	}
	return
}

func (r callRes) event(ev string, id int, ct concType, m string, pos int) M {
	return M{"ev": ev, "type": ct.name, "call": id, "m": m, "form": formOf(m), "pos": pos, "st": r.st, "res": r.res, "out": r.out, "ch": r.ch}
}

// destPos is the position of the destination of a method that has one.
func destPos(m string, t reflect.Type) int {
	if strings.HasPrefix(m, "Decrypt") { // (out, ct) or (ct, out): the destination is the one that is no ciphertext
		for i := 0; i < t.NumIn(); i++ {
			if !strings.Contains(t.In(i).Name(), "Ciphertext") {
				return i
			}
		}
	}
	return outPosOf(t, nil)
}

func (a concArgs[T]) posOf(ct concType, m string) int {
	return destPos(m, reflect.ValueOf(ct.mk()).MethodByName(m).Type())
}

func concOne[T tfhe.TorusInt](c *Ctx, a concArgs[T], ct concType, mode string, rounds, calls int) {
	ms := a.methods(c, ct)
	c.Stats["methods:"+ct.name] += len(ms)
	switch mode {
	case "conc":
		concPar(c, a, ct, ms, rounds, calls)
	case "hist":
		// one long-lived object, every method after every kind of other calls
		for r := 0; r < rounds; r++ {
			c.Emit(M{"ev": "new", "type": ct.name})
			obj := ct.mk()
			id := 0
			for k := 0; k < calls || k < len(ms); k++ {
				m := ms[c.Rng.Intn(len(ms))]
				id++
				call := concCall{m, c.Rng.Int63()}
				x, _ := a.perform(c, ct.mk(), call, -1, false)
				c.Emit(x.event("ref", id, ct, m, a.posOf(ct, m)))
				y, _ := a.perform(c, obj, call, -1, false)
				c.Emit(y.event("call", id, ct, m, a.posOf(ct, m)))
			}
			c.Next()
		}
	case "overlap":
		for r := 0; r < rounds; r++ {
			c.Emit(M{"ev": "new", "type": ct.name})
			obj := ct.mk()
			id := 0
			for _, m := range ms {
				f := formOf(m)
				if f != "To" && f != "Unsafe" {
					continue
				}
				t := reflect.ValueOf(obj).MethodByName(m).Type()
				pos := destPos(m, t)
				for i := 0; i < t.NumIn(); i++ {
					if i == pos || t.In(i) != t.In(pos) {
						continue
					}
					id++
					call := concCall{m, c.Rng.Int63()}
					x, _ := a.perform(c, ct.mk(), call, i, true)
					c.Emit(x.event("ref", id, ct, m, pos))
					y, _ := a.perform(c, obj, call, i, false)
					c.Emit(y.event("overlap", id, ct, m, pos))
				}
			}
			c.Next()
		}
	}
}

// ownMethods are those of the methods that are not promoted from embedded fields.
func ownMethods(o any, ms []string) (own []string) {
	for _, n := range ms {
		m, _ := reflect.TypeOf(o).MethodByName(n)
		f := runtime.FuncForPC(m.Func.Pointer())
		if file, _ := f.FileLine(f.Entry()); !strings.Contains(file, "autogenerated") {
			own = append(own, n)
		}
	}
	return
}

func concPar[T tfhe.TorusInt](c *Ctx, a concArgs[T], ct concType, ms []string, rounds, calls int) {
	const W = 4
	id := 0
	for r := 0; r < rounds; r++ {
		c.Emit(M{"ev": "new", "type": ct.name})
		objs := []any{ct.mk()}
		for i := 0; i < 5; i++ { // a history before the copies are made
			a.perform(c, objs[0], concCall{ms[c.Rng.Intn(len(ms))], c.Rng.Int63()}, -1, false)
		}
		for w := 1; w < W; w++ {
			o := reflect.ValueOf(objs[c.Rng.Intn(w)]).MethodByName("SafeCopy").Call(nil)[0].Interface()
			objs = append(objs, o)
		}
		type rec struct {
			id int
			callRes
		}
		todo, got := make([][]int, W), make([][]rec, W)
		all := map[int]concCall{}
		for w := 0; w < W; w++ {
			for i := 0; i < calls; i++ {
				if w > 0 && c.Rng.Intn(3) == 0 { // the same call as another one
					todo[w] = append(todo[w], todo[0][c.Rng.Intn(len(todo[0]))])
					continue
				}
				id++
				all[id] = concCall{ms[c.Rng.Intn(len(ms))], c.Rng.Int63()}
				todo[w] = append(todo[w], id)
			}
		}
		// every method declared by the type itself is called on several objects at about the same time
		own := ownMethods(objs[0], ms)
		c.Rng.Shuffle(len(own), func(i, j int) { own[i], own[j] = own[j], own[i] })
		for _, m := range own {
			ws := c.Rng.Perm(W)[:2]
			if len(own) <= 8 {
				ws = c.Rng.Perm(W)
			}
			for _, w := range ws {
				id++
				all[id] = concCall{m, c.Rng.Int63()}
				todo[w] = append(todo[w], id)
			}
		}
		var wg sync.WaitGroup
		start := make(chan bool)
		for w := range objs {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				for _, i := range todo[w] {
					x, _ := a.perform(c, objs[w], all[i], -1, false)
					got[w] = append(got[w], rec{i, x})
				}
			}(w)
		}
		close(start)
		wg.Wait()
		for w := range got {
			for _, g := range got[w] {
				m := all[g.id].m
				x, _ := a.perform(c, ct.mk(), all[g.id], -1, false)
				c.Emit(x.event("ref", g.id, ct, m, a.posOf(ct, m)))
				c.Emit(g.callRes.event("call", g.id, ct, m, a.posOf(ct, m)))
			}
		}
		c.Next()
	}
}

func concRun[T tfhe.TorusInt](c *Ctx, mode string) {
	for si, sh := range kgShapes(logQ[T]())[:2] {
		p := literal[T](sh).Compile()
		mp := mkLiteral[T](logQ[T](), 1+c.Rng.Intn(3)).Compile()
		gl := tfhe.GadgetParametersLiteral[T]{Base: 1 << uint(2+c.Rng.Intn(4)), Level: 2 + c.Rng.Intn(3)}
		gp := gl.Compile()
		a := concArgs[T]{p: p, mp: mp, gp: gp, N: p.PolyRank(), luts: 1 << c.Rng.Intn(3)}
		am := a
		am.p, am.N = mp.SubParams(), mp.PolyRank()
		enc := tfhe.NewEncryptor(p)
		sk := enc.SecretKey
		evk := enc.GenEvalKey()
		msk, mevk := map[int]tfhe.SecretKey[T]{}, map[int]mktfhe.EvaluationKey[T]{}
		for i := 0; i < mp.PartyCount(); i++ {
			e := mktfhe.NewEncryptor(mp, i, []byte("crs"))
			msk[i], mevk[i] = e.SecretKey, e.GenEvalKey()
		}
		mlp := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: literal[T](sh), LUTCount: a.luts}
		cp := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: mlp, SchemeSwitchParams: gl, TraceKeySwitchParams: gl, OutputParams: gl}.Compile()
		cbk := xtfhe.NewCircuitBootstrapKeyGenerator(cp, sk).GenCircuitBootstrapKey()
		bkg := xtfhe.NewBFVKeyGenerator(p, sk)
		bevk := xtfhe.BFVEvaluationKey[T]{RelinKey: bkg.GenRelinKey(gp), GaloisKeys: map[int]tfhe.GLWEKeySwitchKey[T]{}}
		odds := []int{}
		for d := 1; d <= a.N+1; d += 2 {
			odds = append(odds, d)
		}
		bkg.GenGaloisKeysTo(bevk.GaloisKeys, odds, gp)
		fp := fhewLiteral[T](si).Compile()
		fenc := xtfhe.NewFHEWEncryptor(fp)
		fevk := fenc.GenEvalKey()
		af := a
		af.p, af.N = fp.BaseParams(), fp.BaseParams().PolyRank()
		// encryptors are randomized; their decryption methods are not
		dec := func(n string) bool {
			return strings.HasPrefix(n, "Decrypt") || strings.HasPrefix(n, "Encode") || strings.HasPrefix(n, "Decode")
		}
		tag := fmt.Sprintf("%d", logQ[T]())
		rd, cl := c.Pick(1, 8), c.Pick(20, 40)
		one := func(a concArgs[T], n string, mk func() any, only func(string) bool, k int) {
			concOne(c, a, concType{n + tag, mk, only}, mode, rd, k*cl)
		}
		one(a, "poly.Evaluator", func() any { return poly.NewEvaluator[T](a.N) }, nil, 3)
		one(a, "Decomposer", func() any { return tfhe.NewDecomposer[T](a.N) }, nil, 1)
		one(a, "GLWETransformer", func() any { return tfhe.NewGLWETransformer[T](a.N) }, nil, 1)
		one(a, "Evaluator", func() any { return tfhe.NewEvaluator(p, evk) }, nil, 5)
		one(a, "BinaryEvaluator", func() any { return tfhe.NewBinaryEvaluator(p, evk) }, nil, 1)
		one(a, "Encryptor", func() any { return tfhe.NewEncryptorWithKey(p, sk) }, dec, 1)
		one(a, "BinaryEncryptor", func() any { return tfhe.NewBinaryEncryptorWithKey(p, sk) }, dec, 1)
		one(am, "mk.GLWETransformer", func() any { return mktfhe.NewGLWETransformer[T](am.N) }, nil, 1)
		one(am, "mk.Decryptor", func() any { return mktfhe.NewDecryptor(mp, msk) }, nil, 1)
		one(am, "mk.BinaryDecryptor", func() any { return mktfhe.NewBinaryDecryptor(mp, msk) }, nil, 1)
		one(am, "mk.Encryptor", func() any { return mktfhe.NewEncryptorWithKey(mp, 0, []byte("crs"), msk[0]) }, dec, 1)
		one(am, "mk.Evaluator", func() any { return mktfhe.NewEvaluator(mp, mevk) }, nil, 5)
		one(am, "mk.BinaryEvaluator", func() any { return mktfhe.NewBinaryEvaluator(mp, mevk) }, nil, 1)
		one(a, "BFVEvaluator", func() any { return xtfhe.NewBFVEvaluator(p, bevk) }, nil, 2)
		one(a, "ManyLUTEvaluator", func() any { return xtfhe.NewManyLUTEvaluator(mlp.Compile(), evk) }, nil, 2)
		one(a, "CircuitBootstrapper", func() any { return xtfhe.NewCircuitBootstrapper(cp, evk, cbk) }, nil, 2)
		one(af, "FHEWEvaluator", func() any { return xtfhe.NewFHEWEvaluator(fp, fevk) }, nil, 2)
		one(af, "FHEWEncryptor", func() any { return xtfhe.NewFHEWEncryptorWithKey(fp, fenc.SecretKey) }, dec, 1)
		if p.IsPublicKeyEncryptable() && a.p.GLWERank() == 1 {
			q := math.Exp2(float64(p.LogQ()))
			sp := xtfhe.SanitizationParametersLiteral[T]{BaseParams: literal[T](sh), RandSigma: 2 / q, RandTau: 2 / q, LinEvalSigma: 2 / q, LinEvalTau: 2 / q}.Compile()
			spk := enc.GenPublicKey()
			one(a, "Sanitizer", func() any { return xtfhe.NewSanitizer(sp, spk, evk) }, nil, 1)
		}
	}
}

func init() {
	for _, mode := range []string{"conc", "hist", "overlap"} {
		mode := mode
		drivers[mode] = func(c *Ctx) {
			concRun[uint64](c, mode)
			concRun[uint32](c, mode)
		}
	}
	drivers["conckg"] = func(c *Ctx) {
		for r := 0; r < c.Pick(1, 4); r++ {
			for _, s := range kgShapes(64) {
				concKeys[uint64](c, s)
			}
			for _, s := range kgShapes(32) {
				concKeys[uint32](c, s)
			}
		}
	}
}

// concKeys generates keys concurrently on key generators and their copies; KeyTrace.tla decides every row.
func concKeys[T tfhe.TorusInt](c *Ctx, sh Shape) {
	c.Balance()
	s := &kgSys[T]{c: c, trf: tfhe.NewGLWETransformer[T](sh.N)}
	p := literal[T](sh).Compile()
	g := tfhe.GadgetParametersLiteral[T]{Base: T(1) << (1 + c.Rng.Intn(5)), Level: 1 + c.Rng.Intn(4)}.Compile()
	lit := tfhe.GadgetParametersLiteral[T]{Base: g.Base(), Level: g.Level()}
	cp := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: xtfhe.ManyLUTParametersLiteral[T]{BaseParams: literal[T](sh), LUTCount: 2},
		SchemeSwitchParams: lit, TraceKeySwitchParams: lit, OutputParams: lit}.Compile()
	enc := newEncryptor(p, "ckg"+sh.Name, c.Seed)
	gk, lk := polysOf(enc.SecretKey.GLWEKey.Value), enc.SecretKey.LWEKey.Value
	rest := enc.SecretKey.LWELargeKey.Value[p.LWEDimension():]
	before := Fingerprint(enc.SecretKey, enc.Params)
	same := func() bool { return Fingerprint(enc.SecretKey, enc.Params) == before }
	kg := xtfhe.NewBFVKeyGenerator(p, enc.SecretKey)
	ckg := xtfhe.NewCircuitBootstrapKeyGenerator(cp, enc.SecretKey)
	const W = 3
	encs, kgs, ckgs := []*tfhe.Encryptor[T]{enc}, []*xtfhe.BFVKeyGenerator[T]{kg}, []*xtfhe.CircuitBootstrapKeyGenerator[T]{ckg}
	for w := 1; w < W; w++ {
		f := c.Rng.Intn(w)
		encs, kgs, ckgs = append(encs, encs[f].SafeCopy()), append(kgs, kgs[f].SafeCopy()), append(ckgs, ckgs[f].SafeCopy())
	}
	evks, rels, gals, cbks := make([]tfhe.EvaluationKey[T], W), make([]tfhe.GLWEKeySwitchKey[T], W), make([]map[int]tfhe.GLWEKeySwitchKey[T], W), make([]xtfhe.CircuitBootstrapKey[T], W)
	idx := []int{3, 2*sh.N - 1, 2*c.Rng.Intn(sh.N) + 1}
	var wg sync.WaitGroup
	start := make(chan bool)
	do := func(f func()) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	for w := 0; w < W; w++ {
		w := w
		do(func() {
			if w%2 == 0 {
				evks[w] = encs[w].GenEvalKey()
			} else {
				evks[w] = encs[w].GenEvalKeyParallel()
			}
		})
		do(func() {
			rels[w] = kgs[w].GenRelinKey(g)
			gals[w] = kgs[w].GenGaloisKeys(idx, g)
			kgs[w].GenGaloisKeysForPackTo(gals[w], g)
		})
		do(func() { cbks[w] = ckgs[w].GenCircuitBootstrapKey() })
	}
	close(start)
	wg.Wait()
	rel := make([][]T, 0)
	for i := range gk {
		for j := i; j < len(gk); j++ {
			o := make([]T, sh.N)
			addMulNega(o, gk[i], gk[j])
			rel = append(rel, o)
		}
	}
	gal := func(m map[int]tfhe.GLWEKeySwitchKey[T], how string) {
		for dd, k := range m {
			pg := make([][]T, len(gk))
			for i := range gk {
				pg[i] = permuteRef(gk[i], dd)
			}
			s.gksk(k, p.LogQ(), pg, gk, p.GLWEStdDevQ(), how, same())
		}
	}
	for w := 0; w < W; w++ {
		s.brk(evks[w].BlindRotateKey, p, lk, gk, "brk", "concurrent", same())
		s.lksk(evks[w].KeySwitchKey, p.LogQ(), rest, lk, p.LWEStdDevQ(), "concurrent", same())
		s.gksk(rels[w], p.LogQ(), rel, gk, p.GLWEStdDevQ(), "concurrent GenRelinKey", same())
		gal(gals[w], "concurrent GenGaloisKeys")
		gal(cbks[w].TraceKeys, "trace keys")
		s.ggsw(cbks[w].SchemeSwitchKey, p, gk, "scheme-switch keys", same())
	}
}

// ggsw: GGSW ciphertexts encrypting the key polynomials.
func (s *kgSys[T]) ggsw(v []tfhe.FFTGGSWCiphertext[T], p tfhe.Parameters[T], glwe [][]T, how string, same bool) {
	g := v[0].GadgetParams
	s.open("ggsw", how, p.LogQ(), g.LogBase(), g.Level(), len(glwe), p.GLWERank(), p.PolyRank(), lsOf(p.GLWEStdDevQ()), len(v), nil, glwe, same)
	for i := range v {
		for j := range v[i].Value {
			for k := range v[i].Value[j].Value {
				ct := s.trf.InvFFTGLWECiphertext(v[i].Value[j].Value[k])
				s.c.Emit(M{"ev": "row", "i": i, "j": j, "k": k, "w": words(PhaseGLWE(ct.Value, glwe))})
			}
		}
	}
	s.c.Emit(M{"ev": "keyclose"})
}
