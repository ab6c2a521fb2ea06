package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// edRow is a row of a ciphertext: key component j, gadget level i, exact phase.
type edRow[T tfhe.TorusInt] struct {
	J, I int
	Ph   []T
}

type edSys[T tfhe.TorusInt] struct {
	c     *Ctx
	s     Shape
	p     tfhe.Parameters[T]
	enc   *tfhe.Encryptor[T]
	pub   *tfhe.PublicEncryptor[T]
	trf   *tfhe.GLWETransformer[T]
	lk    []T
	gk    [][]T
	light bool // real parameters: no gadget forms
}

func (s *edSys[T]) rows(ct any) (r []edRow[T]) {
	lwe := func(j, i int, x tfhe.LWECiphertext[T]) { r = append(r, edRow[T]{j, i, []T{PhaseLWE(x.Value, s.lk)}}) }
	glwe := func(j, i int, x tfhe.GLWECiphertext[T]) { r = append(r, edRow[T]{j, i, PhaseGLWE(x.Value, s.gk)}) }
	fglwe := func(j, i int, x tfhe.FFTGLWECiphertext[T]) { glwe(j, i, s.trf.InvFFTGLWECiphertext(x)) }
	switch x := ct.(type) {
	case tfhe.LWECiphertext[T]:
		lwe(0, 0, x)
	case tfhe.LevCiphertext[T]:
		for i := range x.Value {
			lwe(0, i, x.Value[i])
		}
	case tfhe.GSWCiphertext[T]:
		for j := range x.Value {
			for i := range x.Value[j].Value {
				lwe(j, i, x.Value[j].Value[i])
			}
		}
	case tfhe.GLWECiphertext[T]:
		glwe(0, 0, x)
	case tfhe.GLevCiphertext[T]:
		for i := range x.Value {
			glwe(0, i, x.Value[i])
		}
	case tfhe.GGSWCiphertext[T]:
		for j := range x.Value {
			for i := range x.Value[j].Value {
				glwe(j, i, x.Value[j].Value[i])
			}
		}
	case tfhe.FFTGLWECiphertext[T]:
		fglwe(0, 0, x)
	case tfhe.FFTGLevCiphertext[T]:
		for i := range x.Value {
			fglwe(0, i, x.Value[i])
		}
	case tfhe.FFTGGSWCiphertext[T]:
		for j := range x.Value {
			for i := range x.Value[j].Value {
				fglwe(j, i, x.Value[j].Value[i])
			}
		}
	default:
		panic(fmt.Sprintf("HARNESS: rows of %T", ct))
	}
	return
}

func (s *edSys[T]) make(f string, gp tfhe.GadgetParameters[T]) any {
	switch f {
	case "LWE":
		return tfhe.NewLWECiphertext(s.p)
	case "Lev":
		return tfhe.NewLevCiphertext(s.p, gp)
	case "GSW":
		return tfhe.NewGSWCiphertext(s.p, gp)
	case "GLWE":
		return tfhe.NewGLWECiphertext(s.p)
	case "GLev":
		return tfhe.NewGLevCiphertext(s.p, gp)
	case "GGSW":
		return tfhe.NewGGSWCiphertext(s.p, gp)
	case "FFTGLWE":
		return tfhe.NewFFTGLWECiphertext(s.p)
	case "FFTGLev":
		return tfhe.NewFFTGLevCiphertext(s.p, gp)
	}
	return tfhe.NewFFTGGSWCiphertext(s.p, gp)
}

func intsOf(v reflect.Value) []int {
	switch x := v.Interface().(type) {
	case int:
		return []int{x}
	case []int:
		return append([]int{}, x...)
	}
	switch v.Kind() {
	case reflect.Uint32, reflect.Uint64:
		return []int{int(v.Uint())}
	case reflect.Struct: // Poly
		return intsOf(v.FieldByName("Coeffs"))
	case reflect.Slice:
		r := make([]int, v.Len())
		for i := range r {
			r[i] = int(v.Index(i).Uint())
		}
		return r
	}
	panic("HARNESS: intsOf " + v.Type().String())
}

// smallMsg draws a message; big messages keep their value in 32 bits so that TLC can read them.
func (s *edSys[T]) msg() int {
	r := s.c.Rng
	p := s.s.P
	switch r.Intn(7) {
	case 0:
		return r.Intn(1<<31) - 1<<30
	case 1:
		return -p
	case 2:
		return p
	case 3:
		return -1 - r.Intn(3*p)
	case 4:
		return p - 1
	}
	return r.Intn(p)
}

func (s *edSys[T]) one(f string, pub bool) {
	r := s.c.Rng
	c := s.c
	w := s.s.LogQ
	scalar := f == "LWE" || f == "Lev" || f == "GSW"
	plain := f == "LWE" || f == "GLWE" || f == "FFTGLWE"
	var gp tfhe.GadgetParameters[T]
	lb, lv := 0, 0
	if !plain {
		for {
			lb = 1 + r.Intn(20)
			lv = 1 + r.Intn(6)
			if lb*lv <= w && 1<<lb >= s.s.P && w-lb > 6+max(s.s.LogStdDev+w, map[bool]int{true: 18, false: 2}[w == 64]) {
				break
			}
		}
		gp = tfhe.GadgetParametersLiteral[T]{Base: T(1) << lb, Level: lv}.Compile()
	}
	sub := ""
	if r.Intn(3) == 0 {
		sub = "Plaintext"
		if !plain {
			sub = map[bool]string{true: "Scalar", false: "Poly"}[scalar]
		}
	}
	form := "New"
	if r.Intn(2) == 0 {
		form = "To"
	}
	n := 1
	if !scalar {
		n = r.Intn(s.s.N + 3)
		if r.Intn(2) == 0 {
			n = s.s.N
		}
		if sub != "" {
			n = s.s.N
		}
	}
	msgs := make([]int, n)
	for i := range msgs {
		msgs[i] = s.msg()
		if sub == "Plaintext" || sub == "Scalar" {
			msgs[i] = r.Intn(s.s.P)
			if sub == "Scalar" {
				msgs[i] = r.Intn(1<<21) - 1<<20
			}
		}
		if sub == "Poly" {
			msgs[i] = r.Intn(513) - 256
			if r.Intn(3) > 0 {
				msgs[i] = r.Intn(3) - 1
			}
		}
	}
	var recv any = s.enc
	if pub {
		recv = s.pub
	}
	ev := M{"ev": "ed", "f": f, "form": form, "sub": sub, "pub": b2i(pub), "c": msgs, "p": s.s.P, "lb": lb, "lv": lv, "logq": w,
		"N": s.s.N, "rank": s.s.Rank, "dim": s.p.DefaultLWEDimension(), "order": s.s.Order,
		"ls": int(math.Ceil(math.Log2(s.p.DefaultLWEStdDevQ()))), "lg": int(math.Ceil(math.Log2(s.p.GLWEStdDevQ()))), "name": s.s.Name, "sc": word(s.p.Scale())}
	if plain && scalar && pub {
		ev["ls"] = ev["lg"]
	}
	var ct any
	st, msg := Try(func() {
		m := reflect.ValueOf(recv).MethodByName("Encrypt" + f + sub + map[string]string{"New": "", "To": "To"}[form])
		if !m.IsValid() {
			panic("HARNESS: no method Encrypt" + f + sub + form)
		}
		var args []reflect.Value
		if form == "To" {
			ct = s.make(f, gp)
			Dirty(r, ct)
			args = append(args, reflect.ValueOf(ct))
		}
		var a any
		switch {
		case sub == "" && scalar:
			a = msgs[0]
		case sub == "":
			a = append([]int{}, msgs...)
		case sub == "Scalar":
			a = T(msgs[0])
		case sub == "Plaintext" && scalar:
			a = s.enc.EncodeLWE(msgs[0])
		case sub == "Plaintext":
			a = s.enc.EncodeGLWE(msgs)
		default:
			q := poly.NewPoly[T](s.s.N)
			for i := range msgs {
				q.Coeffs[i] = T(msgs[i])
			}
			a = q
		}
		args = append(args, reflect.ValueOf(a))
		if form == "New" && !plain {
			args = append(args, reflect.ValueOf(gp))
		}
		out := m.Call(args)
		if form == "New" {
			ct = out[0].Interface()
		}
	})
	ev["st"], ev["msg"] = st, msg
	rows := []M{}
	dec, keep := []int{}, 0
	decsub, dst := "", "ok"
	key := [][]int{}
	dph := 0
	if st == "ok" {
		for _, row := range s.rows(ct) {
			rows = append(rows, M{"j": row.J, "i": row.I, "w": words(row.Ph)})
		}
		if f == "GSW" || f == "GGSW" || f == "FFTGGSW" {
			if scalar {
				for _, x := range s.lk {
					key = append(key, []int{int(x)})
				}
			} else {
				for _, x := range s.gk {
					key = append(key, ints(x))
				}
			}
		}
		// decryption by the library
		dst, msg = Try(func() {
			name := "Decrypt" + f
			if !plain && r.Intn(2) == 0 {
				decsub = map[bool]string{true: "Scalar", false: "Poly"}[scalar]
			}
			name += decsub
			to := !scalar && r.Intn(2) == 0
			var args []reflect.Value
			args = append(args, reflect.ValueOf(ct))
			if to {
				name += "To"
				var o reflect.Value
				if decsub == "Poly" {
					q := poly.NewPoly[T](s.s.N)
					Dirty(r, q)
					o = reflect.ValueOf(q)
				} else {
					keep = -7
					x := make([]int, r.Intn(s.s.N+3))
					for i := range x {
						x[i] = keep
					}
					o = reflect.ValueOf(x)
				}
				m := reflect.ValueOf(s.enc).MethodByName(name)
				if m.Type().In(0) == o.Type() {
					args = []reflect.Value{o, args[0]}
				} else {
					args = append(args, o)
				}
				m.Call(args)
				dec = intsOf(o)
			} else {
				dec = intsOf(reflect.ValueOf(s.enc).MethodByName(name).Call(args)[0])
			}
			if plain {
				var ph []T
				o := reflect.ValueOf(s.enc).MethodByName("Decrypt" + f + "Phase").Call([]reflect.Value{reflect.ValueOf(ct)})[0].Interface()
				switch x := o.(type) {
				case tfhe.LWEPlaintext[T]:
					ph = []T{x.Value}
				case tfhe.GLWEPlaintext[T]:
					ph = x.Value.Coeffs
				}
				for i, x := range s.rows(ct)[0].Ph {
					dph = max(dph, absBits(ph[i]-x))
				}
			}
		})
		if dst != "ok" {
			ev["msg"] = msg
		}
	}
	if dec == nil {
		dec = []int{}
	}
	ev["rows"], ev["key"], ev["dec"], ev["keep"], ev["dst"], ev["decsub"], ev["dph"] = rows, key, dec, keep, dst, decsub, dph
	c.Stats["form:"+f+sub+form]++
	c.Emit(ev)
	c.Balance()
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func edShape[T tfhe.TorusInt](c *Ctx, s Shape, n int) {
	p := literal[T](s).Compile()
	enc := newEncryptor(p, "ed"+s.Name, c.Seed)
	edRun(c, s, p, enc, n, false)
}

func edRun[T tfhe.TorusInt](c *Ctx, s Shape, p tfhe.Parameters[T], enc *tfhe.Encryptor[T], n int, light bool) {
	e := &edSys[T]{c: c, s: s, p: p, enc: enc, trf: tfhe.NewGLWETransformer[T](s.N), light: light}
	e.lk = enc.DefaultLWESecretKey().Value
	e.gk = keyOfGLWE(enc.SecretKey.GLWEKey).Polys
	if p.IsPublicKeyEncryptable() {
		e.pub = tfhe.NewPublicEncryptor(p, enc.GenPublicKey())
	}
	fs := []string{"LWE", "Lev", "GSW", "GLWE", "GLev", "GGSW", "FFTGLWE", "FFTGLev", "FFTGGSW"}
	pf := []string{"LWE", "GLWE", "FFTGLWE"}
	for i := 0; i < n; i++ {
		switch {
		case e.pub != nil && c.Rng.Intn(4) == 0:
			e.one(pf[c.Rng.Intn(3)], true)
		case light:
			e.one(pf[c.Rng.Intn(3)], false)
		default:
			e.one(fs[c.Rng.Intn(len(fs))], false)
		}
	}
}

func presetShape[T tfhe.TorusInt](name string, p tfhe.Parameters[T]) Shape {
	o := 0
	if p.BootstrapOrder() == tfhe.OrderBlindRotateKeySwitch {
		o = 1
	}
	return Shape{Name: name, LogQ: p.LogQ(), Dim: p.LWEDimension(), Rank: p.GLWERank(), N: p.PolyRank(), LUT: p.LUTSize(), Block: p.BlockSize(),
		P: int(p.MessageModulus()), Order: o, LogStdDev: -20}
}

func edPreset[T tfhe.TorusInt](c *Ctx, name string, l tfhe.ParametersLiteral[T], n int) {
	p := l.Compile()
	enc := newEncryptor(p, "ed"+name, c.Seed)
	edRun(c, presetShape(name, p), p, enc, n, true)
}

func runEncDec(c *Ctx) {
	sh := func(name string, logq, dim, rank, N, block, p, order, logstd int) Shape {
		return Shape{Name: name, LogQ: logq, Dim: dim, Rank: rank, N: N, Block: block, P: p, Order: order,
			BRBase: 4, BRLevel: 3, KSBase: 4, KSLevel: 3, LogStdDev: logstd}
	}
	n := c.Pick(70, 700)
	for _, s := range []Shape{
		sh("e64", 64, 8, 1, 16, 4, 8, 0, -50), sh("e64k2", 64, 6, 2, 16, 1, 7, 1, -40), sh("e64k3", 64, 9, 3, 16, 3, 5, 0, -45),
		sh("e64n64", 64, 16, 1, 64, 8, 255, 0, -48), sh("e64max", 64, 16, 1, 16, 4, 2, 1, -50), sh("e64p", 64, 10, 2, 32, 5, 1000, 0, -44),
	} {
		edShape[uint64](c, s, n)
	}
	for _, s := range []Shape{
		sh("e32", 32, 8, 1, 16, 4, 4, 0, -24), sh("e32k2", 32, 7, 2, 32, 1, 3, 0, -26), sh("e32o1", 32, 12, 1, 32, 4, 16, 1, -25),
		sh("e32k3", 32, 12, 3, 16, 6, 6, 1, -27),
	} {
		edShape[uint32](c, s, n)
	}
	m := c.Pick(8, 40)
	edPreset(c, "Binary", tfhe.ParamsBinary, m)
	edPreset(c, "BinaryCompact", tfhe.ParamsBinaryCompact, m)
	edPreset(c, "BinaryOriginal", tfhe.ParamsBinaryOriginal, m)
	for i, l := range []tfhe.ParametersLiteral[uint64]{tfhe.ParamsUint2, tfhe.ParamsUint3, tfhe.ParamsUint4, tfhe.ParamsUint5,
		tfhe.ParamsUint6, tfhe.ParamsUint7, tfhe.ParamsUint8} {
		if i < 4 || c.Thorough() {
			edPreset(c, fmt.Sprintf("Uint%d", i+2), l, c.Pick(3, 12))
		}
	}
}

// multi-bit encryption of booleans
func bitsShape[T tfhe.TorusInt](c *Ctx, s Shape, n int) {
	r := c.Rng
	p := literal[T](s).Compile()
	enc := newEncryptor(p, "bits"+s.Name, c.Seed)
	be := tfhe.NewBinaryEncryptorWithKey(p, enc.SecretKey)
	seedEncryptor(be.Encryptor, "bitse"+s.Name, c.Seed)
	var pe *tfhe.BinaryPublicEncryptor[T]
	if p.IsPublicKeyEncryptable() {
		pe = be.PublicEncryptor()
	}
	key := enc.DefaultLWESecretKey().Value
	for i := 0; i < n; i++ {
		nb := r.Intn(70)
		m := int(r.Uint64())
		switch r.Intn(6) {
		case 0:
			m = r.Intn(16)
		case 1:
			m = -1 - r.Intn(16)
		case 2:
			m = -1 << 63
		case 3:
			nb = 64
		}
		pub := pe != nil && r.Intn(2) == 0
		var cts []tfhe.LWECiphertext[T]
		ev := M{"ev": "bits", "m": Limbs(uint64(m)), "n": nb, "pub": b2i(pub), "logq": s.LogQ, "N": s.N, "rank": s.Rank,
			"ls": int(math.Ceil(math.Log2(p.DefaultLWEStdDevQ()))), "lg": int(math.Ceil(math.Log2(p.GLWEStdDevQ()))), "form": "New"}
		st, msg := Try(func() {
			if r.Intn(2) == 0 {
				ev["form"] = "To"
				cts = make([]tfhe.LWECiphertext[T], nb)
				for j := range cts {
					cts[j] = tfhe.NewLWECiphertext(p)
					Dirty(r, cts[j])
				}
				if pub {
					pe.EncryptLWEBitsTo(cts, m)
				} else {
					be.EncryptLWEBitsTo(cts, m)
				}
			} else if pub {
				cts = pe.EncryptLWEBits(m, nb)
			} else {
				cts = be.EncryptLWEBits(m, nb)
			}
		})
		ev["st"], ev["msg"] = st, msg
		v, nz := []int{}, 0
		dec := 0
		fps := []int{}
		if st == "ok" {
			for _, ct := range cts {
				x, b := ObsPhase([]T{PhaseLWE(ct.Value, key)}, T(1)<<(s.LogQ-3), 8)
				v = append(v, x[0])
				nz = max(nz, b)
				fps = append(fps, c.FP(ct.Value[1:]))
			}
			dec = be.DecryptLWEBits(cts)
		}
		ev["v"], ev["nb"], ev["dec"], ev["fp"] = v, nz, Limbs(uint64(dec)), fps
		c.Emit(ev)
		c.Balance()
	}
}

// mkBitsShape: the bits of an integer encrypted by one of several parties.  The words of the other parties are decrypted with
// full-size keys, so that anything but zero there shows.
func mkBitsShape[T tfhe.TorusInt](c *Ctx, s Shape, n int) {
	r := c.Rng
	g := tfhe.GadgetParametersLiteral[T]{Base: 16, Level: 2}
	p := mktfhe.ParametersLiteral[T]{SubParams: literal[T](s), PartyCount: 1 + r.Intn(3), AccumulatorParams: g, RelinKeyParams: g}.Compile()
	K := p.PartyCount()
	var es []*mktfhe.BinaryEncryptor[T]
	sks := map[int]tfhe.SecretKey[T]{}
	for i := 0; i < K; i++ {
		es = append(es, mktfhe.NewBinaryEncryptor(p, i, []byte("bits")))
		sks[i] = es[i].Encryptor.SecretKey
	}
	bd := mktfhe.NewBinaryDecryptor(p, sks)
	for i := 0; i < n; i++ {
		idx := r.Intn(K)
		be := es[idx]
		if r.Intn(3) == 0 {
			be = be.SafeCopy()
		}
		var pe *mktfhe.BinaryPublicEncryptor[T]
		pub := p.SubParams().IsPublicKeyEncryptable() && r.Intn(2) == 0
		if pub {
			if pe = be.PublicEncryptor(); r.Intn(2) == 0 {
				pe = pe.SafeCopy()
			}
		}
		var key []T
		for j := 0; j < K; j++ {
			k := append([]T(nil), be.Encryptor.SubEncryptor.DefaultLWESecretKey().Value...)
			for x := range k {
				if j != idx {
					k[x] = T(r.Uint64()) | 1
				}
			}
			key = append(key, k...)
		}
		nb, m := r.Intn(70), int(r.Uint64())
		var cts []mktfhe.LWECiphertext[T]
		ev := M{"ev": "bits", "m": Limbs(uint64(m)), "n": nb, "pub": b2i(pub), "logq": s.LogQ, "N": s.N, "rank": s.Rank,
			"ls": int(math.Ceil(math.Log2(p.DefaultLWEStdDevQ()))), "lg": int(math.Ceil(math.Log2(p.GLWEStdDevQ()))), "form": "mk"}
		st, msg := Try(func() {
			if r.Intn(2) == 0 {
				cts = make([]mktfhe.LWECiphertext[T], nb)
				for j := range cts {
					cts[j] = mktfhe.NewLWECiphertext(p)
					Dirty(r, cts[j])
				}
				if pub {
					pe.EncryptLWEBitsTo(cts, m)
				} else {
					be.EncryptLWEBitsTo(cts, m)
				}
			} else if pub {
				cts = pe.EncryptLWEBits(m, nb)
			} else {
				cts = be.EncryptLWEBits(m, nb)
			}
		})
		ev["st"], ev["msg"] = st, msg
		v, nz, dec, fps := []int{}, 0, 0, []int{}
		if st == "ok" {
			for _, ct := range cts {
				x, b := ObsPhase([]T{PhaseLWE(ct.Value, key)}, T(1)<<(s.LogQ-3), 8)
				v = append(v, x[0])
				nz = max(nz, b)
				fps = append(fps, c.FP(ct.Value[1:]))
			}
			dec = bd.DecryptLWEBits(cts)
		}
		ev["v"], ev["nb"], ev["dec"], ev["fp"] = v, nz, Limbs(uint64(dec)), fps
		c.Emit(ev)
		c.Balance()
	}
}

func runBits(c *Ctx) {
	sh := func(name string, logq, dim, rank, N, block, order, logstd int) Shape {
		return Shape{Name: name, LogQ: logq, Dim: dim, Rank: rank, N: N, Block: block, P: 4, Order: order,
			BRBase: 4, BRLevel: 3, KSBase: 4, KSLevel: 3, LogStdDev: logstd}
	}
	n := c.Pick(120, 1000)
	bitsShape[uint64](c, sh("b64", 64, 8, 1, 16, 4, 0, -50), n)
	bitsShape[uint32](c, sh("b32", 32, 8, 2, 16, 4, 0, -24), n)
	bitsShape[uint32](c, sh("b32o", 32, 9, 1, 32, 1, 1, -24), n)
	mkBitsShape[uint64](c, sh("mb64", 64, 8, 1, 16, 4, 0, -50), n/4)
	mkBitsShape[uint32](c, sh("mb32o", 32, 8, 1, 32, 1, 1, -24), n/4)
}

func init() {
	drivers["encdec"] = runEncDec
	drivers["bits"] = runBits
}
