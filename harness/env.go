package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// Shape describes a parameter set of the core scheme.
type Shape struct {
	Name      string `json:"name"`
	LogQ      int    `json:"logq"`
	Dim       int    `json:"dim"`   // LWE dimension
	Rank      int    `json:"rank"`  // GLWE rank
	N         int    `json:"N"`     // polynomial rank
	LUT       int    `json:"lut"`   // LUT size (0: N)
	Block     int    `json:"block"` // block size
	P         int    `json:"p"`     // message modulus
	Order     int    `json:"order"` // 0: KeySwitch-BlindRotate, 1: BlindRotate-KeySwitch
	BRBase    int    `json:"brbase"`
	BRLevel   int    `json:"brlevel"`
	KSBase    int    `json:"ksbase"`
	KSLevel   int    `json:"kslevel"`
	LogStdDev int    `json:"logstd"`
}

func literal[T tfhe.TorusInt](s Shape) tfhe.ParametersLiteral[T] {
	l := tfhe.ParametersLiteral[T]{
		LWEDimension: s.Dim, GLWERank: s.Rank, PolyRank: s.N, LUTSize: s.LUT,
		LWEStdDev: math.Exp2(float64(s.LogStdDev)), GLWEStdDev: math.Exp2(float64(s.LogStdDev)),
		BlockSize: s.Block, MessageModulus: T(s.P),
		BlindRotateParams: tfhe.GadgetParametersLiteral[T]{Base: T(1) << s.BRBase, Level: s.BRLevel},
		KeySwitchParams:   tfhe.GadgetParametersLiteral[T]{Base: T(1) << s.KSBase, Level: s.KSLevel},
		BootstrapOrder:    tfhe.OrderKeySwitchBlindRotate,
	}
	if s.Order == 1 {
		l.BootstrapOrder = tfhe.OrderBlindRotateKeySwitch
	}
	return l
}

func seedBytes(tag string, seed int64) []byte { return []byte(fmt.Sprintf("%s/%d", tag, seed)) }

func seedEncryptor[T tfhe.TorusInt](e *tfhe.Encryptor[T], tag string, seed int64) {
	e.UniformSampler = csprng.NewUniformSamplerWithSeed[T](seedBytes(tag+"u", seed))
	e.BinarySampler = csprng.NewBinarySamplerWithSeed[T](seedBytes(tag+"b", seed))
	e.GaussianSampler = &csprng.GaussianSampler[T]{}
	*e.GaussianSampler = *csprng.NewGaussianSamplerWithSeed[T](seedBytes(tag+"g", seed), 1)
}

func newEncryptor[T tfhe.TorusInt](p tfhe.Parameters[T], tag string, seed int64) *tfhe.Encryptor[T] {
	e := tfhe.NewEncryptor(p)
	seedEncryptor(e, tag, seed)
	e.SecretKey = e.GenSecretKey()
	return e
}

// Key is a decryption key of some ciphertext class; Polys is used for ring ciphertexts.
type Key[T tfhe.TorusInt] struct {
	LWE   []T
	Polys [][]T
}

func keyOfLWE[T tfhe.TorusInt](k tfhe.LWESecretKey[T]) Key[T] { return Key[T]{LWE: k.Value} }

func keyOfGLWE[T tfhe.TorusInt](k tfhe.GLWESecretKey[T]) Key[T] {
	ps := make([][]T, len(k.Value))
	for i := range ps {
		ps[i] = k.Value[i].Coeffs
	}
	return Key[T]{Polys: ps}
}

// permuted returns the key under X -> X^d.
func (k Key[T]) permuted(d int) Key[T] {
	r := Key[T]{}
	for _, p := range k.Polys {
		r.Polys = append(r.Polys, permuteRef(p, d))
	}
	return r
}

func permuteRef[T tfhe.TorusInt](p []T, d int) []T {
	N := len(p)
	q := make([]T, N)
	for i := range p {
		j := ((i*d)%(2*N) + 2*N) % (2 * N)
		if j < N {
			q[j] += p[i]
		} else {
			q[j-N] -= p[i]
		}
	}
	return q
}

// addMulNega adds a*s to out in Z_Q[X]/(X^N+1).
func addMulNega[T tfhe.TorusInt](out, a, s []T) {
	N := len(a)
	for j := range s {
		if s[j] == 0 {
			continue
		}
		for i := range a {
			if i+j < N {
				out[i+j] += a[i] * s[j]
			} else {
				out[i+j-N] -= a[i] * s[j]
			}
		}
	}
}

// PhaseLWE is the exact phase of an LWE ciphertext.
func PhaseLWE[T tfhe.TorusInt](ct []T, key []T) T {
	r := ct[0]
	for i := range key {
		r += ct[1+i] * key[i]
	}
	return r
}

// PhaseGLWE is the exact phase of a GLWE ciphertext.
func PhaseGLWE[T tfhe.TorusInt](ct []poly.Poly[T], key [][]T) []T {
	r := make([]T, len(ct[0].Coeffs))
	copy(r, ct[0].Coeffs)
	for i := range key {
		addMulNega(r, ct[1+i].Coeffs, key[i])
	}
	return r
}

// ObsPhase turns phases into message classes modulo M and the bit length of the largest residual.
func ObsPhase[T tfhe.TorusInt](ph []T, scale T, mod int) (v []int, nb int) {
	v = make([]int, len(ph))
	for i := range ph {
		var k uint64
		if scale == 0 {
			k = 0
		} else {
			h := scale >> 1
			k = uint64((ph[i] + h) / scale) // floor((x+scale/2)/scale) with wrap-around
			if ph[i]+h < ph[i] {            // wrapped: the residual of a negative phase
				k = 0
			}
		}
		res := ph[i] - T(k)*scale
		if b := absBits(res); b > nb {
			nb = b
		}
		v[i] = int(k % uint64(mod))
	}
	return
}

// Obj is a slot of the machine.
type Obj struct {
	Cls string
	Val any
	Aut int // automorphism index of ring ciphertexts
}

// Op is one operation of a program.
type Op struct {
	Op   string   `json:"op"`
	Form string   `json:"form"`
	Out  string   `json:"out"`
	In   []string `json:"in"`
	Ints []int    `json:"ints"`
	SC   int      `json:"sc"`
	CR   int      `json:"cr"`
	CI   int      `json:"ci"`
	Poly []int    `json:"poly"`
	FN   []int    `json:"fn"`
	FNs  [][]int  `json:"fns"`
	Recv string   `json:"recv"`
}

// Sys is an instance of the scheme together with the slots of the machine.
type Sys[T tfhe.TorusInt] struct {
	C      *Ctx
	Shape  Shape
	P      tfhe.Parameters[T]
	Slots  map[string]*Obj
	Order  []string
	Keys   map[string]Key[T] // class -> key
	Recv   map[string]func() any
	Fresh  map[string]func() any // brand-new receivers for reference runs
	Make   map[string]func() any // class -> new object
	Scale  map[string]T          // class -> scale (default params scale)
	Mod    map[string]int        // class -> modulus of the observation
	trf    *tfhe.GLWETransformer[T]
	Guard  []any // objects that no operation may change (keys)
	pe     *poly.Evaluator[T]
	encd   *tfhe.Encoder[T]
	Obs1   map[string]bool // classes whose only specified coefficient is the constant one
	Hook   func(op *Op, args []reflect.Value) ([]reflect.Value, bool)
	Mod2   int
	GP     tfhe.GadgetParameters[T]
	PhaseF func(s *Sys[T], o *Obj) []T
	Extra  func(op *Op, ev M) // additional observations of an operation
	Meta   func(op *Op) bool  // operations that are not operations on a slot
	InitF  func(ev M)         // additional state announced with the start of a program
	ForkF  func(n *Sys[T])    // completes a fork
	ObsF   func(s *Sys[T], o *Obj) (v []int, nb int, ok bool)
	LUTF   func(s *Sys[T], op *Op) tfhe.LookUpTable[T] // tables of several functions
	enc    *tfhe.Encryptor[T]
	evk    tfhe.EvaluationKey[T]
}

// NewSys creates a system over the core scheme.
func NewSys[T tfhe.TorusInt](c *Ctx, s Shape) *Sys[T] {
	p := literal[T](s).Compile()
	sys := &Sys[T]{C: c, Shape: s, P: p, Slots: map[string]*Obj{}, Keys: map[string]Key[T]{},
		Recv: map[string]func() any{}, Fresh: map[string]func() any{}, Make: map[string]func() any{},
		Scale: map[string]T{}, Mod: map[string]int{}, Obs1: map[string]bool{}, Mod2: 2 * s.P}
	sys.trf = tfhe.NewGLWETransformer[T](s.N)
	sys.pe = poly.NewEvaluator[T](s.N)
	sys.encd = tfhe.NewEncoder(p)
	return sys
}

func (s *Sys[T]) Phase(o *Obj) []T {
	if s.PhaseF != nil {
		if r := s.PhaseF(s, o); r != nil {
			return r
		}
	}
	k := s.Keys[o.Cls]
	switch ct := o.Val.(type) {
	case tfhe.LWECiphertext[T]:
		return []T{PhaseLWE(ct.Value, k.LWE)}
	case tfhe.GLWECiphertext[T]:
		kk := k
		if o.Aut != 0 && o.Aut != 1 {
			kk = k.permuted(o.Aut)
		}
		return PhaseGLWE(ct.Value, kk.Polys)
	case tfhe.FFTGLWECiphertext[T]:
		kk := k
		if o.Aut != 0 && o.Aut != 1 {
			kk = k.permuted(o.Aut)
		}
		return PhaseGLWE(s.trf.InvFFTGLWECiphertext(ct).Value, kk.Polys)
	}
	panic(fmt.Sprintf("no phase for %T", o.Val))
}

func (s *Sys[T]) Observe(o *Obj) (v []int, nb int) {
	if s.ObsF != nil {
		if v, nb, ok := s.ObsF(s, o); ok {
			return v, nb
		}
	}
	sc, mod := s.P.Scale(), s.Mod2
	if x, ok := s.Scale[o.Cls]; ok {
		sc = x
	}
	if x, ok := s.Mod[o.Cls]; ok {
		mod = x
	}
	ph := s.Phase(o)
	if s.Obs1[o.Cls] {
		ph = ph[:1]
	}
	return ObsPhase(ph, sc, mod)
}

func (s *Sys[T]) toPoly(v []int) poly.Poly[T] {
	p := poly.NewPoly[T](s.Shape.N)
	for i := range v {
		if i < len(p.Coeffs) {
			p.Coeffs[i] = T(v[i])
		}
	}
	return p
}

func isGadgetProd(n string) bool { return strings.HasPrefix(n, "GadgetProd") }

// scaledPoly is the polynomial with torus coefficients v * scale.
func (s *Sys[T]) scaledPoly(v []int) poly.Poly[T] {
	p := s.toPoly(v)
	for i := range p.Coeffs {
		p.Coeffs[i] *= s.P.Scale()
	}
	return p
}

func fnOf(tab []int) func(int) int {
	return func(x int) int {
		if x < 0 || x >= len(tab) {
			panic("function evaluated outside its domain")
		}
		return tab[x]
	}
}

// bind builds the argument list of method m from the operation.
func (s *Sys[T]) bind(op *Op, m reflect.Value, outObj any, outPos int, get func(string) any) []reflect.Value {
	t := m.Type()
	var args []reflect.Value
	ii, ni := 0, 0
	for i := 0; i < t.NumIn(); i++ {
		if i == outPos {
			args = append(args, reflect.ValueOf(outObj))
			continue
		}
		var a any
		switch t.In(i) {
		case reflect.TypeOf(tfhe.LWEPlaintext[T]{}):
			a = s.encd.EncodeLWE(op.Poly[0])
		case reflect.TypeOf(tfhe.GLWEPlaintext[T]{}):
			a = s.encd.EncodeGLWE(op.Poly)
		case reflect.TypeOf(poly.Poly[T]{}):
			a = s.toPoly(op.Poly)
			if isGadgetProd(op.Op) {
				a = s.scaledPoly(op.Poly)
			}
		case reflect.TypeOf([]poly.FFTPoly{}):
			gp := get(op.In[0]).(tfhe.FFTGLevCiphertext[T]).GadgetParams
			a = tfhe.NewDecomposer[T](s.Shape.N).FourierDecomposePoly(s.scaledPoly(op.Poly), gp)
		case reflect.TypeOf([][]poly.FFTPoly{}):
			gp := get(op.In[0]).(tfhe.FFTGGSWCiphertext[T]).GadgetParams
			ct := get(op.In[1]).(tfhe.GLWECiphertext[T])
			var dc [][]poly.FFTPoly
			for _, q := range ct.Value {
				dc = append(dc, tfhe.NewDecomposer[T](s.Shape.N).FourierDecomposePoly(q, gp))
			}
			a = dc
		case reflect.TypeOf(poly.FFTPoly{}):
			a = s.pe.FwdFFT(s.toPoly(op.Poly))
		case reflect.TypeOf(T(0)):
			a = T(op.SC)
			if isGadgetProd(op.Op) {
				a = T(op.SC) * s.P.Scale()
			}
		case reflect.TypeOf(float64(0)):
			a = float64(op.CR)
		case reflect.TypeOf(complex128(0)):
			a = complex(float64(op.CR), float64(op.CI))
		case reflect.TypeOf(int(0)):
			if ni < len(op.Ints) {
				a = op.Ints[ni]
			} else {
				a = op.Poly[0]
			}
			ni++
		case reflect.TypeOf([]int{}):
			a = op.Poly
		case reflect.TypeOf(bool(false)):
			a = op.Poly[0] != 0
		case reflect.TypeOf(func(int) int { return 0 }):
			a = fnOf(op.FN)
		case reflect.TypeOf([]func(int) int{}):
			fs := []func(int) int{}
			for _, f := range op.FNs {
				fs = append(fs, fnOf(f))
			}
			a = fs
		case reflect.TypeOf(tfhe.LookUpTable[T]{}):
			if len(op.FNs) > 0 {
				a = s.LUTF(s, op)
				break
			}
			a = tfhe.NewEvaluator(s.P, tfhe.EvaluationKey[T]{}).GenLUT(fnOf(op.FN))
		default:
			if t.In(i) == reflect.TypeOf(tfhe.GadgetParameters[T]{}) {
				a = s.GP
				break
			}
			a = get(op.In[ii])
			ii++
		}
		args = append(args, reflect.ValueOf(a))
	}
	return args
}

func outPosOf(t reflect.Type, op *Op) int {
	// The destination is the first argument, except for the multi-key products
	// (idx, key, ct, ctOut), where it is the last one.
	if t.NumIn() > 0 && t.In(0).Kind() == reflect.Int {
		return t.NumIn() - 1
	}
	return 0
}

// call runs op on the receiver with the given form.
func (s *Sys[T]) call(op *Op, recv any, form string, outObj any, get func(string) any) any {
	name := op.Op
	if form != "New" {
		name += form
	}
	m := reflect.ValueOf(recv).MethodByName(name)
	if !m.IsValid() {
		panic("HARNESS: no method " + name + fmt.Sprintf(" on %T", recv))
	}
	switch form {
	case "New":
		out := m.Call(s.bind(op, m, nil, -1, get))
		return out[0].Interface()
	case "InPlace":
		m.Call(s.bind(op, m, outObj, 0, get))
		return outObj
	default:
		m.Call(s.bind(op, m, outObj, outPosOf(m.Type(), op), get))
		return outObj
	}
}

func deepCopy(o any) any {
	v := reflect.ValueOf(o)
	c := reflect.New(v.Type()).Elem()
	copyInto(c, v)
	return c.Interface()
}

// copyInto copies plain data structures (exported fields deeply, the rest by value).
func copyInto(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
		switch src.Type().Elem().Kind() {
		case reflect.Slice, reflect.Struct:
			for i := 0; i < src.Len(); i++ {
				copyInto(n.Index(i), src.Index(i))
			}
		default:
			reflect.Copy(n, src)
		}
		dst.Set(n)
	case reflect.Struct:
		dst.Set(src)
		for i := 0; i < src.NumField(); i++ {
			if src.Type().Field(i).IsExported() {
				copyInto(dst.Field(i), src.Field(i))
			}
		}
	default:
		dst.Set(src)
	}
}

func (s *Sys[T]) recvOf(op *Op) string {
	if op.Recv == "" {
		return "ev"
	}
	return op.Recv
}

// AutOf is the automorphism index of the result of op.
func (s *Sys[T]) autOf(op *Op, out string) int {
	N2 := 2 * s.Shape.N
	if len(op.Op) >= 7 && op.Op[:7] == "Permute" && op.Recv != "bfv" {
		src := out
		if op.Form != "InPlace" {
			src = op.In[0]
		}
		a := s.Slots[src].Aut
		if a == 0 {
			a = 1
		}
		return ((a*op.Ints[0])%N2 + N2) % N2
	}
	if op.Form == "InPlace" {
		return s.Slots[out].Aut
	}
	for _, n := range op.In {
		if o, ok := s.Slots[n]; ok && (isRing(o.Cls)) {
			return o.Aut
		}
	}
	return 1
}

func isRing(cls string) bool { return cls == "glwe" || cls == "fglwe" }

// Exec runs one operation and emits its event.
func (s *Sys[T]) Exec(op *Op, withRef bool) bool {
	if s.Meta != nil && s.Meta(op) {
		return true
	}
	out := s.Slots[op.Out]
	get := func(n string) any { return s.Slots[n].Val }
	aut := s.autOf(op, op.Out)

	ev := M{"ev": "op", "op": op.Op, "form": op.Form, "out": op.Out, "in": op.In, "ints": op.Ints, "sc": op.SC,
		"cr": op.CR, "ci": op.CI, "poly": op.Poly, "fn": op.FN, "recv": s.recvOf(op)}
	if len(op.FNs) > 0 {
		ev["fns"] = op.FNs
	}
	ref := 0
	if withRef && s.Fresh[s.recvOf(op)] != nil {
		// Reference run: a brand-new receiver, copies of the inputs, a separate destination with arbitrary contents.
		cp := map[string]any{}
		rget := func(n string) any {
			if _, ok := cp[n]; !ok {
				cp[n] = deepCopy(s.Slots[n].Val)
			}
			return cp[n]
		}
		var ro any
		if op.Form == "InPlace" || isAcc(op.Op) {
			ro = deepCopy(out.Val)
		} else if s.Make[out.Cls] != nil {
			ro = s.Make[out.Cls]()
			Dirty(s.C.Rng, ro)
		}
		// In a reference run an accumulated destination that is also an operand stays separate storage.
		st, msg := Try(func() {
			r := op.recvRef(s)
			f := op.Form
			if f == "New" && ro != nil && hasMethod(r, op.Op+"To") {
				f = "To"
			}
			ro = s.call(op, r, f, ro, rget)
		})
		if st == "ok" {
			ref = s.C.FP(ro)
		} else {
			ref = -1
			ev["refmsg"] = msg
		}
	}
	st, msg := Try(func() {
		var r any
		if op.Recv == "ct" {
			r = reflect.ValueOf(s.Slots[op.In[0]].Val).Interface()
			op2 := *op
			op2.In = op.In[1:]
			res := s.callExtract(&op2, r, out)
			out.Val = res
			return
		}
		r = s.Recv[s.recvOf(op)]()
		out.Val = s.call(op, r, op.Form, out.Val, get)
	})
	if st == "ok" {
		out.Aut = aut
		var v []int
		var nb int
		st, msg = Try(func() { v, nb = s.Observe(out) })
		ev["v"], ev["nb"] = v, nb
		if k := "nb:" + s.Shape.Name + ":" + op.Op; s.C.Stats[k] < nb {
			s.C.Stats[k] = nb
		}
	}
	ev["st"] = st
	if st != "ok" {
		ev["msg"] = msg
		ev["v"], ev["nb"] = []int{}, 0
	}
	ev["aut"] = aut
	ev["mid"] = s.C.FP(maskOf(out.Val))
	fps := []int{}
	for _, n := range s.Order {
		fps = append(fps, s.C.FP(s.Slots[n].Val))
	}
	ev["fp"] = fps
	ev["kfp"] = s.C.FP(s.Guard...)
	ev["ref"] = ref
	if s.Extra != nil && st == "ok" {
		s.Extra(op, ev)
	}
	if op.In == nil {
		ev["in"] = []string{}
	}
	for _, k := range []string{"ints", "poly", "fn"} {
		if reflect.ValueOf(ev[k]).Len() == 0 {
			ev[k] = []int{}
		}
	}
	s.C.Emit(ev)
	return st == "ok"
}

// maskOf is everything but the body of a ciphertext.
func maskOf(o any) any {
	v := reflect.ValueOf(o)
	if v.Kind() != reflect.Struct {
		return o
	}
	f := v.FieldByName("Value")
	if !f.IsValid() || f.Kind() != reflect.Slice || f.Len() == 0 {
		return o
	}
	return f.Slice(1, f.Len()).Interface()
}

func hasMethod(r any, n string) bool { return reflect.ValueOf(r).MethodByName(n).IsValid() }

func (op *Op) recvRef(s interface{ freshRecv(string) any }) any {
	n := op.Recv
	if n == "" {
		n = "ev"
	}
	return s.freshRecv(n)
}

func (s *Sys[T]) freshRecv(n string) any { return s.Fresh[n]() }

// callExtract handles methods of a ciphertext (sample extraction).
func (s *Sys[T]) callExtract(op *Op, recv any, out *Obj) any {
	name := op.Op
	if op.Form != "New" {
		name += op.Form
	}
	m := reflect.ValueOf(recv).MethodByName(name)
	if !m.IsValid() {
		panic("HARNESS: no method " + name)
	}
	t := m.Type()
	var args []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		if t.In(i).Kind() == reflect.Int {
			args = append(args, reflect.ValueOf(op.Ints[0]))
		} else {
			args = append(args, reflect.ValueOf(out.Val))
		}
	}
	r := m.Call(args)
	if op.Form == "New" {
		return r[0].Interface()
	}
	return out.Val
}

func isAcc(n string) bool {
	for i := 0; i+6 <= len(n); i++ {
		if x := n[i : i+6]; x == "MulAdd" || x == "MulSub" {
			return true
		}
	}
	for _, p := range []string{"PermuteAdd", "PermuteSub", "ProdAdd", "ProdSub"} {
		for i := 0; i+len(p) <= len(n); i++ {
			if n[i:i+len(p)] == p {
				return true
			}
		}
	}
	return false
}

// AddSlot adds a slot.
func (s *Sys[T]) AddSlot(name, cls string, v any) {
	s.Slots[name] = &Obj{Cls: cls, Val: v, Aut: 1}
	s.Order = append(s.Order, name)
}
