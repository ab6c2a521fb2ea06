package main

import (
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/vec"
)

func bigLimbs(b *big.Int) M {
	var ls []int
	x := new(big.Int).Abs(b)
	m := big.NewInt(2047)
	for x.Sign() > 0 {
		ls = append(ls, int(new(big.Int).And(x, m).Int64()))
		x.Rsh(x, 11)
	}
	if ls == nil {
		ls = []int{}
	}
	return M{"s": b.Sign(), "m": ls}
}

func toBig[T num.Integer](x T) *big.Int {
	if num0Signed[T]() {
		return big.NewInt(int64(x))
	}
	return new(big.Int).SetUint64(uint64(x))
}

// num0Signed is independent of the library.
func num0Signed[T num.Integer]() bool {
	var z T
	z--
	return z < 0
}

func width[T num.Number]() int { var z T; return int(unsafe.Sizeof(z)) * 8 }

func numVals[T num.Integer](r *rand.Rand, n int) []T {
	w := width[T]()
	var v []T
	for i := 0; i <= 3; i++ {
		v = append(v, T(i))
	}
	one := T(1)
	for k := 2; k < w; k++ {
		v = append(v, one<<k-1, one<<k, one<<k+1)
	}
	v = append(v, ^T(0), ^T(0)-1, ^T(0)-2)
	if num0Signed[T]() {
		v = append(v, one<<(w-1), one<<(w-1)+1, ^(one << (w - 1)), ^(one<<(w-1))-1)
		for k := 1; k < w; k++ {
			v = append(v, -(one << (k % (w - 1))), -(one<<(k%(w-1)))+1)
		}
	}
	for i := 0; i < n; i++ {
		x := T(r.Uint64())
		v = append(v, x>>(r.Intn(w)))
	}
	return v
}

func numEmit[T num.Integer](c *Ctx, f string, args []*big.Int, res *big.Int, st string, extra M) {
	a := []M{}
	for _, x := range args {
		a = append(a, bigLimbs(x))
	}
	if res == nil {
		res = big.NewInt(0)
	}
	ri := 0
	if res.IsInt64() && res.Int64() < 1<<30 && res.Int64() > -(1<<30) {
		ri = int(res.Int64())
	}
	e := M{"ev": "num", "f": f, "t": fmt.Sprintf("%T", *new(T)), "a": a, "r": bigLimbs(res), "ri": ri, "b": false, "st": st,
		"sg": num0Signed[T](), "w": width[T](), "k": 0, "small": false, "x": 0, "y": 0, "m": 0}
	for k, v := range extra {
		e[k] = v
	}
	c.Emit(e)
	c.Balance()
}

func numType[T num.Integer](c *Ctx) {
	r := c.Rng
	w := width[T]()
	sg := num0Signed[T]()
	minT, maxT := T(0), ^T(0)
	if sg {
		minT = T(1) << (w - 1)
		maxT = ^minT
	}
	numEmit[T](c, "MaxT", nil, new(big.Int).SetUint64(num.MaxT[T]()), "ok", nil)
	numEmit[T](c, "MinT", nil, big.NewInt(num.MinT[T]()), "ok", nil)
	numEmit[T](c, "SizeT", nil, big.NewInt(int64(num.SizeT[T]())), "ok", nil)
	numEmit[T](c, "ByteSizeT", nil, big.NewInt(int64(num.ByteSizeT[T]())), "ok", nil)
	numEmit[T](c, "IsSigned", nil, nil, "ok", M{"b": num.IsSigned[T]()})

	vals := numVals[T](r, c.Pick(40, 400))
	for _, x := range vals {
		x := x
		if x != minT || !sg {
			numEmit[T](c, "Abs", []*big.Int{toBig(x)}, toBig(num.Abs(x)), "ok", nil)
		}
		numEmit[T](c, "IsPowerOfTwo", []*big.Int{toBig(x)}, nil, "ok", M{"b": num.IsPowerOfTwo(x)})
		var lg int
		st, _ := Try(func() { lg = num.Log2(x) })
		numEmit[T](c, "Log2", []*big.Int{toBig(x)}, big.NewInt(int64(lg)), st, nil)
		var sq T
		st, _ = Try(func() { sq = num.Sqrt(x) })
		numEmit[T](c, "Sqrt", []*big.Int{toBig(x)}, toBig(sq), st, nil)
		k := r.Intn(w)
		numEmit[T](c, "DivRoundBits", []*big.Int{toBig(x)}, toBig(num.DivRoundBits(x, k)), "ok", M{"k": k})
		y := vals[r.Intn(len(vals))]
		numEmit[T](c, "Min", []*big.Int{toBig(x), toBig(y)}, toBig(num.Min(x, y)), "ok", nil)
		numEmit[T](c, "Max", []*big.Int{toBig(x), toBig(y)}, toBig(num.Max(x, y)), "ok", nil)
		// squares and their neighbours
		s := T(r.Uint64()) >> (w/2 + 1)
		if s < 0 {
			s = -s
		}
		for _, q := range []T{s * s, s*s + 2*s} {
			q := q
			var sr T
			st, _ := Try(func() { sr = num.Sqrt(q) })
			numEmit[T](c, "Sqrt", []*big.Int{toBig(q)}, toBig(sr), st, nil)
		}
	}
	for i := 0; i < c.Pick(12, 60); i++ {
		n := i % 6
		xs := make([]T, n)
		var bs []*big.Int
		for j := range xs {
			xs[j] = vals[r.Intn(len(vals))]
			bs = append(bs, toBig(xs[j]))
		}
		numEmit[T](c, "MinN", bs, toBig(num.MinN(xs...)), "ok", nil)
		numEmit[T](c, "MaxN", bs, toBig(num.MaxN(xs...)), "ok", nil)
	}
	for i := 0; i < c.Pick(300, 3000); i++ {
		x, y := vals[r.Intn(len(vals))], vals[r.Intn(len(vals))]
		if i%3 == 0 { // exact halves and their neighbours
			y = T(r.Uint64()) >> (w/2 + r.Intn(w/2-1))
			q := T(r.Uint64()) >> (w/2 + r.Intn(w/2-1))
			x = q*y + y/2 + T(r.Intn(3)) - 1
		}
		if i%7 == 0 { // the extremes
			x = []T{minT, maxT, maxT - 1, minT + 1}[r.Intn(4)]
			y = []T{minT, maxT, maxT - 1, minT + 1, 1, 2, 3, maxT / 2, maxT/2 + 1}[r.Intn(9)]
		}
		if y == 0 || (sg && x == minT && y == ^T(0)) {
			continue
		}
		numEmit[T](c, "DivRound", []*big.Int{toBig(x), toBig(y)}, toBig(num.DivRound(x, y)), "ok", nil)
	}
	lim := int64(40)
	for i := 0; i < c.Pick(300, 2500); i++ {
		m := T(r.Int63n(lim + 1))
		x := T(r.Int63n(100))
		y := T(r.Int63n(70))
		if sg {
			if r.Intn(12) == 0 {
				m = -m
			}
			if r.Intn(3) == 0 {
				x = -x
			}
			if r.Intn(3) == 0 {
				y = -y
			}
		}
		ex := M{"small": true, "x": int64(x), "y": int64(y), "m": int64(m)}
		var res T
		st, _ := Try(func() { res = num.ModInverse(x, m) })
		numEmit[T](c, "ModInverse", nil, toBig(res), st, ex)
		res = 0
		st, _ = Try(func() { res = num.ModExp(x, y, m) })
		numEmit[T](c, "ModExp", nil, toBig(res), st, ex)
	}
	// large operands, with certificates computed by math/big (the specification checks them)
	for i := 0; i < c.Pick(60, 600); i++ {
		m := maxT - T(r.Intn(50))
		if i%2 == 0 {
			m = maxT>>r.Intn(4) - T(r.Intn(100))
		}
		if m < 2 {
			continue
		}
		x := T(r.Uint64())
		bx, bm := toBig(x), toBig(m)
		cert := func(t *big.Int, res *big.Int) *big.Int { // t = res + k m
			k := new(big.Int).Sub(t, res)
			return k.Div(k, bm)
		}
		var res T
		if new(big.Int).GCD(nil, nil, new(big.Int).Abs(bx), bm).Cmp(big.NewInt(1)) == 0 {
			st, _ := Try(func() { res = num.ModInverse(x, m) })
			br := toBig(res)
			k := cert(new(big.Int).Mul(bx, br), big.NewInt(1))
			numEmit[T](c, "ModInverse", []*big.Int{bx, bm, k}, br, st, nil)
		}
		sq := new(big.Int).Mul(bx, bx)
		res = 0
		st, _ := Try(func() { res = num.ModExp(x, 2, m) })
		numEmit[T](c, "ModExp", []*big.Int{bx, bm, cert(sq, toBig(res))}, toBig(res), st, M{"y": 2})
		s2 := new(big.Int).Mod(sq, bm)
		st, _ = Try(func() { res = num.ModExp(x, 3, m) })
		cu := new(big.Int).Mul(bx, s2)
		numEmit[T](c, "ModExp", []*big.Int{bx, bm, cert(cu, toBig(res)), s2, cert(sq, s2)}, toBig(res), st, M{"y": 3})
	}
}

func runNum(c *Ctx) {
	numType[int](c)
	numType[uint](c)
	numType[int8](c)
	numType[uint8](c)
	numType[int16](c)
	numType[uint16](c)
	numType[int32](c)
	numType[uint32](c)
	numType[int64](c)
	numType[uint64](c)
	numType[uintptr](c)
	for i := 0; i < c.Pick(40, 200); i++ { // real numbers
		x, y := float64(c.Rng.Intn(2000)-1000), float64(c.Rng.Intn(2000)-1000)
		b := func(v float64) *big.Int { return big.NewInt(int64(v)) }
		numEmit[int64](c, "Abs", []*big.Int{b(x)}, b(num.Abs(x)), "ok", nil)
		numEmit[int64](c, "Min", []*big.Int{b(x), b(y)}, b(num.Min(x, y)), "ok", nil)
		numEmit[int64](c, "Max", []*big.Int{b(x), b(y)}, b(num.Max(x, y)), "ok", nil)
		numEmit[int64](c, "MinN", []*big.Int{b(x), b(y), b(7)}, b(num.MinN(x, y, 7)), "ok", nil)
		numEmit[int64](c, "MaxN", []*big.Int{b(x), b(y), b(7)}, b(num.MaxN(x, y, 7)), "ok", nil)
	}
	numEmit[int64](c, "IsSigned", nil, nil, "ok", M{"b": num.IsSigned[float64]()})
	numEmit[int64](c, "IsSigned", nil, nil, "ok", M{"b": num.IsSigned[float32]()})
}

// ---------------------------------------------------------------- vectors

const vguard = 9

// arena is a vector inside a larger array whose surroundings must not be written.
type arena[T num.Number] struct {
	full, v []T
	save    []T
}

func newArena[T num.Number](n, off int, gen func() T) *arena[T] {
	a := &arena[T]{full: make([]T, off+n+vguard)}
	for i := range a.full {
		a.full[i] = gen()
	}
	a.v = a.full[off : off+n : off+n]
	a.save = append([]T(nil), a.full...)
	return a
}

// intact reports whether everything outside v (and v itself if inner) is unchanged.
func (a *arena[T]) intact(inner bool) bool {
	off := len(a.full) - vguard - len(a.v)
	for i := range a.full {
		if i >= off && i < off+len(a.v) && !inner {
			continue
		}
		if a.full[i] != a.save[i] {
			return false
		}
	}
	return true
}
func (a *arena[T]) before() []T {
	off := len(a.full) - vguard - len(a.v)
	return a.save[off : off+len(a.v)]
}

type vecOp struct {
	name   string
	unary  bool
	scalar bool
}

var vecOps = []vecOp{{"Add", false, false}, {"Sub", false, false}, {"Neg", true, false}, {"ScalarMul", true, true},
	{"ScalarMulAdd", true, true}, {"ScalarMulSub", true, true}, {"Mul", false, false}, {"MulAdd", false, false}, {"MulSub", false, false}}

func vecApply[T num.Number](name string, o, a, b []T, s T) {
	switch name {
	case "Add":
		vec.AddTo(o, a, b)
	case "Sub":
		vec.SubTo(o, a, b)
	case "Neg":
		vec.NegTo(o, a)
	case "ScalarMul":
		vec.ScalarMulTo(o, a, s)
	case "ScalarMulAdd":
		vec.ScalarMulAddTo(o, a, s)
	case "ScalarMulSub":
		vec.ScalarMulSubTo(o, a, s)
	case "Mul":
		vec.MulTo(o, a, b)
	case "MulAdd":
		vec.MulAddTo(o, a, b)
	case "MulSub":
		vec.MulSubTo(o, a, b)
	}
}

func vecNew[T num.Number](name string, a, b []T, s T) []T {
	switch name {
	case "Add":
		return vec.Add(a, b)
	case "Sub":
		return vec.Sub(a, b)
	case "Neg":
		return vec.Neg(a)
	case "ScalarMul":
		return vec.ScalarMul(a, s)
	case "Mul":
		return vec.Mul(a, b)
	}
	return nil
}

func vecLens(c *Ctx) []int {
	l := []int{}
	for i := 0; i <= 26; i++ {
		l = append(l, i)
	}
	l = append(l, 31, 32, 33, 40, 47, 64)
	if c.Thorough() {
		l = append(l, 27, 28, 29, 30, 34, 35, 36, 37, 38, 39, 48, 63, 65, 100, 127, 128, 129)
	}
	return l
}

func vecDrive[T num.Number](c *Ctx, ev, tname string, gen func() T, enc func([]T) any, enc1 func(T) any, w int, reps int) {
	r := c.Rng
	alias := 0
	for rep := 0; rep < reps; rep++ {
		for _, n := range vecLens(c) {
			for _, op := range vecOps {
				alias++
				o := newArena(n, r.Intn(9), gen)
				a, b := o, o
				switch alias % 6 {
				case 0, 1, 2:
					a, b = newArena(n, r.Intn(9), gen), newArena(n, r.Intn(9), gen)
				case 3:
					b = newArena(n, r.Intn(9), gen)
				case 4:
					a = newArena(n, r.Intn(9), gen)
				case 5:
					if r.Intn(2) == 0 {
						a = newArena(n, r.Intn(9), gen)
						b = a
					}
				}
				s := gen()
				e := M{"ev": ev, "t": tname, "f": op.name, "w": w, "o": enc(o.before()), "a": enc(a.before()), "b": enc(b.before()), "c": enc1(s), "al": alias % 6}
				nb := vecNew[T](op.name, a.v, b.v, s)
				st, _ := Try(func() { vecApply(op.name, o.v, a.v, b.v, s) })
				guard := o.intact(false)
				if a != o {
					guard = guard && a.intact(true)
				}
				if b != o {
					guard = guard && b.intact(true)
				}
				e["st"], e["r"], e["guard"] = st, enc(o.v), guard
				c.Emit(e)
				if nb != nil {
					e["r"] = enc(nb)
					e["form"] = "new"
					c.Emit(e)
				}
				c.Balance()
			}
			if ev != "cvec" {
				a, b := newArena(n, r.Intn(9), gen), newArena(n, r.Intn(9), gen)
				var d T
				st, _ := Try(func() { d = vec.Dot(a.v, b.v) })
				c.Emit(M{"ev": ev, "t": tname, "f": "Dot", "w": w, "o": enc(nil), "a": enc(a.v), "b": enc(b.v), "c": enc1(d), "st": st, "r": []any{enc1(d)},
					"guard": a.intact(true) && b.intact(true)})
			}
		}
		// different lengths are rejected
		for _, op := range vecOps {
			n := 1 + r.Intn(20)
			m := n + 1 + r.Intn(9)
			for k := 0; k < 3; k++ {
				ls := []int{n, n, n}
				ls[k] = m
				if k == 2 && op.unary {
					continue
				}
				st, _ := Try(func() {
					vecApply(op.name, newArena(ls[0], 0, gen).v, newArena(ls[1], 0, gen).v, newArena(ls[2], 0, gen).v, gen())
				})
				c.Emit(M{"ev": "mismatch", "t": tname, "f": op.name, "st": st, "k": k})
			}
		}
		st, _ := Try(func() { vec.Dot(newArena(3, 0, gen).v, newArena(4, 0, gen).v) })
		c.Emit(M{"ev": "mismatch", "t": tname, "f": "Dot", "st": st})
	}
}

func vecInt[T num.Integer](c *Ctx, reps int) {
	w := width[T]()
	mask := ^uint64(0) >> (64 - w)
	gen := func() T {
		switch c.Rng.Intn(8) {
		case 0:
			return ^T(0)
		case 1:
			return T(1) << (w - 1)
		case 2:
			return 0
		}
		return T(c.Rng.Uint64())
	}
	enc1 := func(x T) any { return Limbs(uint64(x) & mask) }
	enc := func(v []T) any {
		o := make([][]int, len(v))
		for i := range v {
			o[i] = Limbs(uint64(v[i]) & mask)
		}
		return o
	}
	vecDrive(c, "vec", fmt.Sprintf("%T", *new(T)), gen, enc, enc1, w, reps)
}

func vecFloat(c *Ctx, reps int) {
	gen := func() float64 { return float64(c.Rng.Intn(20001) - 10000) }
	enc1 := func(x float64) any {
		if x != math.Trunc(x) || math.Abs(x) > 1<<30 {
			return 1 << 30
		}
		return int64(x)
	}
	enc := func(v []float64) any {
		o := make([]any, len(v))
		for i := range v {
			o[i] = enc1(v[i])
		}
		return o
	}
	vecDrive(c, "fvec", "float64", gen, enc, enc1, 64, reps)
	gen32 := func() float32 { return float32(c.Rng.Intn(1001) - 500) }
	e32 := func(x float32) any { return enc1(float64(x)) }
	ev32 := func(v []float32) any {
		o := make([]any, len(v))
		for i := range v {
			o[i] = e32(v[i])
		}
		return o
	}
	vecDrive(c, "fvec", "float32", gen32, ev32, e32, 32, 1)
	genc := func() complex128 { return complex(gen(), gen()) }
	ec := func(x complex128) any { return []any{enc1(real(x)), enc1(imag(x))} }
	evc := func(v []complex128) any {
		o := make([]any, len(v))
		for i := range v {
			o[i] = ec(v[i])
		}
		return o
	}
	vecDrive(c, "cvec", "complex128", genc, evc, ec, 64, reps)
}

func rearr(c *Ctx, f string, a []int, e M) {
	m := M{"ev": "rearr", "f": f, "a": a, "b": []int{}, "r": []int{}, "l": 0, "c": 0, "eq": false, "shared": false, "st": "ok", "guard": true}
	for k, v := range e {
		m[k] = v
	}
	c.Emit(m)
	c.Balance()
}

func runRearr(c *Ctx) {
	r := c.Rng
	seqv := func(n int) []int {
		v := make([]int, n)
		for i := range v {
			v[i] = r.Intn(1000) - 500
		}
		return v
	}
	gen := func() int { return r.Intn(1000) - 500 }
	for _, n := range vecLens(c) {
		for t := 0; t < c.Pick(4, 12); t++ {
			a := seqv(n)
			l := r.Intn(4*n+9) - 2*n - 4
			var v []int
			cp := func() []int { return append([]int{}, a...) }
			in := cp()
			st, _ := Try(func() { v = vec.Rotate(in, l) })
			rearr(c, "Rotate", a, M{"r": nn(v), "l": l, "st": st, "guard": eqi(in, a)})
			o := newArena(n, r.Intn(5), gen)
			st, _ = Try(func() { vec.RotateTo(o.v, in, l) })
			rearr(c, "Rotate", a, M{"r": nn(o.v), "l": l, "st": st, "guard": o.intact(false) && eqi(in, a)})
			o = newArena(n, r.Intn(5), gen)
			copy(o.v, a)
			st, _ = Try(func() { vec.RotateInPlace(o.v, l) })
			rearr(c, "Rotate", a, M{"r": nn(o.v), "l": l, "st": st, "guard": o.intact(false)})
			v = vec.Reverse(in)
			rearr(c, "Reverse", a, M{"r": nn(v), "guard": eqi(in, a)})
			o = newArena(n, r.Intn(5), gen)
			vec.ReverseTo(o.v, in)
			rearr(c, "Reverse", a, M{"r": nn(o.v), "guard": o.intact(false) && eqi(in, a)})
			copy(o.v, a)
			vec.ReverseInPlace(o.v)
			rearr(c, "Reverse", a, M{"r": nn(o.v), "guard": o.intact(false)})
			v = vec.Copy(in)
			before := append([]int{}, v...)
			shared := false
			if n > 0 {
				v[0]++
				shared = in[0] != a[0]
				_ = append(v, 5)
			}
			rearr(c, "Copy", a, M{"r": nn(before), "shared": shared, "guard": eqi(in, a)})
			x := gen()
			o = newArena(n, r.Intn(5), gen)
			vec.Fill(o.v, x)
			rearr(c, "Fill", a, M{"r": nn(o.v), "c": x, "guard": o.intact(false)})
			b := cp()
			if n > 0 && r.Intn(2) == 0 {
				b[r.Intn(n)]++
			}
			if r.Intn(5) == 0 {
				b = append(b, 1)
			}
			rearr(c, "Equals", a, M{"b": b, "eq": vec.Equals(in, b)})
			rearr(c, "Equals", b, M{"b": a, "eq": vec.Equals(b, in)})
			// conversions between number types
			castOne[int, int64](c, in)
			castOne[int, int32](c, in)
			castOne[int, uint32](c, in)
			castOne[int, uint64](c, in)
			castOne[int, uint8](c, in)
			wide := make([]int64, n)
			wu := make([]uint64, n)
			wf := make([]float64, n)
			for i := range wide {
				wide[i], wu[i] = int64(r.Uint64()), r.Uint64()
				wf[i] = float64(r.Intn(1<<20) - 1<<19)
			}
			castOne[int64, uint32](c, wide)
			castOne[int64, uint64](c, wide)
			castOne[uint64, uint32](c, wu)
			castOne[uint64, int16](c, wu)
			fo := vec.Cast[int64](wf)
			fi, fr := make([]int, n), make([]int, n)
			for i := range fo {
				fi[i], fr[i] = int(wf[i]), int(fo[i])
			}
			rearr(c, "Cast", fi, M{"r": nn(fr)})
			ff := vec.Cast[float64](in)
			for i := range ff {
				fi[i], fr[i] = in[i], int(ff[i])
			}
			rearr(c, "Cast", fi, M{"r": nn(fr)})
		}
	}
	for _, n := range []int{1, 2, 4, 8, 16, 32, 64, 128} {
		a := seqv(n)
		o := newArena(n, r.Intn(5), gen)
		copy(o.v, a)
		vec.BitReverseInPlace(o.v)
		rearr(c, "BitReverse", a, M{"r": nn(o.v), "guard": o.intact(false)})
	}
	for n := 0; n <= 40; n++ {
		z := make([]complex128, n)
		a := make([][]int, n)
		for i := range z {
			z[i] = complex(float64(gen()), float64(gen()))
			a[i] = []int{int(real(z[i])), int(imag(z[i]))}
		}
		var f []float64
		st, _ := Try(func() { f = vec.CmplxToFloat4(z) })
		if n%4 != 0 {
			c.Emit(M{"ev": "mismatch", "t": "complex", "f": "CmplxToFloat4", "st": st})
			st, _ = Try(func() { vec.CmplxToFloat4To(make([]float64, 2*n), z) })
			c.Emit(M{"ev": "mismatch", "t": "complex", "f": "CmplxToFloat4To", "st": st})
			st, _ = Try(func() { vec.Float4ToCmplx(make([]float64, 2*n)) })
			c.Emit(M{"ev": "mismatch", "t": "complex", "f": "Float4ToCmplx", "st": st})
			continue
		}
		fl := func(f []float64) []int {
			o := make([]int, len(f))
			for i := range f {
				o[i] = int(f[i])
			}
			return o
		}
		em := func(f []float64, st string, g bool) {
			c.Emit(M{"ev": "rearr", "f": "Float4", "a": a, "b": []int{}, "r": fl(f), "l": 0, "c": 0, "eq": false, "shared": false, "st": st, "guard": g})
		}
		em(f, st, true)
		genf := func() float64 { return float64(gen()) }
		of := newArena(2*n, r.Intn(5), genf)
		vec.CmplxToFloat4To(of.v, z)
		em(of.v, "ok", of.intact(false))
		zb := vec.Float4ToCmplx(f)
		em2 := func(zb []complex128, g bool) {
			ab := make([][]int, len(zb))
			for i := range zb {
				ab[i] = []int{int(real(zb[i])), int(imag(zb[i]))}
			}
			c.Emit(M{"ev": "rearr", "f": "Float4", "a": ab, "b": []int{}, "r": fl(f), "l": 0, "c": 0, "eq": false, "shared": false, "st": "ok", "guard": g})
		}
		em2(zb, true)
		oz := newArena(n, r.Intn(5), func() complex128 { return complex(genf(), genf()) })
		vec.Float4ToCmplxTo(oz.v, f)
		em2(oz.v, oz.intact(false))
		st, _ = Try(func() { vec.Float4ToCmplxTo(make([]complex128, n+4), f) })
		c.Emit(M{"ev": "mismatch", "t": "complex", "f": "Float4ToCmplxTo", "st": st})
		st, _ = Try(func() { vec.CmplxToFloat4To(make([]float64, 2*n+8), z) })
		c.Emit(M{"ev": "mismatch", "t": "complex", "f": "CmplxToFloat4To", "st": st})
	}
	for _, f := range []func(){
		func() { vec.CastTo(make([]uint32, 3), make([]int, 4)) },
		func() { vec.RotateTo(make([]int, 3), make([]int, 4), 1) },
		func() { vec.ReverseTo(make([]int, 3), make([]int, 4)) },
		func() { vec.ReverseTo(make([]int, 4), make([]int, 3)) },
	} {
		st, _ := Try(f)
		c.Emit(M{"ev": "mismatch", "t": "int", "f": "rearr", "st": st})
	}
}

func castOne[A, B num.Integer](c *Ctx, v []A) {
	wm := ^uint64(0) >> (64 - width[B]())
	in, out := make([][]int, len(v)), make([][]int, len(v))
	o := newArena(len(v), c.Rng.Intn(4), func() B { return B(c.Rng.Uint64()) })
	vec.CastTo(o.v, v)
	n := vec.Cast[B](v)
	same := len(n) == len(v)
	for i := range v {
		in[i] = Limbs(uint64(v[i]))
		out[i] = Limbs(uint64(o.v[i]) & wm)
		same = same && n[i] == o.v[i]
	}
	c.Emit(M{"ev": "vec", "t": fmt.Sprintf("%T", *new(B)), "f": "Cast", "w": width[B](), "o": []int{}, "a": in, "b": []int{}, "c": Limbs(0), "st": "ok", "r": out,
		"guard": o.intact(false) && same})
	c.Balance()
}

func nn(v []int) []int {
	if v == nil {
		return []int{}
	}
	return v
}

func eqi(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func runVec(c *Ctx) {
	q := c.Pick(1, 6)
	vecInt[uint32](c, 2*q)
	vecInt[uint64](c, 2*q)
	vecInt[int64](c, q)
	vecInt[int32](c, q)
	if c.Variant == "default" {
		vecInt[uint8](c, q)
		vecInt[int16](c, q)
		vecInt[int](c, q)
		vecInt[uint](c, q)
	}
	vecFloat(c, q)
	runRearr(c)
}

func init() {
	drivers["num"] = runNum
	drivers["vec"] = runVec
}
