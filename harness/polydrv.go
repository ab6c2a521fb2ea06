package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"

	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
)

// polyOps are the functions on coefficient polynomials; kinds say which operands they take.
type polyFn[T num.Integer] struct {
	name  string
	kind  string                                                                        // "aa","a","ac","am","as","af","ad"
	to    func(e *poly.Evaluator[T], o, a, b poly.Poly[T], fb poly.FFTPoly, c T, d int) // destination form
	nw    func(e *poly.Evaluator[T], a, b poly.Poly[T], fb poly.FFTPoly, c T, d int) poly.Poly[T]
	inp   func(e *poly.Evaluator[T], o poly.Poly[T], d int)
	noAl  bool // destination must not overlap
	short bool // b is short
	appr  bool // approximate for full-size operands
}

type fftFn[T num.Integer] struct {
	name string
	kind string
	to   func(e *poly.Evaluator[T], o, a, b poly.FFTPoly, pb poly.Poly[T], c float64, z complex128, d int)
	nw   func(e *poly.Evaluator[T], a, b poly.FFTPoly, pb poly.Poly[T], c float64, z complex128, d int) poly.FFTPoly
	inp  func(e *poly.Evaluator[T], o poly.FFTPoly, d int)
	noAl bool
	mul  bool
}

func polyFns[T num.Integer]() []polyFn[T] {
	type E = *poly.Evaluator[T]
	type P = poly.Poly[T]
	type F = poly.FFTPoly
	return []polyFn[T]{
		{name: "AddPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.AddPolyTo(o, a, b) }, nw: func(e E, a, b P, f F, c T, d int) P { return e.AddPoly(a, b) }},
		{name: "SubPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.SubPolyTo(o, a, b) }, nw: func(e E, a, b P, f F, c T, d int) P { return e.SubPoly(a, b) }},
		{name: "NegPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.NegPolyTo(o, a) }, nw: func(e E, a, b P, f F, c T, d int) P { return e.NegPoly(a) }},
		{name: "ScalarMulPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.ScalarMulPolyTo(o, a, c) }, nw: func(e E, a, b P, f F, c T, d int) P { return e.ScalarMulPoly(a, c) }},
		{name: "ScalarMulAddPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.ScalarMulAddPolyTo(o, a, c) }},
		{name: "ScalarMulSubPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.ScalarMulSubPolyTo(o, a, c) }},
		{name: "MulPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.MulPolyTo(o, a, b) }, nw: func(e E, a, b P, f F, c T, d int) P { return e.MulPoly(a, b) }},
		{name: "MulAddPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.MulAddPolyTo(o, a, b) }},
		{name: "MulSubPoly", to: func(e E, o, a, b P, f F, c T, d int) { e.MulSubPolyTo(o, a, b) }},
		{name: "ShortFFTPolyMulPoly", kind: "f", short: true, to: func(e E, o, a, b P, f F, c T, d int) { e.ShortFFTPolyMulPolyTo(o, a, f) },
			nw: func(e E, a, b P, f F, c T, d int) P { return e.ShortFFTPolyMulPoly(a, f) }},
		{name: "ShortFFTPolyMulAddPoly", kind: "f", short: true, to: func(e E, o, a, b P, f F, c T, d int) { e.ShortFFTPolyMulAddPolyTo(o, a, f) }},
		{name: "ShortFFTPolyMulSubPoly", kind: "f", short: true, to: func(e E, o, a, b P, f F, c T, d int) { e.ShortFFTPolyMulSubPolyTo(o, a, f) }},
		{name: "FFTPolyMulPoly", kind: "f", short: true, appr: true, to: func(e E, o, a, b P, f F, c T, d int) { e.FFTPolyMulPolyTo(o, a, f) },
			nw: func(e E, a, b P, f F, c T, d int) P { return e.FFTPolyMulPoly(a, f) }},
		{name: "FFTPolyMulAddPoly", kind: "f", short: true, appr: true, to: func(e E, o, a, b P, f F, c T, d int) { e.FFTPolyMulAddPolyTo(o, a, f) }},
		{name: "FFTPolyMulSubPoly", kind: "f", short: true, appr: true, to: func(e E, o, a, b P, f F, c T, d int) { e.FFTPolyMulSubPolyTo(o, a, f) }},
		{name: "MonomialMulPoly", noAl: true, to: func(e E, o, a, b P, f F, c T, d int) { e.MonomialMulPolyTo(o, a, d) },
			nw: func(e E, a, b P, f F, c T, d int) P { return e.MonomialMulPoly(a, d) }, inp: func(e E, o P, d int) { e.MonomialMulPolyInPlace(o, d) }},
		{name: "MonomialMulAddPoly", noAl: true, to: func(e E, o, a, b P, f F, c T, d int) { e.MonomialMulAddPolyTo(o, a, d) }},
		{name: "MonomialMulSubPoly", noAl: true, to: func(e E, o, a, b P, f F, c T, d int) { e.MonomialMulSubPolyTo(o, a, d) }},
		{name: "PermutePoly", noAl: true, to: func(e E, o, a, b P, f F, c T, d int) { e.PermutePolyTo(o, a, d) },
			nw: func(e E, a, b P, f F, c T, d int) P { return e.PermutePoly(a, d) }, inp: func(e E, o P, d int) { e.PermutePolyInPlace(o, d) }},
		{name: "PermuteAddPoly", noAl: true, to: func(e E, o, a, b P, f F, c T, d int) { e.PermuteAddPolyTo(o, a, d) }},
		{name: "PermuteSubPoly", noAl: true, to: func(e E, o, a, b P, f F, c T, d int) { e.PermuteSubPolyTo(o, a, d) }},
	}
}

func fftFns[T num.Integer]() []fftFn[T] {
	type E = *poly.Evaluator[T]
	type P = poly.Poly[T]
	type F = poly.FFTPoly
	return []fftFn[T]{
		{name: "AddFFTPoly", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.AddFFTPolyTo(o, a, b) },
			nw: func(e E, a, b F, p P, c float64, z complex128, d int) F { return e.AddFFTPoly(a, b) }},
		{name: "SubFFTPoly", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.SubFFTPolyTo(o, a, b) },
			nw: func(e E, a, b F, p P, c float64, z complex128, d int) F { return e.SubFFTPoly(a, b) }},
		{name: "NegFFTPoly", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.NegFFTPolyTo(o, a) },
			nw: func(e E, a, b F, p P, c float64, z complex128, d int) F { return e.NegFFTPoly(a) }},
		{name: "FloatMulFFTPoly", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.FloatMulFFTPolyTo(o, a, c) },
			nw: func(e E, a, b F, p P, c float64, z complex128, d int) F { return e.FloatMulFFTPoly(a, c) }},
		{name: "FloatMulAddFFTPoly", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.FloatMulAddFFTPolyTo(o, a, c) }},
		{name: "FloatMulSubFFTPoly", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.FloatMulSubFFTPolyTo(o, a, c) }},
		{name: "CmplxMulFFTPoly", kind: "z", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.CmplxMulFFTPolyTo(o, a, z) },
			nw: func(e E, a, b F, p P, c float64, z complex128, d int) F { return e.CmplxMulFFTPoly(a, z) }},
		{name: "CmplxMulAddFFTPoly", kind: "z", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.CmplxMulAddFFTPolyTo(o, a, z) }},
		{name: "CmplxMulSubFFTPoly", kind: "z", to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.CmplxMulSubFFTPolyTo(o, a, z) }},
		{name: "MulFFTPoly", mul: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.MulFFTPolyTo(o, a, b) },
			nw: func(e E, a, b F, p P, c float64, z complex128, d int) F { return e.MulFFTPoly(a, b) }},
		{name: "MulAddFFTPoly", mul: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.MulAddFFTPolyTo(o, a, b) }},
		{name: "MulSubFFTPoly", mul: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.MulSubFFTPolyTo(o, a, b) }},
		{name: "PolyMulFFTPoly", kind: "p", mul: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.PolyMulFFTPolyTo(o, a, p) },
			nw: func(e E, a, b F, p P, c float64, z complex128, d int) F { return e.PolyMulFFTPoly(a, p) }},
		{name: "PolyMulAddFFTPoly", kind: "p", mul: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.PolyMulAddFFTPolyTo(o, a, p) }},
		{name: "PolyMulSubFFTPoly", kind: "p", mul: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.PolyMulSubFFTPolyTo(o, a, p) }},
		{name: "PermuteFFTPoly", noAl: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.PermuteFFTPolyTo(o, a, d) },
			nw: func(e E, a, b F, p P, c float64, z complex128, d int) F { return e.PermuteFFTPoly(a, d) }, inp: func(e E, o F, d int) { e.PermuteFFTPolyInPlace(o, d) }},
		{name: "PermuteAddFFTPoly", noAl: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.PermuteAddFFTPolyTo(o, a, d) }},
		{name: "PermuteSubFFTPoly", noAl: true, to: func(e E, o, a, b F, p P, c float64, z complex128, d int) { e.PermuteSubFFTPolyTo(o, a, d) }},
	}
}

func polyDrive[T num.Integer](c *Ctx, N int, reps int, dense bool) {
	polyDriveSome[T](c, N, reps, dense, 1)
}

// polyDriveSome records the given fraction of the calls.
func polyDriveSome[T num.Integer](c *Ctx, N int, reps int, dense bool, frac float64) {
	r := c.Rng
	w := width[T]()
	mask := ^uint64(0) >> (64 - w)
	ev := poly.NewEvaluator[T](N)
	if r.Intn(2) == 0 {
		ev = ev.SafeCopy()
	}
	lg := bits.Len(uint(N)) - 1
	enc := func(v []T) any {
		o := make([][]int, len(v))
		for i := range v {
			o[i] = Limbs(uint64(v[i]) & mask)
		}
		return o
	}
	full := func() T {
		switch r.Intn(10) {
		case 0:
			return T(1) << (w - 1)
		case 1:
			return ^T(0)
		case 2:
			return ^(T(1) << (w - 1))
		}
		return T(r.Uint64())
	}
	small := func(b int) func() T {
		if b > w-1 {
			b = w - 1
		}
		return func() T { return T(r.Int63n(1<<(b+1)-1) - (1<<b - 1)) }
	}
	arenaP := func(gen func() T) *arena[T] { return newArena(N, r.Intn(9), gen) }
	P := func(a *arena[T]) poly.Poly[T] { return poly.Poly[T]{Coeffs: a.v} }
	sparse := func(a *arena[T]) { // keep the cost of checking large products low
		if dense {
			return
		}
		keep := map[int]bool{}
		for i := 0; i < 10; i++ {
			keep[r.Intn(N)] = true
		}
		for i := range a.v {
			if !keep[i] {
				a.v[i] = 0
			}
		}
		a.save = append([]T(nil), a.full...)
	}
	degree := func(odd bool) int {
		d := r.Intn(8*N) - 4*N
		if odd {
			d |= 1
		}
		return d
	}
	base := func(f string, a, b, o any, cc T, d int) M {
		return M{"ev": "poly", "f": f, "t": fmt.Sprintf("%T", *new(T)), "N": N, "w": w, "a": a, "b": b, "o": o, "c": Limbs(uint64(cc) & mask), "ci": Limbs(0), "d": d,
			"tol": -1, "st": "ok", "guard": true, "form": "to"}
	}
	// Rounding error of a product of a full-size and a short operand, computed in binary64.
	ptol := func(bbits int) int {
		t := w + bbits + 2*lg + 4 - 53
		if t < 0 {
			return -1
		}
		if t >= w-1 {
			return w - 1
		}
		return t
	}

	for rep := 0; rep < reps; rep++ {
		for _, fn := range polyFns[T]() {
			for al := 0; al < 4; al++ {
				if r.Float64() >= frac {
					continue
				}
				bg := full
				if fn.short {
					bg = small(8)
				}
				o := arenaP(full)
				a, b := arenaP(full), arenaP(bg)
				sparse(b)
				if !fn.noAl {
					switch al {
					case 1:
						a = o
					case 2:
						if fn.kind != "f" {
							b = o
							if !dense {
								sparse(o)
							}
						}
					case 3:
						if fn.kind != "f" && dense {
							b = a
						}
					}
				}
				fb := ev.FwdFFT(P(b))
				fsave := fb.Copy()
				cc := full()
				isPerm := len(fn.name) > 4 && fn.name[:4] == "Perm"
				d := degree(isPerm && r.Intn(12) != 0)
				e := base(fn.name, enc(a.before()), enc(b.before()), enc(o.before()), cc, d)
				if fn.appr {
					e["tol"] = ptol(8)
				}
				nr := poly.Poly[T]{}
				if fn.nw != nil {
					Try(func() { nr = fn.nw(ev, P(a), P(b), fb, cc, d) })
				}
				st, _ := Try(func() { fn.to(ev, P(o), P(a), P(b), fb, cc, d) })
				e["st"], e["r"] = st, enc(o.v)
				e["guard"] = o.intact(false) && (a == o || a.intact(true)) && (b == o || b.intact(true)) && fb.Equals(fsave)
				c.Emit(e)
				if nr.Coeffs != nil {
					e["form"], e["r"] = "new", enc(nr.Coeffs)
					c.Emit(e)
				}
				if fn.inp != nil {
					o := arenaP(full)
					e := base(fn.name, enc(o.before()), enc(o.before()), enc(o.before()), cc, d)
					st, _ := Try(func() { fn.inp(ev, P(o), d) })
					e["st"], e["r"], e["guard"], e["form"] = st, enc(o.v), o.intact(false), "inplace"
					c.Emit(e)
				}
				c.Balance()
			}
		}
		// Fourier side: operands are transforms of small polynomials, results are transformed back.
		bb := 14
		if w < 64 {
			bb = 12
		}
		for _, fn := range fftFns[T]() {
			for al := 0; al < 4; al++ {
				if r.Float64() >= frac {
					continue
				}
				ag, bg := small(bb), small(8)
				o, a, b := arenaP(ag), arenaP(ag), arenaP(bg)
				sparse(b)
				fo, fa, fb := ev.FwdFFT(P(o)), ev.FwdFFT(P(a)), ev.FwdFFT(P(b))
				isPerm := len(fn.name) > 4 && fn.name[:4] == "Perm"
				if !fn.noAl {
					switch al {
					case 1:
						a, fa = o, fo
					case 2:
						if fn.kind != "p" {
							if fn.mul {
								o, fo = b, fb
							} else {
								b, fb = o, fo
							}
						}
					case 3:
						if fn.kind != "p" && !fn.mul {
							b, fb = a, fa
						}
					}
				}
				sa, sb := fa.Copy(), fb.Copy()
				fc := float64(r.Intn(401) - 200)
				zi := r.Intn(401) - 200
				z := complex(fc, float64(zi))
				d := degree(isPerm && r.Intn(12) != 0)
				e := base(fn.name, enc(a.v), enc(b.v), enc(o.v), T(int64(fc)), d)
				if fn.kind == "z" {
					e["ci"] = Limbs(uint64(zi) & mask)
				}
				var nf poly.FFTPoly
				if fn.nw != nil {
					Try(func() { nf = fn.nw(ev, fa, fb, P(b), fc, z, d) })
				}
				st, _ := Try(func() { fn.to(ev, fo, fa, fb, P(b), fc, z, d) })
				e["guard"] = (a == o || fa.Equals(sa)) && (b == o || fb.Equals(sb)) && o.intact(true) && a.intact(true) && b.intact(true)
				e["st"], e["r"] = st, enc(ev.InvFFT(fo).Coeffs)
				c.Emit(e)
				if nf.Coeffs != nil {
					e["form"], e["r"] = "new", enc(ev.InvFFT(nf).Coeffs)
					c.Emit(e)
				}
				if fn.inp != nil {
					o := arenaP(ag)
					fo := ev.FwdFFT(P(o))
					e := base(fn.name, enc(o.v), enc(o.v), enc(o.v), 0, d)
					st, _ := Try(func() { fn.inp(ev, fo, d) })
					e["st"], e["r"], e["form"] = st, enc(ev.InvFFT(fo).Coeffs), "inplace"
					c.Emit(e)
				}
				c.Balance()
			}
		}
		// transforms
		for _, big := range []bool{false, true} {
			ag := small(20)
			tol := -1
			if big {
				ag = full
				if tol = w + lg + 4 - 53; tol < 0 {
					tol = -1
				}
			}
			em := func(f string, a, o *arena[T], res []T, guard bool) {
				e := base(f, enc(a.before()), enc([]T{}), enc(o.before()), 0, 0)
				e["tol"], e["r"], e["guard"] = tol, enc(res), guard && a.intact(true)
				c.Emit(e)
				c.Balance()
			}
			for k := 0; k < 2; k++ {
				a, o := arenaP(ag), arenaP(ag)
				fo := ev.FwdFFT(P(o))
				ev.FwdFFTAddTo(fo, P(a))
				em("FwdFFTAdd", a, o, ev.InvFFT(fo).Coeffs, o.intact(true))
				fo = ev.FwdFFT(P(o))
				ev.FwdFFTSubTo(fo, P(a))
				em("FwdFFTSub", a, o, ev.InvFFT(fo).Coeffs, o.intact(true))
				for i := range fo.Coeffs {
					fo.Coeffs[i] = math.NaN()
				}
				ev.FwdFFTTo(fo, P(a))
				em("FwdFFT", a, o, ev.InvFFT(fo).Coeffs, o.intact(true))
				fa := ev.FwdFFT(P(a))
				fs := fa.Copy()
				em("InvFFT", a, o, ev.InvFFT(fa).Coeffs, fa.Equals(fs))
				o = arenaP(full)
				ev.InvFFTTo(P(o), fa)
				em("InvFFT", a, o, o.v, fa.Equals(fs) && o.intact(false))
				o = arenaP(full)
				ev.InvFFTAddTo(P(o), fa)
				em("InvFFTAdd", a, o, o.v, fa.Equals(fs) && o.intact(false))
				o = arenaP(full)
				ev.InvFFTSubTo(P(o), fa)
				em("InvFFTSub", a, o, o.v, fa.Equals(fs) && o.intact(false))
				o = arenaP(full)
				ev.InvFFTToUnsafe(P(o), fa.Copy())
				em("InvFFTUnsafe", a, o, o.v, o.intact(false))
				o = arenaP(full)
				ev.InvFFTAddToUnsafe(P(o), fa.Copy())
				em("InvFFTAddUnsafe", a, o, o.v, o.intact(false))
				o = arenaP(full)
				ev.InvFFTSubToUnsafe(P(o), fa.Copy())
				em("InvFFTSubUnsafe", a, o, o.v, o.intact(false))
			}
		}
		ds := []int{0, 1, N - 1, N, N + 1, 2*N - 1, 2 * N, N / 2, 3 * N / 2}
		for i := 0; i < 4; i++ {
			ds = append(ds, degree(false))
		}
		z := arenaP(func() T { return 0 })
		for _, d := range ds {
			for k := 0; k < 4; k++ {
				f := ev.NewFFTPoly()
				Dirty(r, &f)
				name := "MonomialFwdFFT"
				switch k {
				case 0:
					f = ev.MonomialFwdFFT(d)
				case 1:
					ev.MonomialFwdFFTTo(f, d)
				default:
					name = "MonomialSubOneFwdFFT"
					if d <= 0 {
						continue
					}
					if k == 2 {
						f = ev.MonomialSubOneFwdFFT(d)
					} else {
						ev.MonomialSubOneFwdFFTTo(f, d)
					}
				}
				e := base(name, enc(z.v), enc([]T{}), enc([]T{}), 0, d)
				e["r"] = enc(ev.InvFFT(f).Coeffs)
				c.Emit(e)
				// an error in a single evaluation point is visible once it is multiplied by large coefficients
				big := arenaP(func() T { return T(int64(r.Intn(1<<19) - 1<<18)) })
				e = base(name+"Mul", enc(big.v), enc([]T{}), enc([]T{}), 0, d)
				ev.MulFFTPolyTo(f, f, ev.FwdFFT(P(big)))
				e["r"] = enc(ev.InvFFT(f).Coeffs)
				c.Emit(e)
				c.Balance()
			}
		}
	}
	// operands of a different rank are rejected
	other := 2 * N
	if r.Intn(2) == 0 && N > 16 {
		other = N / 2
	}
	np := func(k, i int) poly.Poly[T] {
		n := N
		if k == i {
			n = other
		}
		return poly.NewPoly[T](n)
	}
	nf := func(k, i int) poly.FFTPoly {
		n := N
		if k == i {
			n = other
		}
		return poly.NewFFTPoly(n)
	}
	for _, fn := range polyFns[T]() {
		for k := 0; k < 3; k++ {
			if k == 2 && (fn.name == "NegPoly" || fn.name[:3] == "Sca" || fn.name[:3] == "Mon" || fn.name[:3] == "Per") {
				continue
			}
			st, _ := Try(func() { fn.to(ev, np(k, 0), np(k, 1), np(k, 2), nf(k, 2), 1, 1) })
			c.Emit(M{"ev": "mismatch", "f": fn.name, "k": k, "st": st})
		}
	}
	for _, fn := range fftFns[T]() {
		for k := 0; k < 3; k++ {
			if k == 2 && (fn.name == "NegFFTPoly" || fn.name[:5] == "Float" || fn.name[:5] == "Cmplx" || fn.name[:3] == "Per") {
				continue
			}
			st, _ := Try(func() { fn.to(ev, nf(k, 0), nf(k, 1), nf(k, 2), np(k, 2), 1, 1, 1) })
			c.Emit(M{"ev": "mismatch", "f": fn.name, "k": k, "st": st})
		}
	}
	for k := 0; k < 2; k++ {
		for name, f := range map[string]func(){
			"FwdFFTTo":          func() { ev.FwdFFTTo(nf(k, 0), np(k, 1)) },
			"FwdFFTAddTo":       func() { ev.FwdFFTAddTo(nf(k, 0), np(k, 1)) },
			"FwdFFTSubTo":       func() { ev.FwdFFTSubTo(nf(k, 0), np(k, 1)) },
			"InvFFTTo":          func() { ev.InvFFTTo(np(k, 0), nf(k, 1)) },
			"InvFFTAddTo":       func() { ev.InvFFTAddTo(np(k, 0), nf(k, 1)) },
			"InvFFTSubTo":       func() { ev.InvFFTSubTo(np(k, 0), nf(k, 1)) },
			"InvFFTToUnsafe":    func() { ev.InvFFTToUnsafe(np(k, 0), nf(k, 1)) },
			"InvFFTAddToUnsafe": func() { ev.InvFFTAddToUnsafe(np(k, 0), nf(k, 1)) },
			"InvFFTSubToUnsafe": func() { ev.InvFFTSubToUnsafe(np(k, 0), nf(k, 1)) },
		} {
			st, _ := Try(f)
			c.Emit(M{"ev": "mismatch", "f": name, "k": k, "st": st})
		}
	}
}

func polyMeta(c *Ctx) {
	r := c.Rng
	em := func(f string, e M) {
		m := M{"ev": "meta", "f": f, "N": 0, "a": []int{}, "b": []int{}, "r": []int{}, "rank": 0, "eq": false, "shared": false, "st": "ok"}
		for k, v := range e {
			m[k] = v
		}
		c.Emit(m)
		c.Balance()
	}
	fl := func(v []float64) []int {
		o := make([]int, len(v))
		for i := range v {
			o[i] = int(v[i])
		}
		return o
	}
	ns := []int{-16, -1}
	for i := 0; i <= 66; i++ {
		ns = append(ns, i)
	}
	ns = append(ns, 127, 128, 255, 256, 1000, 1024)
	for _, n := range ns {
		var p poly.Poly[int]
		st, _ := Try(func() { p = poly.NewPoly[int](n) })
		em("New", M{"N": n, "st": st, "r": nn(p.Coeffs), "rank": p.Rank()})
		var fp poly.FFTPoly
		st, _ = Try(func() { fp = poly.NewFFTPoly(n) })
		em("New", M{"N": n, "st": st, "r": fl(fp.Coeffs), "rank": fp.Rank()})
		var e *poly.Evaluator[uint32]
		st, _ = Try(func() { e = poly.NewEvaluator[uint32](n) })
		if st == "ok" {
			em("New", M{"N": n, "st": st, "r": ints(e.NewPoly().Coeffs), "rank": e.Rank()})
			em("New", M{"N": n, "st": st, "r": fl(e.NewFFTPoly().Coeffs), "rank": e.SafeCopy().Rank()})
		} else {
			em("New", M{"N": n, "st": st})
		}
	}
	gen := func(n int) []int {
		v := make([]int, n)
		for i := range v {
			v[i] = r.Intn(100) - 50
		}
		return v
	}
	for i := 0; i < 40; i++ {
		n := 16 << r.Intn(3)
		a := gen(r.Intn(2 * n))
		p := poly.From(a, n)
		sh := false
		rc := append([]int{}, p.Coeffs...)
		if len(a) > 0 {
			p.Coeffs[0]++
			sh = a[0] == p.Coeffs[0]
		}
		em("From", M{"N": n, "a": a, "r": rc, "shared": sh})
		v := gen(n)
		q := poly.Poly[int]{Coeffs: v}
		cp := q.Copy()
		cr := append([]int{}, cp.Coeffs...)
		cp.Coeffs[1]++
		em("Copy", M{"a": nn(v), "r": cr, "shared": cp.Coeffs[1] == v[1]})
		var t poly.Poly[int] = poly.NewPoly[int](n)
		t.CopyFrom(q)
		cr = append([]int{}, t.Coeffs...)
		t.Coeffs[2]++
		em("Copy", M{"a": v, "r": cr, "shared": t.Coeffs[2] == v[2]})
		u := q.Copy()
		if i%2 == 0 {
			u.Coeffs[r.Intn(n)]++
		}
		em("Equals", M{"a": v, "b": append([]int{}, u.Coeffs...), "eq": q.Equals(u)})
		em("Equals", M{"a": v, "b": rc, "eq": q.Equals(poly.Poly[int]{Coeffs: rc})})
		u.Clear()
		em("Clear", M{"a": v, "r": append([]int{}, u.Coeffs...)})

		f := poly.NewFFTPoly(n)
		for j := range f.Coeffs {
			f.Coeffs[j] = float64(v[j])
		}
		g := f.Copy()
		gr := fl(g.Coeffs)
		g.Coeffs[3]++
		em("Copy", M{"a": v, "r": gr, "shared": f.Coeffs[3] == g.Coeffs[3]})
		g = poly.NewFFTPoly(n)
		g.CopyFrom(f)
		gr = fl(g.Coeffs)
		g.Coeffs[3]++
		em("Copy", M{"a": v, "r": gr, "shared": f.Coeffs[3] == g.Coeffs[3]})
		eps := r.Intn(5)
		g = f.Copy()
		g.Coeffs[r.Intn(n)] += float64(r.Intn(11) - 5)
		em("Approx", M{"N": eps, "a": v, "b": fl(g.Coeffs), "eq": f.Approx(g, float64(eps))})
		em("Equals", M{"a": v, "b": fl(g.Coeffs), "eq": f.Equals(g)})
		g.Clear()
		em("Clear", M{"a": v, "r": fl(g.Coeffs)})
	}
}

// polySampled multiplies polynomials of large rank by sparse ones and records single coefficients of the result
// together with the coefficients of the operand they come from, and single coefficients of transforms taken back.
func polySampled[T num.Integer](c *Ctx, N int) {
	r := c.Rng
	w := width[T]()
	mask := ^uint64(0) >> (64 - w)
	lg := bits.Len(uint(N)) - 1
	ev := poly.NewEvaluator[T](N)
	lim := func(x T) []int { return Limbs(uint64(x) & mask) }
	mk := func(gen func() T) poly.Poly[T] {
		p := poly.NewPoly[T](N)
		for i := range p.Coeffs {
			p.Coeffs[i] = gen()
		}
		return p
	}
	full := func() T { return T(r.Uint64()) }
	small := func(b int) func() T {
		return func() T { return T(r.Int63n(1<<(b+1)-1) - (1<<b - 1)) }
	}
	sparse := func(gen func() T) (poly.Poly[T], []int) {
		p, ds := poly.NewPoly[T](N), []int{0, N - 1, N / 2, r.Intn(N), r.Intn(N), r.Intn(N)}
		ds = ds[r.Intn(3):]
		seen, out := map[int]bool{}, []int{}
		for _, d := range ds {
			if !seen[d] {
				seen[d] = true
				out = append(out, d)
				for p.Coeffs[d] == 0 {
					p.Coeffs[d] = gen()
				}
			}
		}
		return p, out
	}
	emit := func(f string, a, b poly.Poly[T], ds []int, o0, o poly.Poly[T], tol int, same bool) {
		terms := make([]any, len(ds))
		for k, d := range ds {
			terms[k] = []any{d, lim(b.Coeffs[d])}
		}
		js := []int{0, 1, N/2 - 1, N / 2, N - 1}
		for len(js) < 24 {
			js = append(js, r.Intn(N))
		}
		sm := []any{}
		for _, j := range js {
			as := make([]any, len(ds))
			for k, d := range ds {
				i := (j - d + N) % N
				as[k] = []any{i, lim(a.Coeffs[i])}
			}
			sm = append(sm, M{"j": j, "o": lim(o0.Coeffs[j]), "r": lim(o.Coeffs[j]), "as": as})
		}
		c.Emit(M{"ev": "at", "f": f, "t": fmt.Sprintf("%T", *new(T)), "N": N, "w": w, "b": terms, "sm": sm, "tol": tol, "same": same})
		c.Balance()
	}
	tolOf := func(bbits int) int {
		t := w + bbits + 2*lg + 4 - 53
		if t < 0 {
			return -1
		}
		return min(t, w-1)
	}
	for _, fn := range polyFns[T]() {
		if !strings.Contains(fn.name, "Mul") || strings.Contains(fn.name, "Scalar") || strings.Contains(fn.name, "Monomial") {
			continue
		}
		bg := full
		if fn.short {
			bg = small(8)
		}
		a, o := mk(full), mk(full)
		b, ds := sparse(bg)
		fb := ev.FwdFFT(b)
		o0, a0, b0, fb0 := o.Copy(), a.Copy(), b.Copy(), fb.Copy()
		fn.to(ev, o, a, b, fb, 0, 0)
		tol := -1
		if fn.appr {
			tol = tolOf(8)
		}
		emit(fn.name, a, b, ds, o0, o, tol, a.Equals(a0) && b.Equals(b0) && fb.Equals(fb0))
	}
	bb := 14
	if w < 64 {
		bb = 10
	}
	for _, fn := range fftFns[T]() {
		if !fn.mul {
			continue
		}
		a, o := mk(small(bb)), mk(small(bb))
		b, ds := sparse(small(8))
		fa, fo, fb := ev.FwdFFT(a), ev.FwdFFT(o), ev.FwdFFT(b)
		fa0, fb0 := fa.Copy(), fb.Copy()
		fn.to(ev, fo, fa, fb, b, 0, 0, 0)
		same := fa.Equals(fa0) && fb.Equals(fb0)
		emit(fn.name, a, b, ds, o, ev.InvFFT(fo), -1, same)
	}
	one := poly.NewPoly[T](N)
	one.Coeffs[0] = 1
	a, o := mk(small(bb)), mk(full)
	fa := ev.FwdFFT(a)
	fa0, o0 := fa.Copy(), o.Copy()
	ev.InvFFTTo(o, fa)
	emit("InvFFT", a, one, []int{0}, o0, o, -1, fa.Equals(fa0))
	o0 = o.Copy()
	ev.InvFFTAddTo(o, fa)
	emit("InvFFTAdd", a, one, []int{0}, o0, o, -1, fa.Equals(fa0))
	o0 = o.Copy()
	ev.InvFFTSubTo(o, fa)
	emit("InvFFTSub", a, one, []int{0}, o0, o, -1, fa.Equals(fa0))
	c.Balance()
	d := r.Intn(8*N) - 4*N
	ev.MonomialMulPolyTo(o, a, d)
	// X^d as one term: the exponent reduced below N, the sign of the turns
	t := poly.NewPoly[T](N)
	k := ((d % (2 * N)) + 2*N) % (2 * N)
	t.Coeffs[k%N] = 1
	if k >= N {
		t.Coeffs[k%N] = ^T(0)
	}
	emit("MonomialMulPoly", a, t, []int{k % N}, o, o, -1, true)
	fm := ev.MonomialFwdFFT(d)
	ev.MulFFTPolyTo(fm, fm, fa)
	ev.InvFFTTo(o, fm)
	emit("MonomialMulPoly", a, t, []int{k % N}, o, o, -1, true)
}

func runPoly(c *Ctx) {
	q := c.Pick(1, 3)
	polyDrive[uint32](c, 16, 3*q, true)
	polyDrive[uint64](c, 16, 3*q, true)
	polyDrive[uint32](c, 32, q, true)
	polyDrive[uint64](c, 32, q, true)
	polyDrive[uint64](c, 64, q, false)
	polyDrive[uint32](c, 128, q, false)
	fr := 0.12 // every other integer type, on every back end
	polyDriveSome[uint](c, 16, q, true, fr)
	polyDriveSome[uintptr](c, 16, q, true, fr)
	polyDriveSome[uint8](c, 16, q, true, fr)
	polyDriveSome[uint16](c, 16, q, true, fr)
	polyDriveSome[int](c, 16, q, true, fr)
	polyDriveSome[int8](c, 16, q, true, fr)
	polyDriveSome[int16](c, 16, q, true, fr)
	polyDriveSome[int32](c, 16, q, true, fr)
	polyDriveSome[int64](c, 16, q, true, fr)
	if c.Variant == "default" || c.Thorough() {
		polyDrive[int64](c, 16, q, true)
		polyDrive[int32](c, 16, q, true)
		polyDrive[uint16](c, 16, q, true)
		polyDrive[int8](c, 16, q, true)
		polyDrive[int](c, 32, q, false)
		polyDrive[uint64](c, 512, 1, false)
		polyDriveSome[uint64](c, []int{1024, 2048, 4096}[c.Rng.Intn(3)], 1, false, 0.15)
		polyDriveSome[uint32](c, []int{1024, 2048}[c.Rng.Intn(2)], 1, false, 0.15)
	}
	if c.Thorough() {
		polyDrive[uint32](c, 64, 1, true)
		polyDrive[uint64](c, 128, 1, true)
		polyDrive[int64](c, 512, 1, false)
		polyDrive[uint32](c, 1024, 1, false)
		polyDrive[uint64](c, 2048, 1, false)
		polyDrive[uint8](c, 32, 1, true)
		polyDrive[int16](c, 32, 1, true)
		polyDrive[uint](c, 16, 1, true)
	}
	if c.Variant != "purego" || c.Thorough() {
		for _, N := range []int{8192, 16384, 32768} {
			polySampled[uint64](c, N)
			polySampled[uint32](c, N)
		}
	}
	if c.Thorough() {
		for _, N := range []int{256, 1024, 2048, 4096, 8192, 16384, 32768, 65536} {
			polySampled[uint64](c, N)
			polySampled[uint32](c, N)
		}
	}
	polyMeta(c)
}

func init() { drivers["poly"] = runPoly }
