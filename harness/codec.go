package main

import (
	"fmt"
	"math/big"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

func zi(x int64) M                             { return bigLimbs(big.NewInt(x)) }
func zu(x uint64) M                            { return bigLimbs(new(big.Int).SetUint64(x)) }
func bu(x uint64) *big.Int                     { return new(big.Int).SetUint64(x) }
func bpow(k int) *big.Int                      { return new(big.Int).Lsh(big.NewInt(1), uint(k)) }
func word[T ~uint32 | ~uint64](x T) []int      { return Limbs(uint64(x)) }
func words[T ~uint32 | ~uint64](v []T) [][]int { return LimbsV(v) }

func encMsgs(c *Ctx, n int, p uint64) []int {
	r := c.Rng
	m := make([]int, n)
	for i := range m {
		switch r.Intn(9) {
		case 0:
			m[i] = r.Intn(64) - 32
		case 1:
			m[i] = -int(p)
		case 2:
			m[i] = int(p)
		case 3:
			m[i] = int(p) - 1
		case 4:
			m[i] = -int(p) - 1
		case 5:
			m[i] = int(r.Uint64())
		case 6:
			m[i] = -1 << 63
		case 7:
			m[i] = 1<<63 - 1
		default:
			m[i] = r.Intn(1<<20) - 1<<19
		}
	}
	return m
}

func codecType[T tfhe.TorusInt](c *Ctx, s Shape) {
	r := c.Rng
	params := literal[T](s).Compile()
	enc := tfhe.NewEncoder(params)
	w := s.LogQ
	N := s.N
	emitEnc := func(f string, msgs []int, p, sc T, n int, st string, res []T) {
		e := M{"ev": "enc", "f": f, "w": w, "p": zu(uint64(p)), "s": word(sc), "n": n, "st": st, "r": words(res)}
		var m, k []M
		for _, x := range msgs {
			m = append(m, zi(int64(x)))
			if p != 0 {
				q := new(big.Int).Div(big.NewInt(int64(x)), bu(uint64(p))) // Euclidean: floor for p > 0
				k = append(k, bigLimbs(q))
			} else {
				k = append(k, zi(0))
			}
		}
		if m == nil {
			m, k = []M{}, []M{}
		}
		e["m"], e["k"] = m, k
		c.Emit(e)
		c.Balance()
	}
	emitDec := func(f string, v []T, p, sc T, n, keep int, st string, res []int) {
		e := M{"ev": "dec", "f": f, "w": w, "v": words(v), "p": zu(uint64(p)), "s": word(sc), "n": n, "keep": keep, "st": st}
		bs := bu(uint64(sc))
		bp := bu(uint64(p))
		round := func(x *big.Int) *big.Int { // nearest integer to x / scale
			t := new(big.Int).Lsh(x, 1)
			t.Add(t, bs)
			return t.Div(t, new(big.Int).Lsh(bs, 1))
		}
		if p == 0 {
			bp = round(bpow(w))
		}
		var q, k, rs []M
		for i, x := range res {
			rs = append(rs, zu(uint64(x)))
			if i >= len(v) {
				continue
			}
			t := round(bu(uint64(v[i])))
			q = append(q, bigLimbs(t))
			kk := new(big.Int).Div(t, bp)
			k = append(k, bigLimbs(kk))
		}
		if q == nil {
			q, k = []M{}, []M{}
		}
		if rs == nil {
			rs = []M{}
		}
		e["pq"], e["q"], e["k"], e["r"] = bigLimbs(bp), q, k, rs
		c.Emit(e)
		c.Balance()
	}
	// scales and moduli: the parameters' own, arbitrary pairs, extreme pairs
	type ps struct{ p, s T }
	var pss []ps
	pss = append(pss, ps{params.MessageModulus(), params.Scale()}, ps{0, params.Scale()})
	for i := 0; i < c.Pick(14, 100); i++ {
		p := T(r.Intn(1<<uint(1+r.Intn(20)))) + 1
		sc := T(1) << uint(w-1)
		if i%2 == 0 {
			sc = T(new(big.Int).Div(bpow(w-1), bu(uint64(p))).Uint64())
		} else {
			sc = T(r.Uint64()>>uint(64-w))>>uint(r.Intn(w-1)) | 1
		}
		pss = append(pss, ps{p, sc})
	}
	for _, sc := range []T{1, 2, 3, 5, 7, 1 << 20, 1<<20 + 1, T(1) << uint(w-1), ^T(0), ^T(0) - 1, ^T(0)/2 + 2, 11, 1000003} {
		pss = append(pss, ps{0, sc}, ps{T(2 + r.Intn(1000)), sc}, ps{^T(0)/2 - 3, sc})
	}
	vals := func(p, sc T, n int) []T {
		v := make([]T, n)
		for i := range v {
			switch r.Intn(6) {
			case 0, 1: // near a multiple of the scale
				v[i] = T(r.Uint64()>>uint(64-w))/sc*sc + T(r.Intn(7)) - 3
			case 2: // near the middle of an interval
				v[i] = T(r.Uint64()>>uint(64-w))/sc*sc + sc/2 + T(r.Intn(5)) - 2
			case 3:
				v[i] = ^T(0) - T(r.Intn(4))
			case 4:
				v[i] = T(r.Uint64()) >> uint(r.Intn(w))
			default:
				v[i] = T(r.Uint64())
			}
			if sc%2 == 0 && v[i]%sc == sc/2 { // ties are not specified
				v[i]++
			}
		}
		return v
	}
	for i, x := range pss {
		for j := 0; j < c.Pick(6, 20); j++ {
			m := encMsgs(c, 1, uint64(x.p))
			var pt tfhe.LWEPlaintext[T]
			st, _ := Try(func() { pt = enc.EncodeLWECustom(m[0], x.p, x.s) })
			emitEnc("EncodeLWECustom", m, x.p, x.s, 1, st, []T{pt.Value})
			if i == 0 {
				st, _ = Try(func() { pt = enc.EncodeLWE(m[0]) })
				emitEnc("EncodeLWE", m, x.p, x.s, 1, st, []T{pt.Value})
			}
			v := vals(x.p, x.s, 1)
			var d int
			st, _ = Try(func() { d = enc.DecodeLWECustom(tfhe.LWEPlaintext[T]{Value: v[0]}, x.p, x.s) })
			emitDec("DecodeLWECustom", v, x.p, x.s, 1, 0, st, []int{d})
			if i == 0 {
				st, _ = Try(func() { d = enc.DecodeLWE(tfhe.LWEPlaintext[T]{Value: v[0]}) })
				emitDec("DecodeLWE", v, x.p, x.s, 1, 0, st, []int{d})
			}
		}
		for _, n := range []int{0, 1, r.Intn(N), N, N + 1 + r.Intn(N)} {
			m := encMsgs(c, n, uint64(x.p))
			var pt tfhe.GLWEPlaintext[T]
			st, _ := Try(func() { pt = enc.EncodeGLWECustom(m, x.p, x.s) })
			emitEnc("EncodeGLWECustom", m, x.p, x.s, N, st, pt.Value.Coeffs)
			Dirty(r, &pt)
			st, _ = Try(func() { enc.EncodeGLWECustomTo(pt, m, x.p, x.s) })
			emitEnc("EncodeGLWECustomTo", m, x.p, x.s, N, st, pt.Value.Coeffs)
			if i == 0 {
				st, _ = Try(func() { pt = enc.EncodeGLWE(m) })
				emitEnc("EncodeGLWE", m, x.p, x.s, N, st, pt.Value.Coeffs)
				Dirty(r, &pt)
				st, _ = Try(func() { enc.EncodeGLWETo(pt, m) })
				emitEnc("EncodeGLWETo", m, x.p, x.s, N, st, pt.Value.Coeffs)
			}
			g := tfhe.NewGLWEPlaintext(params)
			copy(g.Value.Coeffs, vals(x.p, x.s, N))
			var d []int
			st, _ = Try(func() { d = enc.DecodeGLWECustom(g, x.p, x.s) })
			emitDec("DecodeGLWECustom", g.Value.Coeffs, x.p, x.s, N, 0, st, d)
			d = make([]int, n)
			keep := 123456 + r.Intn(1000)
			for q := range d {
				d[q] = keep
			}
			st, _ = Try(func() { enc.DecodeGLWECustomTo(d, g, x.p, x.s) })
			emitDec("DecodeGLWECustomTo", g.Value.Coeffs, x.p, x.s, n, keep, st, d)
			if i == 0 {
				st, _ = Try(func() { d = enc.DecodeGLWE(g) })
				emitDec("DecodeGLWE", g.Value.Coeffs, x.p, x.s, N, 0, st, d)
				d = make([]int, n)
				st, _ = Try(func() { enc.DecodeGLWETo(d, g) })
				emitDec("DecodeGLWETo", g.Value.Coeffs, x.p, x.s, n, 0, st, d)
			}
		}
	}
	be := tfhe.NewBinaryEncoder(params)
	for _, b := range []bool{false, true} {
		c.Emit(M{"ev": "encb", "w": w, "b": b, "r": word(be.EncodeLWEBool(b).Value)})
	}
	for i := 0; i < 60; i++ {
		v := T(r.Uint64())
		switch i % 3 {
		case 0:
			v = T(1)<<uint(w-1) + T(r.Intn(5)) - 2
		case 1:
			v = T(r.Intn(5)) - 2
		}
		c.Emit(M{"ev": "decb", "w": w, "v": word(v), "b": be.DecodeLWEBool(tfhe.LWEPlaintext[T]{Value: v})})
	}
}

func runEnc(c *Ctx) {
	codecType[uint64](c, Shape{LogQ: 64, Dim: 4, Rank: 1, N: 16, Block: 1, P: 8, BRBase: 8, BRLevel: 4, KSBase: 8, KSLevel: 4, LogStdDev: -50})
	codecType[uint32](c, Shape{LogQ: 32, Dim: 4, Rank: 1, N: 32, Block: 1, P: 5, BRBase: 6, BRLevel: 4, KSBase: 6, KSLevel: 4, LogStdDev: -25})
	codecType[uint64](c, Shape{LogQ: 64, Dim: 4, Rank: 1, N: 16, Block: 1, P: 1000, BRBase: 8, BRLevel: 4, KSBase: 8, KSLevel: 4, LogStdDev: -50})
	codecType[uint32](c, Shape{LogQ: 32, Dim: 4, Rank: 1, N: 16, Block: 1, P: 1, BRBase: 6, BRLevel: 4, KSBase: 6, KSLevel: 4, LogStdDev: -25})
}

// ---------------------------------------------------------------- gadget decomposition

func dcmpType[T tfhe.TorusInt](c *Ctx, N int) {
	r := c.Rng
	w := logQ[T]()
	dec := tfhe.NewDecomposer[T](N)
	if r.Intn(2) == 0 {
		dec = dec.SafeCopy()
	}
	type gd struct{ lb, lv int }
	var gs []gd
	for _, g := range []gd{{1, 1}, {1, w}, {w - 1, 1}, {w / 2, 2}, {2, w / 2}, {w / 4, 4}, {w / 2, 1}, {3, w / 3}, {1, 2}, {8, w / 8}} {
		gs = append(gs, g)
	}
	for i := 0; i < c.Pick(16, 120); i++ {
		lb := 1 + r.Intn(w/2)
		gs = append(gs, gd{lb, 1 + r.Intn(w/lb)})
	}
	for _, g := range gs {
		gp := tfhe.GadgetParametersLiteral[T]{Base: T(1) << uint(g.lb), Level: g.lv}.Compile()
		var lbq []int
		var bq []M
		for i := 0; i < g.lv; i++ {
			lbq = append(lbq, gp.LogBaseQ(i))
			bq = append(bq, zu(uint64(gp.BaseQ(i))))
		}
		c.Emit(M{"ev": "gad", "w": w, "lb": g.lb, "lv": g.lv, "base": zu(uint64(gp.Base())), "logbase": gp.LogBase(), "level": gp.Level(), "lbq": lbq, "bq": bq,
			"first": gp.LogFirstBaseQ(), "last": gp.LogLastBaseQ(), "firstq": zu(uint64(gp.FirstBaseQ())), "lastq": zu(uint64(gp.LastBaseQ()))})
		prec := w - g.lb*g.lv
		val := func() T {
			x := T(r.Uint64())
			switch r.Intn(7) {
			case 0:
				return T(r.Intn(5)) - 2
			case 1: // rounding boundary
				if prec > 0 {
					return x>>uint(prec)<<uint(prec) + T(1)<<uint(prec-1) + T(r.Intn(3)) - 1
				}
			case 2: // digits at the border of the balanced range
				var y T
				for i := 0; i < g.lv; i++ {
					y += (T(1)<<uint(g.lb-1) + T(r.Intn(2)) - T(r.Intn(2))) << uint(w-(i+1)*g.lb)
				}
				return y
			case 3:
				return ^T(0) - T(r.Intn(3))<<uint(r.Intn(w))
			case 4:
				return T(1)<<uint(w-1) + T(r.Intn(3)) - 1
			}
			return x
		}
		em := func(f string, xs []T, ds [][]T) {
			d := make([][][]int, len(ds))
			for i := range ds {
				d[i] = words(ds[i])
			}
			c.Emit(M{"ev": "dcmp", "f": f, "w": w, "lb": g.lb, "lv": g.lv, "x": words(xs), "d": d, "st": "ok"})
			c.Balance()
		}
		tr := func(ps []poly.Poly[T], n int) [][]T {
			o := make([][]T, n)
			for i := range o {
				for j := range ps {
					o[i] = append(o[i], ps[j].Coeffs[i])
				}
			}
			return o
		}
		var xs []T
		var ds, dt [][]T
		for i := 0; i < 12; i++ {
			x := val()
			xs = append(xs, x)
			ds = append(ds, dec.DecomposeScalar(x, gp))
			o := make([]T, g.lv+r.Intn(3))
			for j := range o {
				o[j] = T(r.Uint64())
			}
			if r.Intn(3) == 0 {
				o = dec.ScalarBuffer(gp)
			}
			dec.DecomposeScalarTo(o, x, gp)
			dt = append(dt, append([]T(nil), o[:g.lv]...))
		}
		em("DecomposeScalar", xs, ds)
		em("DecomposeScalarTo", xs, dt)
		p := poly.NewPoly[T](N)
		for i := range p.Coeffs {
			p.Coeffs[i] = val()
		}
		sv := p.Copy()
		em("DecomposePoly", sv.Coeffs, tr(dec.DecomposePoly(p, gp), N))
		o := make([]poly.Poly[T], g.lv)
		for i := range o {
			o[i] = poly.NewPoly[T](N)
		}
		Dirty(r, &o)
		if r.Intn(3) == 0 {
			o = dec.PolyBuffer(gp)
		}
		dec.DecomposePolyTo(o, p, gp)
		em("DecomposePolyTo", sv.Coeffs, tr(o, N))
		c.Emit(M{"ev": "rcmp", "f": "input", "w": w, "lb": 1, "lv": 1, "d": [][][]int{}, "r": [][]int{}, "st": map[bool]string{true: "ok", false: "input modified"}[p.Equals(sv)]})
		if g.lb <= 30 { // exactly representable in the transform
			fo := dec.FourierDecomposePoly(p, gp)
			inv := func(fs []poly.FFTPoly) []poly.Poly[T] {
				var o []poly.Poly[T]
				for i := 0; i < g.lv; i++ {
					o = append(o, dec.PolyEvaluator.InvFFT(fs[i]))
				}
				return o
			}
			em("FourierDecomposePoly", sv.Coeffs, tr(inv(fo), N))
			Dirty(r, &fo)
			if r.Intn(3) == 0 {
				fo = dec.FFTPolyBuffer(gp)
			}
			dec.FourierDecomposePolyTo(fo, p, gp)
			em("FourierDecomposePolyTo", sv.Coeffs, tr(inv(fo), N))
		}
		// recomposition of arbitrary digits
		var rd [][][]int
		var rr []T
		for i := 0; i < 4; i++ {
			d := make([]T, g.lv)
			for j := range d {
				d[j] = T(r.Uint64()) >> uint(r.Intn(w))
			}
			rd = append(rd, words(d))
			rr = append(rr, dec.RecomposeScalar(d, gp))
		}
		c.Emit(M{"ev": "rcmp", "f": "RecomposeScalar", "w": w, "lb": g.lb, "lv": g.lv, "d": rd, "r": words(rr), "st": "ok"})
		q := make([]poly.Poly[T], g.lv)
		for i := range q {
			q[i] = poly.NewPoly[T](N)
		}
		Dirty(r, &q)
		rp := func(f string, p poly.Poly[T]) {
			d := make([][][]int, N)
			t := tr(q, N)
			for i := range t {
				d[i] = words(t[i])
			}
			c.Emit(M{"ev": "rcmp", "f": f, "w": w, "lb": g.lb, "lv": g.lv, "d": d, "r": words(p.Coeffs), "st": "ok"})
			c.Balance()
		}
		rp("RecomposePoly", dec.RecomposePoly(q, gp))
		dp := poly.NewPoly[T](N)
		Dirty(r, &dp)
		dec.RecomposePolyTo(dp, q, gp)
		rp("RecomposePolyTo", dp)
	}
}

func runDcmp(c *Ctx) {
	dcmpType[uint32](c, 16)
	dcmpType[uint64](c, 16)
	if c.Thorough() {
		dcmpType[uint32](c, 64)
		dcmpType[uint64](c, 32)
	}
}

// ---------------------------------------------------------------- look-up tables

func lutType[T tfhe.TorusInt](c *Ctx, s Shape) {
	r := c.Rng
	params := literal[T](s).Compile()
	ev := tfhe.NewEvaluator(params, tfhe.EvaluationKey[T]{})
	L := params.LUTSize()
	lut := tfhe.NewLUT(params)
	emit := func(f string, p, pm int, sc T, full bool, y []T, fv []int, st string, lt tfhe.LookUpTable[T]) {
		var t [][][]int
		for _, v := range lt.Value {
			t = append(t, words(v.Coeffs))
		}
		if y == nil {
			y = []T{}
		}
		c.Emit(M{"ev": "lut", "fn": f, "w": s.LogQ, "L": L, "N": s.N, "ext": L / s.N, "p": p, "pm": pm, "s": word(sc), "full": full, "y": words(y), "f": nn(fv), "st": st, "t": t})
		c.Balance()
	}
	ps := []int{s.P}
	for p := 1; p <= L && p <= c.Pick(20, 40); p++ {
		if p <= 5 || r.Intn(3) == 0 || c.Thorough() {
			ps = append(ps, p)
		}
	}
	for p := 8; p <= L/2; p *= 2 {
		ps = append(ps, p)
	}
	for i, p := range ps {
		fv := make([]int, p)
		y := make([]T, p)
		for x := range fv {
			fv[x] = r.Intn(4000) - 2000
			y[x] = T(r.Uint64())
		}
		f := func(x int) int { return fv[x] }
		g := func(x int) T { return y[x] }
		sc := T(r.Uint64())
		if r.Intn(2) == 0 {
			sc = T(1) << uint(r.Intn(s.LogQ))
		}
		Dirty(r, &lut)
		st, _ := Try(func() { ev.GenLUTCustomTo(lut, f, T(p), sc) })
		emit("GenLUTCustomTo", p, p, sc, false, nil, fv, st, lut)
		st, _ = Try(func() { ev.GenLUTCustomFullTo(lut, g, T(p)) })
		emit("GenLUTCustomFullTo", p, p, sc, true, y, nil, st, lut)
		if r.Intn(2) == 0 {
			var l2 tfhe.LookUpTable[T]
			st, _ = Try(func() { l2 = ev.GenLUTCustom(f, T(p), sc) })
			emit("GenLUTCustom", p, p, sc, false, nil, fv, st, l2)
			st, _ = Try(func() { l2 = ev.GenLUTCustomFull(g, T(p)) })
			emit("GenLUTCustomFull", p, p, sc, true, y, nil, st, l2)
			if i%2 == 0 {
				l3 := l2.Copy()
				l2.Clear()
				emit("Copy", p, p, sc, true, y, nil, "ok", l3)
				l2.CopyFrom(l3)
				l3.Clear()
				emit("CopyFrom", p, p, sc, true, y, nil, "ok", l2)
				emit("Clear", 1, 1, sc, true, make([]T, 1), nil, "ok", l3)
			}
		}
		if i == 0 {
			for k := 0; k < 3; k++ {
				Dirty(r, &lut)
				st, _ = Try(func() { ev.GenLUTTo(lut, f) })
				emit("GenLUTTo", p, p, params.Scale(), false, nil, fv, st, lut)
				Dirty(r, &lut)
				st, _ = Try(func() { ev.GenLUTFullTo(lut, g) })
				emit("GenLUTFullTo", p, p, 0, true, y, nil, st, lut)
				emit("GenLUT", p, p, params.Scale(), false, nil, fv, st, ev.GenLUT(f))
				emit("GenLUTFull", p, p, 0, true, y, nil, st, ev.GenLUTFull(g))
			}
		}
	}
	_ = fmt.Sprint
}

// mlutType splits the tables of the many-LUT evaluator into one table per function.
func mlutType[T tfhe.TorusInt](c *Ctx, s Shape, cnt int) {
	r := c.Rng
	mp := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: literal[T](s), LUTCount: cnt}.Compile()
	ev := xtfhe.NewManyLUTEvaluator(mp, tfhe.EvaluationKey[T]{})
	L := s.N / cnt
	lut := tfhe.NewLUT(mp.BaseParams())
	zero := func(n int) []int { return make([]int, n) }
	emit := func(f string, p, pm int, sc T, full bool, y [][]T, fv [][]int, st string, lt tfhe.LookUpTable[T]) {
		for i := 0; i < cnt; i++ {
			t := make([]T, L)
			if len(lt.Value) == 1 {
				for j := range t {
					t[j] = lt.Value[0].Coeffs[j*cnt+i]
				}
			}
			yi, fi := []T{}, []int{}
			if full {
				yi = make([]T, p)
				if i < len(y) {
					yi = y[i]
				}
			} else {
				fi = zero(p)
				if i < len(fv) {
					fi = fv[i]
				}
			}
			c.Emit(M{"ev": "lut", "fn": f, "w": s.LogQ, "L": L, "N": L, "ext": 1, "p": p, "pm": pm, "s": word(sc), "full": full, "y": words(yi), "f": nn(fi), "st": st, "t": [][][]int{words(t)}})
		}
		c.Balance()
	}
	ps := []int{s.P, s.P, 1, 2, 3}
	for p := 4; p <= L/2; p++ {
		if r.Intn(3) == 0 || c.Thorough() || p == L/2 {
			ps = append(ps, p)
		}
	}
	base := mp.BaseParams()
	for i, p := range ps {
		if p > L {
			continue
		}
		k := 1 + r.Intn(cnt)
		if i%2 == 0 {
			k = cnt
		}
		fv, y := make([][]int, k), make([][]T, k)
		fs, gs := make([]func(int) int, k), make([]func(int) T, k)
		for j := range fs {
			j := j
			fv[j], y[j] = make([]int, p), make([]T, p)
			for x := range fv[j] {
				fv[j][x] = r.Intn(4000) - 2000
				y[j][x] = T(r.Uint64())
			}
			fs[j] = func(x int) int { return fv[j][x] }
			gs[j] = func(x int) T { return y[j][x] }
		}
		sc := T(r.Uint64())
		Dirty(r, &lut)
		st, _ := Try(func() { ev.GenLUTCustomTo(lut, fs, T(p), sc) })
		emit("many GenLUTCustomTo", p, p, sc, false, nil, fv, st, lut)
		Dirty(r, &lut)
		st, _ = Try(func() { ev.GenLUTCustomFullTo(lut, gs, T(p)) })
		emit("many GenLUTCustomFullTo", p, p, 0, true, y, nil, st, lut)
		var l2 tfhe.LookUpTable[T]
		st, _ = Try(func() { l2 = ev.GenLUTCustom(fs, T(p), sc) })
		emit("many GenLUTCustom", p, p, sc, false, nil, fv, st, l2)
		st, _ = Try(func() { l2 = ev.GenLUTCustomFull(gs, T(p)) })
		emit("many GenLUTCustomFull", p, p, 0, true, y, nil, st, l2)
		if i < 2 {
			Dirty(r, &lut)
			st, _ = Try(func() { ev.GenLUTTo(lut, fs) })
			emit("many GenLUTTo", p, p, base.Scale(), false, nil, fv, st, lut)
			Dirty(r, &lut)
			st, _ = Try(func() { ev.GenLUTFullTo(lut, gs) })
			emit("many GenLUTFullTo", p, p, 0, true, y, nil, st, lut)
			st, _ = Try(func() { l2 = ev.GenLUT(fs) })
			emit("many GenLUT", p, p, base.Scale(), false, nil, fv, st, l2)
			st, _ = Try(func() { l2 = ev.GenLUTFull(gs) })
			emit("many GenLUTFull", p, p, 0, true, y, nil, st, l2)
		}
	}
}

func runLUT(c *Ctx) {
	mb := Shape{LogQ: 64, Dim: 4, Rank: 1, N: 64, Block: 1, P: 4, BRBase: 8, BRLevel: 4, KSBase: 8, KSLevel: 4, LogStdDev: -50}
	mlutType[uint64](c, mb, 2)
	mb.P, mb.N = 3, 128
	mlutType[uint64](c, mb, 4)
	mb.LogQ, mb.BRBase, mb.KSBase, mb.LogStdDev, mb.P = 32, 6, 6, -25, 5
	mlutType[uint32](c, mb, 8)
	base := Shape{LogQ: 64, Dim: 4, Rank: 1, N: 32, Block: 1, P: 8, BRBase: 8, BRLevel: 4, KSBase: 8, KSLevel: 4, LogStdDev: -50}
	b := base
	lutType[uint64](c, b)
	b.LUT, b.P = 64, 7
	lutType[uint64](c, b)
	b.N, b.LUT, b.P = 16, 128, 16
	lutType[uint64](c, b)
	d := base
	d.LogQ, d.BRBase, d.KSBase, d.LogStdDev, d.P = 32, 6, 6, -25, 5
	lutType[uint32](c, d)
	d.N, d.LUT, d.P = 16, 64, 3
	lutType[uint32](c, d)
	d.N, d.LUT, d.P = 32, 96, 6 // three interleaved parts
	lutType[uint32](c, d)
	if c.Thorough() {
		d.N, d.LUT, d.P = 256, 0, 12
		lutType[uint32](c, d)
		b.N, b.LUT, b.P = 64, 512, 32
		lutType[uint64](c, b)
	}
}

func init() {
	drivers["enc"] = runEnc
	drivers["dcmp"] = runDcmp
	drivers["lut"] = runLUT
}
