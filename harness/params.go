package main

import (
	"math"
	"math/rand"
	"reflect"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// flt writes a float as a sign and, for exact powers of two, an exponent.
func flt(x float64) M {
	s := 0
	if x > 0 {
		s = 1
	} else if x < 0 {
		s = -1
	}
	f, e := math.Frexp(math.Abs(x))
	m := int64(f * (1 << 53)) // odd part and exponent
	e -= 53
	for m != 0 && m%2 == 0 {
		m /= 2
		e++
	}
	if s == 0 {
		e = 0
	}
	return M{"s": s, "m": Limbs(uint64(m)), "e": e}
}

func gadLit[T tfhe.TorusInt](g tfhe.GadgetParametersLiteral[T]) M {
	return M{"b": zu(uint64(g.Base)), "l": g.Level}
}

func gadPar[T tfhe.TorusInt](g tfhe.GadgetParameters[T]) M {
	r := M{"b": zu(uint64(g.Base())), "lb": g.LogBase(), "l": g.Level(), "first": zu(uint64(g.FirstBaseQ())), "last": zu(uint64(g.LastBaseQ())),
		"lfirst": g.LogFirstBaseQ(), "llast": g.LogLastBaseQ()}
	bq, lbq := []M{}, []int{}
	for i := 0; i < g.Level(); i++ {
		bq = append(bq, zu(uint64(g.BaseQ(i))))
		lbq = append(lbq, g.LogBaseQ(i))
	}
	r["bq"], r["lbq"] = bq, lbq
	return r
}

func coreLit[T tfhe.TorusInt](l tfhe.ParametersLiteral[T]) M {
	return M{"n": l.LWEDimension, "k": l.GLWERank, "N": l.PolyRank, "lut": l.LUTSize, "ls": flt(l.LWEStdDev), "lg": flt(l.GLWEStdDev),
		"blk": l.BlockSize, "p": zu(uint64(l.MessageModulus)), "br": gadLit(l.BlindRotateParams), "ks": gadLit(l.KeySwitchParams), "ord": int(l.BootstrapOrder)}
}

type coreParams[T tfhe.TorusInt] interface {
	DefaultLWEDimension() int
	LWEDimension() int
	GLWEDimension() int
	GLWERank() int
	PolyRank() int
	LogPolyRank() int
	DefaultLWEStdDev() float64
	DefaultLWEStdDevQ() float64
	LWEStdDev() float64
	LWEStdDevQ() float64
	GLWEStdDev() float64
	GLWEStdDevQ() float64
	BlockSize() int
	BlockCount() int
	Scale() T
	MessageModulus() T
	LogQ() int
	BlindRotateParams() tfhe.GadgetParameters[T]
	KeySwitchParams() tfhe.GadgetParameters[T]
	BootstrapOrder() tfhe.BootstrapOrder
}

func derived[T tfhe.TorusInt](p coreParams[T]) M {
	return M{"dn": p.DefaultLWEDimension(), "n": p.LWEDimension(), "kN": p.GLWEDimension(), "k": p.GLWERank(), "N": p.PolyRank(), "logN": p.LogPolyRank(),
		"ds": flt(p.DefaultLWEStdDev()), "dsq": flt(p.DefaultLWEStdDevQ()), "ls": flt(p.LWEStdDev()), "lsq": flt(p.LWEStdDevQ()), "lg": flt(p.GLWEStdDev()), "lgq": flt(p.GLWEStdDevQ()),
		"blk": p.BlockSize(), "cnt": p.BlockCount(), "scale": zu(uint64(p.Scale())), "p": zu(uint64(p.MessageModulus())), "logq": p.LogQ(),
		"br": gadPar(p.BlindRotateParams()), "ks": gadPar(p.KeySwitchParams()), "ord": int(p.BootstrapOrder())}
}

func derivedCore[T tfhe.TorusInt](p tfhe.Parameters[T]) M {
	d := derived[T](p)
	d["lut"], d["ext"], d["pub"] = p.LUTSize(), p.LUTExtendFactor(), b2i(p.IsPublicKeyEncryptable())
	return d
}

func pickI(r *rand.Rand, v ...int) int { return v[r.Intn(len(v))] }

// mutateLit changes a few fields of a literal to boundary values.
func mutateGad[T tfhe.TorusInt](r *rand.Rand, g *tfhe.GadgetParametersLiteral[T]) {
	w := logQ[T]()
	switch r.Intn(5) {
	case 0:
		g.Base = T(pickI(r, 0, 1, 2, 3, 4, 6, 7, 8, 100, 1023, 1024))
	case 1:
		g.Level = pickI(r, -1, 0, 1, 2, w)
	case 2:
		g.Base = T(1) << r.Intn(w)
		g.Level = 1 + r.Intn(6)
	case 3: // near the limit logBase * level = w
		lb := 1 + r.Intn(w-1)
		g.Base = T(1) << lb
		g.Level = w/lb + r.Intn(2)
	case 4:
		g.Base = (T(1) << r.Intn(w)) + T(r.Intn(3)) - 1
	}
}

func mutateCore[T tfhe.TorusInt](r *rand.Rand, l *tfhe.ParametersLiteral[T]) {
	w := logQ[T]()
	switch r.Intn(13) {
	case 0:
		l.LWEDimension = pickI(r, -1, 0, 1, 2, l.GLWERank*l.PolyRank-1, l.GLWERank*l.PolyRank, l.GLWERank*l.PolyRank+1)
	case 1:
		l.GLWERank = pickI(r, -1, 0, 1, 2, 3, 7)
	case 2:
		l.PolyRank = pickI(r, -32, -16, 0, 16, 17, 24, 31, 32, 33, 48, 64, 100, 1024)
	case 3:
		l.LUTSize = pickI(r, 0, l.PolyRank-1, l.PolyRank, l.PolyRank+1, 2*l.PolyRank, 3*l.PolyRank, l.PolyRank/2, 5*l.PolyRank+2, -l.PolyRank)
	case 4:
		l.LWEStdDev = []float64{0, -1, math.Exp2(-float64(r.Intn(70))), math.Exp2(-20) * 3, -math.Exp2(-30)}[r.Intn(5)]
	case 5:
		l.GLWEStdDev = []float64{0, -1, math.Exp2(-float64(r.Intn(70))), math.Exp2(-20) * 3, -math.Exp2(-30)}[r.Intn(5)]
	case 6:
		l.BlockSize = pickI(r, -1, 0, 1, 2, 3, 5, l.LWEDimension, l.LWEDimension+1)
	case 7, 8:
		l.MessageModulus = []T{1, 2, 3, 5, 6, 7, 15, 16, 17, T(r.Intn(1000) + 1), T(1) << r.Intn(w), T(1) << (w - 1), (T(1) << (w - 1)) - 1, ^T(0), T(1)<<r.Intn(w) + 1}[r.Intn(15)]
	case 9:
		mutateGad(r, &l.BlindRotateParams)
	case 10:
		mutateGad(r, &l.KeySwitchParams)
	case 11, 12:
		l.BootstrapOrder = tfhe.BootstrapOrder(pickI(r, 0, 1, 1, 0, 2, -1, 7))
	}
}

func runParamsT[T tfhe.TorusInt](c *Ctx, logq int) {
	r := c.Rng
	w := logQ[T]()
	core := func(l tfhe.ParametersLiteral[T], preset bool) {
		ev := M{"ev": "core", "w": w, "lit": coreLit(l), "preset": preset}
		st, msg := Try(func() {
			p := l.Compile()
			ev["d"] = derivedCore(p)
			ev["lit2"] = coreLit(p.Literal())
			ev["same"] = c.FP(p.Literal().Compile()) == c.FP(p)
		})
		ev["st"], ev["msg"] = st, msg
		c.Balance()
		c.Emit(ev)
	}
	gad := func(g tfhe.GadgetParametersLiteral[T]) {
		ev := M{"ev": "gadget", "w": w, "lit": gadLit(g)}
		st, msg := Try(func() {
			p := g.Compile()
			ev["d"] = gadPar(p)
			ev["lit2"] = gadLit(p.Literal())
			ev["same"] = c.FP(p.Literal().Compile()) == c.FP(p)
		})
		ev["st"], ev["msg"] = st, msg
		c.Balance()
		c.Emit(ev)
	}
	mk := func(l mktfhe.ParametersLiteral[T]) {
		ev := M{"ev": "mk", "w": w, "lit": M{"sub": coreLit(l.SubParams), "cnt": l.PartyCount, "acc": gadLit(l.AccumulatorParams), "rlk": gadLit(l.RelinKeyParams)}}
		st, msg := Try(func() {
			p := l.Compile()
			d := derived[T](p)
			d["cnt2"] = p.PartyCount()
			d["acc"], d["rlk"] = gadPar(p.AccumulatorParameters()), gadPar(p.RelinKeyParameters())
			ev["d"], ev["sub"] = d, derivedCore(p.SubParams())
			q := p.Literal()
			ev["lit2"] = M{"sub": coreLit(q.SubParams), "cnt": q.PartyCount, "acc": gadLit(q.AccumulatorParams), "rlk": gadLit(q.RelinKeyParams)}
			ev["same"] = c.FP(q.Compile()) == c.FP(p)
		})
		ev["st"], ev["msg"] = st, msg
		c.Balance()
		c.Emit(ev)
	}
	xt := func(kind string, base tfhe.ParametersLiteral[T], a int, fs []float64, gs []tfhe.GadgetParametersLiteral[T]) {
		fl, gl := []M{}, []M{}
		for _, f := range fs {
			fl = append(fl, flt(f))
		}
		for _, g := range gs {
			gl = append(gl, gadLit(g))
		}
		ev := M{"ev": "ext", "kind": kind, "w": w, "base": coreLit(base), "a": a, "fs": fl, "gs": gl}
		st, msg := Try(func() {
			switch kind {
			case "manylut":
				p := xtfhe.ManyLUTParametersLiteral[T]{BaseParams: base, LUTCount: a}.Compile()
				ev["d"], ev["o"] = derivedCore(p.BaseParams()), M{"a": p.LUTCount(), "loga": p.LogLUTCount()}
			case "fhew":
				p := xtfhe.FHEWParametersLiteral[T]{BaseParams: base, SecretKeyStdDev: fs[0], WindowSize: a}.Compile()
				ev["d"], ev["o"] = derivedCore(p.BaseParams()), M{"a": p.WindowSize(), "fs": []M{flt(p.SecretKeyStdDev())}, "fq": []M{flt(p.SecretKeyStdDevQ())}}
			case "sanitize":
				p := xtfhe.SanitizationParametersLiteral[T]{BaseParams: base, RandSigma: fs[0], RandTau: fs[1], LinEvalSigma: fs[2], LinEvalTau: fs[3]}.Compile()
				ev["d"], ev["o"] = derivedCore(p.BaseParams()), M{
					"fs": []M{flt(p.RandSigma()), flt(p.RandTau()), flt(p.LinEvalSigma()), flt(p.LinEvalTau())},
					"fq": []M{flt(p.RandSigmaQ()), flt(p.RandTauQ()), flt(p.LinEvalSigmaQ()), flt(p.LinEvalTauQ())}}
			case "cboot":
				p := xtfhe.CircuitBootstrapParametersLiteral[T]{ManyLUTParams: xtfhe.ManyLUTParametersLiteral[T]{BaseParams: base, LUTCount: a},
					SchemeSwitchParams: gs[0], TraceKeySwitchParams: gs[1], OutputParams: gs[2]}.Compile()
				ev["d"], ev["o"] = derivedCore(p.BaseParams()), M{"a": p.ManyLUTParams().LUTCount(), "loga": p.ManyLUTParams().LogLUTCount(),
					"gs": []M{gadPar(p.SchemeSwitchParams()), gadPar(p.TraceKeySwitchParams()), gadPar(p.OutputParams())}}
			}
		})
		ev["st"], ev["msg"] = st, msg
		c.Balance()
		c.Emit(ev)
	}

	base := func() tfhe.ParametersLiteral[T] {
		l := literal[T](objShape(logq, r.Intn(5)))
		if r.Intn(4) == 0 {
			l.MessageModulus = T(1 + r.Intn(5000))
		}
		return l
	}
	nm := func() int { return pickI(r, 0, 1, 1, 1, 2, 3) }
	for i := 0; i < c.Pick(400, 4000); i++ {
		l := base()
		for j := nm(); j > 0; j-- {
			mutateCore(r, &l)
		}
		core(l, false)
		g := tfhe.GadgetParametersLiteral[T]{Base: T(1) << (1 + r.Intn(8)), Level: 1 + r.Intn(5)}
		for j := nm(); j > 0; j-- {
			mutateGad(r, &g)
		}
		gad(g)
	}
	for i := 0; i < c.Pick(250, 2500); i++ {
		l := mkLiteral[T](logq, r.Intn(30))
		for j := nm(); j > 0; j-- {
			switch r.Intn(6) {
			case 0:
				l.PartyCount = pickI(r, -3, -1, 0, 1, 2, 3, 5, 9)
			case 1:
				mutateGad(r, &l.AccumulatorParams)
			case 2:
				mutateGad(r, &l.RelinKeyParams)
			case 3:
				l.SubParams.GLWERank = pickI(r, 1, 2, 3)
			case 4:
				l.SubParams.LUTSize = pickI(r, 0, 1, 2, 3) * l.SubParams.PolyRank
			default:
				mutateCore(r, &l.SubParams)
			}
		}
		mk(l)
		// extensions
		b := literal[T](objShape(logq, r.Intn(2)))
		b.LUTSize = 0
		switch r.Intn(4) {
		case 0:
			b.BlockSize = 1
		case 1:
			b.GLWERank = 1
			b.BootstrapOrder = 0
		}
		if r.Intn(2) == 0 {
			for j := nm(); j > 0; j-- {
				mutateCore(r, &b)
			}
		}
		sd := func() float64 {
			if r.Intn(5) == 0 {
				return []float64{0, -1, -math.Exp2(-40)}[r.Intn(3)]
			}
			return math.Exp2(-float64(20 + r.Intn(20)))
		}
		xt("manylut", b, pickI(r, 1, 2, 3, 4, 5, 6, 8, 12, 16, 0, -1, -2, -4), nil, nil)
		b2 := b
		if r.Intn(3) > 0 {
			b2.BlockSize = 1
		}
		// far below or far above the bound 2^ShortLogBound / (12 Q)
		ks := []float64{math.Exp2(float64(8-w) - 5 - float64(r.Intn(20))), math.Exp2(float64(8-w) - 3 + float64(r.Intn(20))), 0, -1}[pickI(r, 0, 0, 0, 1, 2, 3)]
		xt("fhew", b2, pickI(r, 1, 2, 5, 10, 0, -1, 1, 3), []float64{ks}, nil)
		b3 := b
		if r.Intn(3) > 0 {
			b3.GLWERank, b3.BootstrapOrder = 1, 0
		}
		xt("sanitize", b3, 0, []float64{sd(), sd(), sd(), sd()}, nil)
		gs := make([]tfhe.GadgetParametersLiteral[T], 3)
		for k := range gs {
			gs[k] = tfhe.GadgetParametersLiteral[T]{Base: T(1) << (1 + r.Intn(6)), Level: 1 + r.Intn(4)}
			if r.Intn(8) == 0 {
				mutateGad(r, &gs[k])
			}
		}
		xt("cboot", b, pickI(r, 1, 2, 3, 4, 8, 6, 0, -1), nil, gs)
	}
	for i := 0; i < c.Pick(60, 600); i++ {
		withT(c, base(), w)
		withT(c, tfhe.GadgetParametersLiteral[T]{Base: T(1) << (1 + r.Intn(8)), Level: 1 + r.Intn(5)}, w)
		withT(c, mkLiteral[T](logq, r.Intn(30)), w)
	}
}

// withT calls every With method of a literal with an arbitrary value.
func withT(c *Ctx, l any, w int) {
	v := reflect.ValueOf(l)
	fields := func(x reflect.Value) M {
		m := M{}
		var walk func(reflect.Value)
		walk = func(x reflect.Value) {
			for i := 0; i < x.NumField(); i++ {
				n := x.Type().Field(i).Name
				if n == "SubParams" {
					walk(x.Field(i))
					continue
				}
				m[n] = c.FP(x.Field(i).Interface())
			}
		}
		walk(x)
		return m
	}
	for i := 0; i < v.NumMethod(); i++ {
		n := v.Type().Method(i).Name
		if len(n) < 5 || n[:4] != "With" {
			continue
		}
		m := v.Method(i)
		if m.Type().NumIn() != 1 {
			continue
		}
		arg := reflect.New(m.Type().In(0))
		switch arg.Elem().Kind() {
		case reflect.Int:
			arg.Elem().SetInt(int64(c.Rng.Intn(1 << 20)))
		case reflect.Float64:
			arg.Elem().SetFloat(c.Rng.Float64())
		case reflect.Uint32, reflect.Uint64:
			arg.Elem().SetUint(uint64(c.Rng.Intn(1 << 20)))
		default:
			randFill(c.Rng, arg)
		}
		ev := M{"ev": "with", "field": n[4:], "before": fields(v), "arg": c.FP(arg.Elem().Interface()), "after": M{}, "orig": 0}
		f0 := c.FP(l)
		st, _ := Try(func() { ev["after"] = fields(m.Call([]reflect.Value{arg.Elem()})[0]) })
		ev["st"], ev["intact"] = st, f0 == c.FP(l)
		c.Balance()
		c.Emit(ev)
	}
}

// runPresets compiles every exported parameter set.
func runPresets(c *Ctx) {
	emit := func(kind, name string, f func() M) {
		ev := M{"ev": "preset", "kind": kind, "name": name, "d": M{"scale": zu(1), "p": zu(1), "logq": 0, "log2fail": 0}}
		st, msg := Try(func() { ev["d"] = f() })
		ev["st"], ev["msg"] = st, msg
		c.Balance()
		c.Emit(ev)
	}
	for n, l := range map[string]tfhe.ParametersLiteral[uint32]{"Binary": tfhe.ParamsBinary, "BinaryCompact": tfhe.ParamsBinaryCompact, "BinaryOriginal": tfhe.ParamsBinaryOriginal} {
		emit("core", n, func() M { return presetD(l.Compile()) })
	}
	for n, l := range map[string]tfhe.ParametersLiteral[uint64]{"Uint2": tfhe.ParamsUint2, "Uint3": tfhe.ParamsUint3, "Uint4": tfhe.ParamsUint4, "Uint5": tfhe.ParamsUint5,
		"Uint6": tfhe.ParamsUint6, "Uint7": tfhe.ParamsUint7, "Uint8": tfhe.ParamsUint8} {
		emit("core", n, func() M { return presetD(l.Compile()) })
	}
	for n, l := range map[string]mktfhe.ParametersLiteral[uint64]{"Party2": mktfhe.ParamsBinaryParty2, "Party4": mktfhe.ParamsBinaryParty4, "Party8": mktfhe.ParamsBinaryParty8,
		"Party16": mktfhe.ParamsBinaryParty16, "Party32": mktfhe.ParamsBinaryParty32} {
		emit("mk", n, func() M { p := l.Compile(); d := presetD(p.SubParams()); d["cnt"] = p.PartyCount(); return d })
	}
	for n, l := range map[string]xtfhe.ManyLUTParametersLiteral[uint64]{"Uint2LUT4": xtfhe.ParamsUint2LUT4, "Uint3LUT2": xtfhe.ParamsUint3LUT2} {
		emit("manylut", n, func() M { p := l.Compile(); d := presetD(p.BaseParams()); d["cnt"] = p.LUTCount(); return d })
	}
	for n, l := range map[string]xtfhe.ManyLUTParametersLiteral[uint32]{"BinaryLUT2": xtfhe.ParamsBinaryLUT2, "BinaryCompactLUT2": xtfhe.ParamsBinaryCompactLUT2} {
		emit("manylut", n, func() M { p := l.Compile(); d := presetD(p.BaseParams()); d["cnt"] = p.LUTCount(); return d })
	}
	emit("fhew", "FHEWBinary", func() M { return presetD(xtfhe.ParamsFHEWBinary.Compile().BaseParams()) })
	emit("sanitize", "SanitizeBinary", func() M { return presetD(xtfhe.ParamsSanitizeBinary.Compile().BaseParams()) })
	emit("cboot", "CircuitBootstrapMedium", func() M { return presetD(xtfhe.ParamsCircuitBootstrapMedium.Compile().BaseParams()) })
	emit("cboot", "CircuitBootstrapLarge", func() M { return presetD(xtfhe.ParamsCircuitBootstrapLarge.Compile().BaseParams()) })
	emit("gadget", "BFVKeySwitchLogN11", func() M {
		g := xtfhe.ParamsBFVKeySwitchLogN11.Compile()
		return M{"scale": zu(uint64(g.LastBaseQ())), "p": zu(1), "logq": 64, "log2fail": -1000}
	})
}

func presetD[T tfhe.TorusInt](p tfhe.Parameters[T]) M {
	f := -1000
	if x := p.EstimateFailureProbability(); x > 0 {
		f = int(math.Floor(math.Log2(x)))
	}
	return M{"scale": zu(uint64(p.Scale())), "p": zu(uint64(p.MessageModulus())), "logq": p.LogQ(), "log2fail": f}
}

func init() {
	drivers["params"] = func(c *Ctx) {
		runParamsT[uint64](c, 64)
		runParamsT[uint32](c, 32)
		runPresets(c)
	}
}
