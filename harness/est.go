package main

import (
	"math"

	"github.com/sp301415/tfhe-go/tfhe"
)

// estShape measures the errors of modulus switching, key switching and blind rotation of one parameter set against
// the estimates that the compiled parameters report. Each measured error is emitted in units of 1/64 of the estimate.
func estShape[T tfhe.TorusInt](c *Ctx, name string, l tfhe.ParametersLiteral[T], keys, reps int, fft bool) {
	p := l.Compile()
	n, k, N, L := p.LWEDimension(), p.GLWERank(), p.PolyRank(), p.LUTSize()
	q := math.Exp2(float64(p.LogQ()))
	signed := func(x T) float64 {
		f := float64(x)
		if f >= q/2 {
			f -= q
		}
		return f
	}
	unit := func(err, est float64) int {
		return int(math.Round(math.Max(-1<<10, math.Min(1<<10, err/est*64))))
	}
	var ms, ks, br []int
	for key := 0; key < keys; key++ {
		enc := tfhe.NewEncryptor(p)
		ev := tfhe.NewEvaluator(p, enc.GenEvalKeyParallel())
		sk := enc.SecretKey
		s := sk.LWELargeKey.Value
		phase := func(v []T, dim int) T {
			x := v[0]
			for i := 0; i < dim; i++ {
				x += v[i+1] * s[i]
			}
			return x
		}
		fill := func(dim int) tfhe.LWECiphertext[T] {
			ct := tfhe.NewLWECiphertextCustom[T](dim)
			for i := range ct.Value {
				ct.Value[i] = T(c.Rng.Uint64())
			}
			return ct
		}
		lut := tfhe.NewLUT(p)
		for r := 0; r < reps; r++ {
			if k*N > n {
				for i := 0; i < 32; i++ {
					in := fill(k * N)
					out := tfhe.NewLWECiphertextCustom[T](n)
					ev.DefaultKeySwitchTo(out, in)
					ks = append(ks, unit(signed(phase(out.Value, n)-phase(in.Value, k*N)), p.EstimateDefaultKeySwitchStdDev()))
				}
			}
			ct := fill(n)
			rot := 0.0
			for i := 0; i < 32; i++ {
				x := fill(n)
				if i == 31 {
					x = ct
				}
				m := float64(ev.ModSwitch(x.Value[0]))
				for j := 0; j < n; j++ {
					m += float64(ev.ModSwitch(x.Value[j+1])) * float64(s[j])
				}
				rot = math.Mod(m, float64(2*L))
				d := rot*q/float64(2*L) - float64(phase(x.Value, n))
				d -= math.Round(d/q) * q
				ms = append(ms, unit(d, p.EstimateModSwitchStdDev()))
			}
			raw := make([]T, L)
			for j := range raw {
				raw[j] = T(c.Rng.Uint64())
				lut.Value[j%(L/N)].Coeffs[j/(L/N)] = raw[j]
			}
			out := ev.BlindRotate(ct, lut)
			pt := enc.DecryptGLWEPhase(out)
			// coefficient j of the result is entry j*(L/N) + rot of the table, with the sign of the wraps
			for j := 0; j < N; j++ {
				x := (j*(L/N) + int(rot)) % (2 * L)
				want := raw[x%L]
				if x >= L {
					want = -want
				}
				br = append(br, unit(signed(pt.Value.Coeffs[j]-want), p.EstimateBlindRotateStdDev()))
			}
		}
	}
	emit := func(kind string, v []int) {
		for len(v) > 1000 { // a thousand of them, spread over keys and coefficients
			step, w := len(v)/1000+1, []int{}
			for i := 0; i < len(v); i += step {
				w = append(w, v[i])
			}
			v = w
		}
		if len(v) > 0 {
			c.Emit(M{"ev": "err", "shape": name, "kind": kind, "fft": fft, "v": v})
			c.Balance()
		}
	}
	emit("ms", ms)
	emit("ks", ks)
	emit("br", br)
}

// estFormula records how the reported figures are related: parts of the total variance in 1/10000, the decoding bound in
// thousandths of the total deviation, and the failure probability as 16 times its negative binary logarithm.
func estFormula[T tfhe.TorusInt](c *Ctx, p tfhe.Parameters[T]) {
	t := p.EstimateMaxErrorStdDev()
	sq := func(x float64) int { return int(math.Round(1e4 * (x / t) * (x / t))) }
	u := math.Exp2(float64(p.LogQ())) / (4 * float64(p.MessageModulus())) / t
	f := p.EstimateFailureProbability()
	lf := 1 << 20
	if f > 0 {
		lf = int(math.Round(-16 * math.Log2(f)))
	}
	c.Emit(M{"ev": "fig", "ms": sq(p.EstimateModSwitchStdDev()), "ks": sq(p.EstimateDefaultKeySwitchStdDev()), "br": sq(p.EstimateBlindRotateStdDev()),
		"u": int(math.Round(1000 * math.Min(u, 1e5))), "lf": lf})
	c.Balance()
}

func runEst(c *Ctx) {
	base := func() tfhe.ParametersLiteral[uint64] {
		return tfhe.ParametersLiteral[uint64]{LWEDimension: 64, GLWERank: 1, PolyRank: 256, LWEStdDev: math.Exp2(-50), GLWEStdDev: math.Exp2(-60), BlockSize: 4, MessageModulus: 4,
			BlindRotateParams: tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 8, Level: 2}, KeySwitchParams: tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 4, Level: 3}}
	}
	K, R := c.Pick(8, 40), 4
	sz := func(x int) int { return x * (1 + c.Rng.Intn(2)) }
	a := base()
	estShape(c, "round", a, K, R, false)
	a.BlockSize = 1
	estShape(c, "block1", a, K, R, false)
	a = base()
	a.LWEDimension, a.BlockSize = 256, 8
	estShape(c, "eqdim", a, K, R, false)
	a = base()
	a.GLWEStdDev, a.LWEStdDev = math.Exp2(-40), math.Exp2(-30)
	a.BlindRotateParams = tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 10, Level: 5}
	a.KeySwitchParams = tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 8, Level: 6}
	a.PolyRank = sz(128)
	estShape(c, "noise", a, K, R, false)
	a.GLWERank, a.BootstrapOrder, a.BlockSize = 2, tfhe.OrderBlindRotateKeySwitch, 2
	estShape(c, "noisek2", a, K, R, false)
	a = base()
	a.BlindRotateParams = tfhe.GadgetParametersLiteral[uint64]{Base: 1 << 20, Level: 3}
	estShape(c, "fft", a, K, R, true)
	a.LUTSize = sz(512)
	estShape(c, "fftext", a, K, R, true)
	estShape(c, "u32", tfhe.ParametersLiteral[uint32]{LWEDimension: 48, GLWERank: 2, PolyRank: 128, LWEStdDev: math.Exp2(-20), GLWEStdDev: math.Exp2(-28), BlockSize: 3, MessageModulus: 4,
		BlindRotateParams: tfhe.GadgetParametersLiteral[uint32]{Base: 1 << 6, Level: 3}, KeySwitchParams: tfhe.GadgetParametersLiteral[uint32]{Base: 1 << 4, Level: 4}}, K, R, false)
	for i := 0; i < c.Pick(60, 600); i++ {
		a := base()
		a.LWEDimension, a.PolyRank = 64*(1+c.Rng.Intn(12)), 1024<<c.Rng.Intn(2)
		a.GLWEStdDev, a.LWEStdDev = math.Exp2(-float64(30+c.Rng.Intn(30))), math.Exp2(-float64(15+c.Rng.Intn(20)))
		a.MessageModulus = uint64(2 + c.Rng.Intn(60))
		a.BlindRotateParams = tfhe.GadgetParametersLiteral[uint64]{Base: 1 << (4 + c.Rng.Intn(20)), Level: 1 + c.Rng.Intn(2)}
		a.KeySwitchParams = tfhe.GadgetParametersLiteral[uint64]{Base: 1 << (1 + c.Rng.Intn(7)), Level: 1 + c.Rng.Intn(8)}
		estFormula(c, a.Compile())
	}
	for _, l := range []tfhe.ParametersLiteral[uint64]{tfhe.ParamsUint2, tfhe.ParamsUint3, tfhe.ParamsUint4, tfhe.ParamsUint5, tfhe.ParamsUint6, tfhe.ParamsUint7, tfhe.ParamsUint8} {
		estFormula(c, l.Compile())
	}
	estFormula(c, tfhe.ParamsBinary.Compile())
}

func init() { drivers["est"] = runEst }
