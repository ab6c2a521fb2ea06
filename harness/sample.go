package main

import (
	"fmt"
	"math"
	"reflect"

	"github.com/sp301415/tfhe-go/math/csprng"
	"github.com/sp301415/tfhe-go/math/num"
	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// ---------------------------------------------------------------- seeded streams

func hexs[T num.Integer](v []T) []string {
	r := make([]string, len(v))
	for i, x := range v {
		r[i] = fmt.Sprintf("%x", x)
	}
	return r
}

func mkSeed(c *Ctx) []byte {
	n := []int{0, 1, 15, 16, 31, 32, 33, 47, 48, 49, 64, 100, 300}[c.Rng.Intn(13)]
	b := make([]byte, n)
	c.Rng.Read(b)
	return b
}

// relatedSeeds returns seeds that differ from b in one place or in length.
func relatedSeeds(c *Ctx, b []byte) [][]byte {
	r := [][]byte{append(append([]byte{}, b...), 0)}
	if len(b) > 0 {
		x := append([]byte{}, b...)
		x[len(x)-1] ^= 1
		y := append([]byte{}, b...)
		y[0] ^= 128
		r = append(r, x, y, append([]byte{}, b[:len(b)-1]...))
		if len(b) > 32 {
			z := append([]byte{}, b...)
			z[32+c.Rng.Intn(len(b)-32)] ^= 4
			r = append(r, z)
			if len(b) > 33 {
				r = append(r, append([]byte{}, b[:32]...))
			}
		}
	}
	// seeds are distinct from the given one and from each other
	seen := map[string]bool{string(b): true}
	o := r[:0]
	for _, x := range r {
		if !seen[string(x)] {
			seen[string(x)] = true
			o = append(o, x)
		}
	}
	return o
}

func uniformStreams[T num.Integer](c *Ctx, name string) {
	c.Next()
	seed := mkSeed(c)
	given := append([]byte{}, seed...)
	bytes := num.ByteSizeT[T]()
	total := 8192/bytes*2 + 37 + c.Rng.Intn(50)
	if bytes == 1 {
		total = 8192 + 600
	}
	ref := csprng.NewUniformSamplerWithSeed[T](given)
	for i := range given {
		given[i] ^= 0x5a // the seed slice belongs to the caller
	}
	v := make([]T, total)
	for i := range v {
		v[i] = ref.Sample()
	}
	c.Emit(M{"ev": "ref", "t": name, "v": hexs(v)})
	for k := 0; k < 3; k++ {
		s := csprng.NewUniformSamplerWithSeed[T](append([]byte{}, seed...))
		c.Emit(M{"ev": "open"})
		pos := 0
		for pos < total {
			left := total - pos
			switch c.Rng.Intn(5) {
			case 0:
				c.Emit(M{"ev": "take", "op": "Sample", "v": hexs([]T{s.Sample()})})
				pos++
			case 1, 2:
				n := c.Rng.Intn(12)
				if n > left {
					n = left
				}
				o := make([]T, n)
				for i := range o {
					o[i] = T(c.Rng.Intn(100))
				}
				s.SampleVecTo(o)
				c.Emit(M{"ev": "take", "op": "SampleVecTo", "v": hexs(o)})
				pos += n
			case 3:
				n := []int{500, 1000, 1024, 1023, 2048, 4096, total}[c.Rng.Intn(7)]
				if k == 2 {
					n = total
				}
				if n > left {
					n = left
				}
				o := make([]T, n)
				s.SampleVecTo(o)
				c.Emit(M{"ev": "take", "op": "SampleVecTo", "v": hexs(o)})
				pos += n
			case 4:
				n := []int{16, 64, 256}[c.Rng.Intn(3)]
				if n > left {
					continue
				}
				p := poly.NewPoly[T](n)
				for i := range p.Coeffs {
					p.Coeffs[i] = T(i)
				}
				s.SamplePolyTo(p)
				c.Emit(M{"ev": "take", "op": "SamplePolyTo", "v": hexs(p.Coeffs)})
				pos += n
			}
		}
	}
	pre := 8 * 16 / bytes // 128 bytes
	for _, sd := range relatedSeeds(c, seed) {
		s := csprng.NewUniformSamplerWithSeed[T](sd)
		o := make([]T, pre)
		s.SampleVecTo(o)
		c.Emit(M{"ev": "other", "v": hexs(o)})
	}
	a, b := csprng.NewUniformSampler[T](), csprng.NewUniformSampler[T]()
	for _, s := range []*csprng.UniformSampler[T]{a, b} {
		o := make([]T, pre)
		s.SampleVecTo(o)
		c.Emit(M{"ev": "other", "v": hexs(o)})
	}
}

// script is a sequence of calls; two samplers of one seed must answer it alike.
func script[T num.Integer](c *Ctx, kind string, n int) []func(s any) []T {
	var r []func(s any) []T
	for i := 0; i < n; i++ {
		l := []int{0, 1, 2, 3, 7, 8, 63, 64, 65, 127, 128, 129, 200}[c.Rng.Intn(13)]
		N := []uint64{1, 2, 3, 5, 7, 10, 63, 64, 100, 127}[c.Rng.Intn(10)]
		bs := []int{1, 2, 3, 4, 5, 8}[c.Rng.Intn(6)]
		sd := []float64{0, 0.3, 1, 3.2, 1000}[c.Rng.Intn(5)]
		w := c.Rng.Intn(5)
		r = append(r, func(sa any) []T {
			switch s := sa.(type) {
			case *csprng.UniformSampler[T]:
				switch w {
				case 0:
					return []T{s.Sample()}
				case 1, 2:
					return []T{s.SampleN(T(N))}
				default:
					o := make([]T, l)
					s.SampleVecTo(o)
					return o
				}
			case *csprng.BinarySampler[T]:
				switch w {
				case 0:
					return []T{s.Sample()}
				case 1, 2:
					o := make([]T, l)
					s.SampleVecTo(o)
					return o
				case 3:
					p := poly.NewPoly[T](64)
					s.SamplePolyTo(p)
					return p.Coeffs
				default:
					o := make([]T, bs*(l%20))
					s.SampleBlockVecTo(o, bs)
					return o
				}
			case *csprng.GaussianSampler[T]:
				p := poly.NewPoly[T](16)
				switch w {
				case 0:
					return []T{s.Sample(sd)}
				case 1:
					o := make([]T, l)
					s.SampleVecTo(o, sd)
					return o
				case 2:
					s.SamplePolyTo(p, sd)
				case 3:
					s.SamplePolyAddTo(p, sd)
				default:
					s.SamplePolySubTo(p, sd)
				}
				return p.Coeffs
			}
			return nil
		})
	}
	return r
}

func scripted[T num.Integer](c *Ctx, name string) {
	c.Next()
	for _, kind := range []string{"uniform", "binary", "gaussian"} {
		seed := mkSeed(c)
		mk := func(sd []byte) any {
			switch kind {
			case "uniform":
				return csprng.NewUniformSamplerWithSeed[T](sd)
			case "binary":
				return csprng.NewBinarySamplerWithSeed[T](sd)
			}
			return csprng.NewGaussianSamplerWithSeed[T](sd, []float64{0, 1, 3.2}[c.Rng.Intn(3)])
		}
		sc := script[T](c, kind, 60)
		g := append([]byte{}, seed...)
		a := mk(g)
		b := mk(append([]byte{}, seed...))
		for i := range g {
			g[i]++
		}
		c.Emit(M{"ev": "script", "t": name, "k": kind})
		// a runs one or more steps ahead of b
		ia, ib := 0, 0
		for ib < len(sc) {
			if ia < len(sc) && (ia == ib || c.Rng.Intn(2) == 0) {
				c.Emit(M{"ev": "lead", "v": hexs(sc[ia](a))})
				ia++
			} else {
				c.Emit(M{"ev": "follow", "i": ib + 1, "v": hexs(sc[ib](b))})
				ib++
			}
		}
	}
}

// formsRun records what the plain, adding and subtracting forms of samplers with one seed do to a destination.
func formsRun[T num.Integer](c *Ctx, name string) {
	c.Next()
	w := width[T]()
	mask := ^uint64(0) >> (64 - w)
	limbs := func(v []T) (r [][]int) {
		for _, x := range v {
			r = append(r, Limbs(uint64(x)&mask))
		}
		return
	}
	for rep := 0; rep < 6; rep++ {
		seed := mkSeed(c)
		sd := []float64{0.6, 3.2, 100, 1 << 20}[c.Rng.Intn(4)]
		n := 16 << c.Rng.Intn(2)
		base := poly.NewPoly[T](n)
		for i := range base.Coeffs {
			base.Coeffs[i] = T(c.Rng.Uint64())
		}
		mk := func() *csprng.GaussianSampler[T] {
			return csprng.NewGaussianSamplerWithSeed[T](append([]byte{}, seed...), sd)
		}
		to, add, sub, vec := base.Copy(), base.Copy(), base.Copy(), base.Copy()
		mk().SamplePolyTo(to, sd)
		mk().SamplePolyAddTo(add, sd)
		mk().SamplePolySubTo(sub, sd)
		mk().SampleVecTo(vec.Coeffs, sd)
		one := make([]T, n)
		s := mk()
		for i := range one {
			one[i] = s.Sample(sd)
		}
		c.Emit(M{"ev": "forms", "t": name, "w": w, "base": limbs(base.Coeffs), "to": limbs(to.Coeffs), "add": limbs(add.Coeffs), "sub": limbs(sub.Coeffs), "vec": limbs(vec.Coeffs), "one": limbs(one)})
	}
}

// crsRun checks that parties share the reference string of their common seed.
func crsRun[T tfhe.TorusInt](c *Ctx) {
	c.Next()
	p := mkLiteral[T](logQ[T](), c.Rng.Intn(6)).Compile()
	seed := mkSeed(c)
	id := func(e *mktfhe.Encryptor[T]) []int {
		r := make([]int, len(e.CRS))
		for i := range e.CRS {
			r[i] = c.FP(e.CRS[i])
		}
		return r
	}
	c.Emit(M{"ev": "crsopen", "n": p.RelinKeyParameters().Level()})
	var first *mktfhe.Encryptor[T]
	for i := 0; i < p.PartyCount(); i++ {
		g := append([]byte{}, seed...)
		e := mktfhe.NewEncryptor(p, i, g)
		for j := range g {
			g[j] = 0
		}
		if i == 0 {
			first = e
		}
		c.Emit(M{"ev": "crs", "how": "NewEncryptor", "ids": id(e)})
		c.Emit(M{"ev": "crs", "how": "SafeCopy", "ids": id(e.SafeCopy())})
		c.Emit(M{"ev": "crs", "how": "WithKey", "ids": id(mktfhe.NewEncryptorWithKey(p, i, append([]byte{}, seed...), e.SecretKey))})
	}
	// operations leave the string unchanged
	first.GenCRSPublicKey()
	first.GenRelinKey()
	first.UniEncrypt([]int{1, 2}, p.RelinKeyParameters())
	first.EncryptGLWE([]int{1})
	c.Emit(M{"ev": "crs", "how": "after use", "ids": id(first)})
	for _, sd := range relatedSeeds(c, seed) {
		c.Emit(M{"ev": "crsother", "ids": id(mktfhe.NewEncryptor(p, 0, sd))})
	}
	b := mktfhe.NewBinaryEncryptor(p, 1, append([]byte{}, seed...))
	c.Emit(M{"ev": "crs", "how": "NewBinaryEncryptor", "ids": id(b.Encryptor)})
	// the mask of the public key derived from the reference string, identical for all parties
	for i := 0; i < 2; i++ {
		e := mktfhe.NewEncryptor(p, i, append([]byte{}, seed...))
		pk := e.GenCRSPublicKey()
		var r []int
		for k := range pk.Value {
			r = append(r, c.FP(pk.Value[k].Value[1]))
		}
		c.Emit(M{"ev": "crspk", "ids": r})
	}
}

func runStream(c *Ctx) {
	for r := 0; r < c.Pick(1, 8); r++ {
		uniformStreams[uint64](c, "uint64")
		uniformStreams[uint32](c, "uint32")
		uniformStreams[int64](c, "int64")
		uniformStreams[uint16](c, "uint16")
		uniformStreams[int32](c, "int32")
		uniformStreams[uint8](c, "uint8")
		uniformStreams[uint64](c, "uint64")
		uniformStreams[uint32](c, "uint32")
		scripted[uint64](c, "uint64")
		scripted[uint32](c, "uint32")
		scripted[int64](c, "int64")
		scripted[int](c, "int")
		scripted[uint8](c, "uint8")
		formsRun[uint64](c, "uint64")
		formsRun[uint32](c, "uint32")
		formsRun[int64](c, "int64")
		crsRun[uint64](c)
		crsRun[uint32](c)
	}
}

// ---------------------------------------------------------------- support and distribution

// chunked histogram of a sampler call; the specification knows the probabilities.
func hist(n int, k int, f func() []int) (h []int, out int) {
	h = make([]int, k)
	got := 0
	for got < n {
		for _, x := range f() {
			got++
			if x < 0 || x >= k {
				out++
			} else {
				h[x]++
			}
		}
	}
	return
}

func supUniform[T num.Integer](c *Ctx, name string, tag int) {
	s := csprng.NewUniformSamplerWithSeed[T](seedBytes("sup"+name, c.Seed*1000+int64(tag)))
	for _, N := range []int{1, 2, 3, 5, 7, 16, 33, 64, 100, 127} {
		h, out := hist(N*c.Pick(600, 5000), N, func() []int {
			return []int{int(s.SampleN(T(N)))}
		})
		c.Emit(M{"ev": "uni", "t": name, "N": N, "h": h, "out": out})
	}
	// top and low bits of full words
	var w int = num.SizeT[T]()
	for _, b := range []int{0, 1, w/2 - 1, w / 2, w - 2, w - 1} {
		h, out := hist(c.Pick(20000, 500000), 2, func() []int {
			return []int{int((uint64(s.Sample()) >> b) & 1)}
		})
		c.Emit(M{"ev": "uni", "t": name, "N": 2, "h": h, "out": out})
	}
}

// supBig: bounds near the word size, where the rejection bound matters.
func supBig(c *Ctx) {
	s := csprng.NewUniformSamplerWithSeed[uint64](seedBytes("big", c.Seed))
	for _, N := range []uint64{1 << 63, 1<<63 + 1, 3 << 62, math.MaxUint64, math.MaxUint64 - 1, 1<<62 + 12345} {
		h, out := hist(c.Pick(20000, 500000), 4, func() []int {
			x := s.SampleN(N)
			if x >= N {
				return []int{-1}
			}
			q := N / 4
			k := int(x / q)
			if k > 3 {
				k = 3
			}
			return []int{k}
		})
		c.Emit(M{"ev": "uni", "t": "uint64big", "N": 4, "h": h, "out": out})
	}
	s8 := csprng.NewUniformSamplerWithSeed[uint8](seedBytes("big8", c.Seed))
	for _, N := range []int{128, 129, 170, 200, 254, 255} {
		h, out := hist(N*c.Pick(400, 4000), N, func() []int { return []int{int(s8.SampleN(uint8(N)))} })
		c.Emit(M{"ev": "uni", "t": "uint8big", "N": N, "h": h, "out": out})
	}
	si := csprng.NewUniformSamplerWithSeed[int8](seedBytes("bigi8", c.Seed))
	for _, N := range []int{1, 2, 100, 126, 127} {
		h, out := hist(N*c.Pick(400, 4000), N, func() []int { return []int{int(si.SampleN(int8(N)))} })
		c.Emit(M{"ev": "uni", "t": "int8big", "N": N, "h": h, "out": out})
	}
}

func supBinary[T num.Integer](c *Ctx, name string) {
	s := csprng.NewBinarySamplerWithSeed[T](seedBytes("bin"+name, c.Seed))
	reps := c.Pick(1500, 20000)
	for _, n := range []int{1, 2, 63, 64, 65, 128, 130, 200} {
		ones := make([]int, n) // per position
		same := make([]int, n) // agreement with the position before (cyclically)
		bad := 0
		for r := 0; r < reps; r++ {
			v := make([]T, n)
			for i := range v {
				v[i] = 55
			}
			if r%2 == 0 {
				s.SampleVecTo(v)
			} else {
				s.SamplePolyTo(poly.Poly[T]{Coeffs: v})
			}
			for i, x := range v {
				if x != 0 && x != 1 {
					bad++
				}
				if x == 1 {
					ones[i]++
				}
				if x == v[(i+n-1)%n] {
					same[i]++
				}
			}
		}
		c.Emit(M{"ev": "bin", "t": name, "reps": reps, "ones": ones, "same": same, "bad": bad, "n": n})
	}
	h, out := hist(c.Pick(20000, 500000), 2, func() []int { return []int{int(s.Sample())} })
	c.Emit(M{"ev": "uni", "t": "bin" + name, "N": 2, "h": h, "out": out})
	for _, bs := range []int{1, 2, 3, 4, 5, 7, 11} {
		for _, blocks := range []int{1, 2, 9} {
			rp := c.Pick(3000, 30000)
			cnt := make([][]int, blocks)
			for i := range cnt {
				cnt[i] = make([]int, bs+1)
			}
			bad := 0
			for r := 0; r < rp; r++ {
				v := make([]T, bs*blocks)
				for i := range v {
					v[i] = 77
				}
				if r%2 == 0 {
					s.SampleBlockVecTo(v, bs)
				} else {
					s.SampleBlockPolyTo(poly.Poly[T]{Coeffs: v}, bs)
				}
				for b := 0; b < blocks; b++ {
					at := bs
					for i := 0; i < bs; i++ {
						switch v[b*bs+i] {
						case 0:
						case 1:
							if at != bs {
								bad++
							}
							at = i
						default:
							bad++
						}
					}
					cnt[b][at]++
				}
			}
			c.Emit(M{"ev": "blk", "t": name, "bs": bs, "reps": rp, "h": cnt, "bad": bad})
		}
	}
}

// gauss bins: 0 -> |x| class. Values are binned as round(x / sigma) clipped to [-13, 13].
func supGauss[T num.Integer](c *Ctx, name string, sigmas []float64) {
	s := csprng.NewGaussianSamplerWithSeed[T](seedBytes("gauss"+name, c.Seed), 1)
	for _, sd := range sigmas {
		for _, form := range []string{"Sample", "SampleVecTo", "SamplePolyTo", "SamplePolyAddTo", "SamplePolySubTo"} {
			n := c.Pick(60000, 1500000)
			h := make([]int, 27)
			out := 0
			for got := 0; got < n; {
				base := make([]T, 64)
				v := make([]T, 64)
				switch form {
				case "Sample":
					for i := range v {
						v[i] = s.Sample(sd)
					}
				case "SampleVecTo":
					s.SampleVecTo(v, sd)
				default:
					for i := range v {
						base[i] = T(c.Rng.Uint64())
						v[i] = base[i]
					}
					p := poly.Poly[T]{Coeffs: v}
					switch form {
					case "SamplePolyTo":
						base = make([]T, 64)
						s.SamplePolyTo(p, sd)
					case "SamplePolyAddTo":
						s.SamplePolyAddTo(p, sd)
					case "SamplePolySubTo":
						s.SamplePolySubTo(p, sd)
					}
				}
				for i := range v {
					d := signedT(v[i] - base[i])
					k := int(d)
					if sd == 0 {
						if d != 0 {
							k = 13
						}
					} else if sd != 1 && sd != 0.5 {
						k = int(math.Round(float64(d) / sd))
					}
					if k < -13 || k > 13 {
						out++
					} else {
						h[k+13]++
					}
					got++
				}
			}
			c.Emit(M{"ev": "gauss", "t": name, "form": form, "sd0": b2i(sd == 0), "half": b2i(sd == 0.5), "h": h, "out": out, "n": n})
		}
	}
	st, _ := Try(func() { s.Sample(-1) })
	c.Emit(M{"ev": "neg", "st": st})
}

func signedT[T num.Integer](x T) int64 {
	switch reflect.TypeOf(x).Kind() {
	case reflect.Uint8:
		return int64(int8(x))
	case reflect.Uint16:
		return int64(int16(x))
	case reflect.Uint32:
		return int64(int32(x))
	}
	return int64(x)
}

// supTail: finer histogram with unit-free thresholds k/4 sigma to catch wrong table entries.
func supTail(c *Ctx) {
	s := csprng.NewGaussianSamplerWithSeed[int64](seedBytes("tail", c.Seed), 1)
	sd := math.Exp2(40)
	n := c.Pick(20000000, 100000000)
	h := make([]int, 41)  // |x|/sigma in quarter steps, sign folded
	hp := make([]int, 41) // the positive ones among them
	pos, out := 0, 0
	for i := 0; i < n; i++ {
		x := float64(s.Sample(sd)) / sd
		if x > 0 {
			pos++
		}
		k := int(math.Abs(x) * 4)
		if k > 40 {
			out++
		} else {
			h[k]++
			if x > 0 {
				hp[k]++
			}
		}
	}
	c.Emit(M{"ev": "tail", "n": n, "h": h, "hp": hp, "pos": pos, "out": out})
}

// supCDT: the discrete Gaussian sampler of fixed centre and deviation; values relative to the floor of the centre.
func supCDT[T num.Integer](c *Ctx, name string, centers []float64) {
	for _, ce := range centers {
		for _, sd := range []float64{1, 1.5, 3.2} {
			s := xtfhe.NewCDTSampler[T](ce, sd)
			fl := math.Floor(ce)
			h, out := make([]int, 41), 0
			n := c.Pick(40000, 400000)
			for got := 0; got < n; got += 32 {
				base, v := make([]T, 32), make([]T, 32)
				sub := false
				switch f := (got / 32) % 5; f {
				case 0:
					for i := range v {
						v[i] = s.Sample()
					}
				case 1:
					s.SampleVecTo(v)
				case 2:
					Dirty(c.Rng, v)
					s.SamplePolyTo(poly.Poly[T]{Coeffs: v})
				default:
					for i := range v {
						base[i] = T(c.Rng.Uint64())
						v[i] = base[i]
					}
					if sub = f == 4; sub {
						s.SamplePolySubTo(poly.Poly[T]{Coeffs: v})
					} else {
						s.SamplePolyAddTo(poly.Poly[T]{Coeffs: v})
					}
				}
				for i := range v {
					d := signedT(v[i] - base[i])
					if sub {
						d = signedT(base[i] - v[i])
					}
					if k := d - int64(fl) + 20; k < 0 || k > 40 {
						out++
					} else {
						h[k]++
					}
				}
			}
			c.Emit(M{"ev": "cdt", "t": name, "c": fmt.Sprint(ce), "f": int(math.Round((ce - fl) * 1000)), "s": int(math.Round(sd * 10)), "h": h, "out": out, "n": n,
				"params": s.Center() == ce && s.StdDev() == sd})
		}
	}
}

func runCDT(c *Ctx) {
	supCDT[uint64](c, "uint64", []float64{0, -0.125, 0.5, 7, -3.5, 41.25, -1000, 70000.125})
	c.Next()
	supCDT[uint32](c, "uint32", []float64{-0.125, 0.25, -100.75, 300.5})
	supCDT[int64](c, "int64", []float64{0.25, -0.5, -30, 12345})
	c.Next()
	supCDT[int](c, "int", []float64{0.5, -25, 64})
}

func runSupport(c *Ctx) {
	supUniform[uint64](c, "uint64", 1)
	supUniform[uint32](c, "uint32", 2)
	supUniform[int64](c, "int64", 3)
	supUniform[uint16](c, "uint16", 4)
	supUniform[int](c, "int", 5)
	c.Next()
	supBig(c)
	c.Next()
	supBinary[uint64](c, "uint64")
	supBinary[uint32](c, "uint32")
	supBinary[int](c, "int")
	c.Next()
	supGauss[uint64](c, "uint64", []float64{0, 0.5, 1, 1000, math.Exp2(45)})
	supGauss[uint32](c, "uint32", []float64{0, 0.5, 1, 4000, math.Exp2(20)})
	supGauss[int](c, "int", []float64{1, 65536})
	c.Next()
	supTail(c)
}

func init() {
	drivers["stream"] = runStream
	drivers["cdt"] = runCDT
	drivers["support"] = runSupport
}
