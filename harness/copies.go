package main

import (
	"reflect"
	"unsafe"

	"github.com/sp301415/tfhe-go/math/poly"
	"github.com/sp301415/tfhe-go/tfhe"
)

// ranges lists the memory of every slice of numbers reachable from v.
func ranges(v reflect.Value, out *[][2]uintptr) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			ranges(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ranges(v.Field(i), out)
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Slice, reflect.Struct, reflect.Pointer:
			// The headers are storage too: reassigning an element must not be seen elsewhere.
			if v.Len() > 0 {
				p := v.Pointer()
				*out = append(*out, [2]uintptr{p, p + uintptr(v.Len())*v.Type().Elem().Size()})
			}
			for i := 0; i < v.Len(); i++ {
				ranges(v.Index(i), out)
			}
		default:
			if v.Len() > 0 {
				p := v.Pointer()
				*out = append(*out, [2]uintptr{p, p + uintptr(v.Len())*v.Type().Elem().Size()})
			}
		}
	}
}

func overlaps(a, b any) bool {
	var x, y [][2]uintptr
	ranges(reflect.ValueOf(a), &x)
	ranges(reflect.ValueOf(b), &y)
	for _, p := range x {
		for _, q := range y {
			if p[0] < q[1] && q[0] < p[1] {
				return true
			}
		}
	}
	return false
}

var _ unsafe.Pointer

func zeroFill(v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			zeroFill(v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Type().Field(i).Name != "GadgetParameters" && v.Type().Field(i).Name != "GadgetParams" {
				zeroFill(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			zeroFill(v.Index(i))
		}
	case reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(0)
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat(0)
		}
	}
}

// blankOf is the fingerprint of the object with all numbers zero.
func blankOf(c *Ctx, p any) int {
	z := ptrTo(deepCopy(deref(p)))
	zeroFill(reflect.ValueOf(z))
	return c.FP(deref(z))
}

func copyObjs[T tfhe.TorusInt](logq int) []ObjSpec {
	P := func(k int) tfhe.Parameters[T] { return literal[T](objShape(logq, k)).Compile() }
	r := []ObjSpec{
		{Name: "LookUpTable", Make: func(k int) any { return tfhe.NewLUT(P(k)) }},
		{Name: "Poly", Make: func(k int) any { return poly.NewPoly[T](16 << (k % 3)) }},
		{Name: "FFTPoly", Make: func(k int) any { return poly.NewFFTPoly(16 << (k % 3)) }},
	}
	for _, o := range serialObjs[T](logq) {
		if hasMethod(o.Make(0), "Copy") {
			r = append(r, o)
		}
	}
	return r
}

// regadget replaces the gadget parameters inside an object by others with as many levels.
func regadget[T tfhe.TorusInt](v reflect.Value, logBase int) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			regadget[T](v.Elem(), logBase)
		}
	case reflect.Struct:
		if g, ok := v.Interface().(tfhe.GadgetParameters[T]); ok {
			if v.CanSet() && g.Level() > 0 {
				for logBase*g.Level() > logQ[T]() {
					logBase--
				}
				v.Set(reflect.ValueOf(tfhe.GadgetParametersLiteral[T]{Base: T(1) << logBase, Level: g.Level()}.Compile()))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				regadget[T](v.Field(i), logBase)
			}
		}
	case reflect.Slice:
		switch v.Type().Elem().Kind() {
		case reflect.Slice, reflect.Struct:
			for i := 0; i < v.Len(); i++ {
				regadget[T](v.Index(i), logBase)
			}
		}
	}
}

// views emits what the views of a secret key say.
func secViews[T tfhe.TorusInt](o any) (vs [][]int, ok bool) {
	sk, is := deref(o).(tfhe.SecretKey[T])
	if !is {
		return [][]int{}, false
	}
	var g, f []int
	for _, p := range sk.GLWEKey.Value {
		g = append(g, ints(p.Coeffs)...)
	}
	trf := tfhe.NewGLWETransformer[T](sk.GLWEKey.Value[0].Rank())
	inv := trf.InvFFTGLWESecretKey(sk.FFTGLWEKey)
	for _, p := range inv.Value {
		f = append(f, ints(p.Coeffs)...)
	}
	return [][]int{ints(sk.LWELargeKey.Value), ints(sk.LWEKey.Value), g, f}, true
}

func runCopiesT[T tfhe.TorusInt](c *Ctx, logq int) {
	r := c.Rng
	for _, o := range copyObjs[T](logq) {
		for rep := 0; rep < c.Pick(3, 12); rep++ {
			k := (rep + r.Intn(2)) % 5
			c.Balance()
			hs := []any{}
			emit := func(op string, dst, src int) {
				fps, bl, ov, vw := []int{}, []int{}, [][]int{}, []M{}
				for i := range hs {
					fps = append(fps, c.FP(deref(hs[i])))
					bl = append(bl, blankOf(c, hs[i]))
					for j := 0; j < i; j++ {
						if overlaps(hs[i], hs[j]) {
							ov = append(ov, []int{j + 1, i + 1})
						}
					}
					if vs, ok := secViews[T](hs[i]); ok {
						vw = append(vw, M{"h": i + 1, "v": vs})
					}
				}
				c.Emit(M{"ev": "copy", "op": op, "ty": o.Name, "k": k, "dst": dst + 1, "src": src + 1, "st": "ok", "fps": fps, "blank": bl, "ov": ov, "views": vw})
			}
			fail := func(op string, msg string) {
				c.Emit(M{"ev": "copy", "op": op, "ty": o.Name, "k": k, "dst": 0, "src": 0, "st": "panic: " + msg, "fps": []int{}, "blank": []int{}, "ov": [][]int{}, "views": []M{}})
			}
			isSK := o.Name == "SecretKey" || o.Name == "SecretKey/live"
			fresh := func() any {
				if isSK {
					return ptrTo(newEncryptor(literal[T](objShape(logq, k)).Compile(), "copies", r.Int63()).SecretKey)
				}
				v := ptrTo(o.New(r, k))
				if r.Intn(2) == 0 {
					// another gadget of the same shape
					regadget[T](reflect.ValueOf(v), 1+r.Intn(8))
				}
				return v
			}
			hs = append(hs, fresh())
			emit("new", 0, -1)
			for step := 0; step < c.Pick(12, 30); step++ {
				src := r.Intn(len(hs))
				st, msg, op := "ok", "", ""
				dst := -1
				switch r.Intn(6) {
				case 0:
					if len(hs) >= 5 {
						continue
					}
					op, dst, src = "new", len(hs), -1
					hs = append(hs, fresh())
				case 1:
					if len(hs) >= 5 {
						continue
					}
					op, dst = "copy", len(hs)
					st, msg = Try(func() {
						hs = append(hs, ptrTo(reflect.ValueOf(hs[src]).MethodByName("Copy").Call(nil)[0].Interface()))
					})
				case 2, 3:
					op, dst = "copyfrom", r.Intn(len(hs))
					st, msg = Try(func() {
						reflect.ValueOf(hs[dst]).MethodByName("CopyFrom").Call([]reflect.Value{reflect.ValueOf(hs[src]).Elem()})
					})
				case 4:
					op, dst, src = "mutate", src, -1
					if isSK {
						mutateKey[T](r.Intn(4), r.Int(), hs[dst].(*tfhe.SecretKey[T]))
					} else {
						Dirty(r, hs[dst])
					}
				case 5:
					op, dst, src = "clear", src, -1
					st, msg = Try(func() { reflect.ValueOf(hs[dst]).MethodByName("Clear").Call(nil) })
				}
				if st != "ok" {
					fail(op, msg)
					break
				}
				emit(op, dst, src)
				if isSK && r.Intn(4) == 0 && len(hs) < 5 {
					// a copy through serialization: the receiver is an existing key
					st, msg = Try(func() {
						b, err := deref(hs[dst]).(tfhe.SecretKey[T]).MarshalBinary()
						if err != nil {
							panic(err)
						}
						q := fresh()
						if r.Intn(2) == 0 {
							q = &tfhe.SecretKey[T]{}
						}
						if err := q.(*tfhe.SecretKey[T]).UnmarshalBinary(b); err != nil {
							panic(err)
						}
						hs = append(hs, q)
					})
					if st != "ok" {
						fail("decode", msg)
						break
					}
					emit("copy", len(hs)-1, dst)
				}
			}
		}
	}
}

// mutateKey changes a secret key bit through one of its views and refreshes the transformed form.
func mutateKey[T tfhe.TorusInt](view, x int, sk *tfhe.SecretKey[T]) {
	switch view {
	case 0:
		sk.LWELargeKey.Value[x%len(sk.LWELargeKey.Value)] ^= 1
	case 1:
		sk.LWEKey.Value[x%len(sk.LWEKey.Value)] ^= 1
	default:
		p := sk.GLWEKey.Value[x%len(sk.GLWEKey.Value)]
		p.Coeffs[(x/7)%len(p.Coeffs)] ^= 1
	}
	tfhe.NewGLWETransformer[T](sk.GLWEKey.Value[0].Rank()).FwdFFTGLWESecretKeyTo(sk.FFTGLWEKey, sk.GLWEKey)
}

// runKeyConv: conversions between the LWE and the GLWE form of a key.
func runKeyConvT[T tfhe.TorusInt](c *Ctx, logq int) {
	r := c.Rng
	for rep := 0; rep < c.Pick(8, 40); rep++ {
		k := rep % 5
		p := literal[T](objShape(logq, k)).Compile()
		sk := newEncryptor(p, "conv", r.Int63()).SecretKey
		ev := M{"ev": "conv", "k": k, "rank": p.GLWERank(), "N": p.PolyRank(), "n": p.LWEDimension(), "views": [][]int{}, "as": []int{}, "asg": []int{}, "ov": false}
		st, _ := Try(func() {
			vs, _ := secViews[T](&sk)
			ev["views"] = vs
			l := sk.GLWEKey.AsLWEKey()
			l2 := tfhe.NewLWESecretKeyCustom[T](len(l.Value))
			Dirty(r, &l2)
			sk.GLWEKey.AsLWEKeyTo(l2)
			ev["as"], ev["as2"] = ints(l.Value), ints(l2.Value)
			ev["ov"] = overlaps(l, sk) || overlaps(l2, sk)
		})
		ev["st"] = st
		c.Balance()
		c.Emit(ev)
	}
}

func init() {
	drivers["copies"] = func(c *Ctx) {
		runCopiesT[uint64](c, 64)
		runCopiesT[uint32](c, 32)
		runKeyConvT[uint64](c, 64)
		runKeyConvT[uint32](c, 32)
	}
}
