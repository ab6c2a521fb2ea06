package main

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/sp301415/tfhe-go/mktfhe"
	"github.com/sp301415/tfhe-go/tfhe"
)

// ObjSpec makes objects of one type; k selects the shape.
type ObjSpec struct {
	Name string
	Make func(k int) any
	Live bool // contents come from the library (not overwritten)
}

// New makes an object of shape k with arbitrary contents.
func (o ObjSpec) New(r *rand.Rand, k int) any {
	v := o.Make(k)
	if !o.Live {
		Dirty(r, v)
	}
	return v
}

func ptrTo(v any) any {
	p := reflect.New(reflect.TypeOf(v))
	p.Elem().Set(reflect.ValueOf(v))
	return p.Interface()
}

func zeroPtr(v any) any { return reflect.New(reflect.TypeOf(v)).Interface() }

func objShape(logq, k int) Shape {
	sh := []Shape{
		{Dim: 4, Rank: 1, N: 16, Block: 2, P: 4}, {Dim: 3, Rank: 2, N: 16, Block: 1, P: 8, Order: 1}, {Dim: 32, Rank: 2, N: 16, Block: 4, P: 5},
		{Dim: 6, Rank: 3, N: 16, LUT: 32, Block: 3, P: 2, Order: 1}, {Dim: 5, Rank: 1, N: 32, LUT: 64, Block: 1, P: 7},
	}[k%5]
	sh.Name = fmt.Sprintf("o%d", k)
	sh.LogQ = logq
	sh.BRBase, sh.BRLevel = []int{4, 7, 2, 5, 1}[k%5], []int{2, 1, 3, 2, 4}[k%5]
	sh.KSBase, sh.KSLevel = []int{3, 6, 2, 5, 8}[k%5], []int{1, 2, 4, 3, 2}[k%5]
	sh.LogStdDev = -20 - k
	return sh
}

func mkLiteral[T tfhe.TorusInt](logq, k int) mktfhe.ParametersLiteral[T] {
	s := objShape(logq, k)
	s.Rank, s.LUT = 1, 0
	if s.Dim > s.N {
		s.Dim = s.N
	}
	b, lv := 3+k%4, 2+k%3
	return mktfhe.ParametersLiteral[T]{SubParams: literal[T](s), PartyCount: 2 + k%3,
		AccumulatorParams: tfhe.GadgetParametersLiteral[T]{Base: T(1) << b, Level: lv},
		RelinKeyParams:    tfhe.GadgetParametersLiteral[T]{Base: T(1) << (b + 1), Level: 1 + k%3}}
}

// serialObjs lists every serializable type.
func serialObjs[T tfhe.TorusInt](logq int) []ObjSpec {
	P := func(k int) tfhe.Parameters[T] { return literal[T](objShape(logq, k)).Compile() }
	MP := func(k int) mktfhe.Parameters[T] { return mkLiteral[T](logq, k).Compile() }
	G := func(k int) tfhe.GadgetParameters[T] {
		return tfhe.GadgetParametersLiteral[T]{Base: T(1) << (1 + k*3%7), Level: 1 + k%4}.Compile()
	}
	return []ObjSpec{
		{Name: "GadgetParameters", Make: func(k int) any { return G(k) }},
		{Name: "Parameters", Make: func(k int) any { return P(k) }},
		{Name: "LWESecretKey", Make: func(k int) any { return tfhe.NewLWESecretKeyCustom[T](1 + 7*k) }},
		{Name: "LWEPublicKey", Make: func(k int) any { return tfhe.NewLWEPublicKeyCustom[T](1+k%3, 16<<(k%2)) }},
		{Name: "LWEPlaintext", Make: func(k int) any {
			return *(ptrTo(tfhe.LWEPlaintext[T]{Value: ^T(0) - T(k)*12345}).(*tfhe.LWEPlaintext[T]))
		}},
		{Name: "LWECiphertext", Make: func(k int) any { return tfhe.NewLWECiphertextCustom[T](1 + 9*k) }},
		{Name: "LevCiphertext", Make: func(k int) any { return tfhe.NewLevCiphertextCustom(2+5*k, G(k)) }},
		{Name: "GSWCiphertext", Make: func(k int) any { return tfhe.NewGSWCiphertextCustom(1+3*k, G(k)) }},
		{Name: "GLWESecretKey", Make: func(k int) any { return tfhe.NewGLWESecretKey(P(k)) }},
		{Name: "GLWEPublicKey", Make: func(k int) any { return tfhe.NewGLWEPublicKeyCustom[T](1+k%3, 16<<(k%2)) }},
		{Name: "GLWEPlaintext", Make: func(k int) any { return tfhe.NewGLWEPlaintext(P(k)) }},
		{Name: "GLWECiphertext", Make: func(k int) any { return tfhe.NewGLWECiphertext(P(k)) }},
		{Name: "GLevCiphertext", Make: func(k int) any { return tfhe.NewGLevCiphertext(P(k), G(k)) }},
		{Name: "GGSWCiphertext", Make: func(k int) any { return tfhe.NewGGSWCiphertext(P(k), G(k)) }},
		{Name: "FFTGLWESecretKey", Make: func(k int) any { return tfhe.NewFFTGLWESecretKey(P(k)) }},
		{Name: "FFTGLWECiphertext", Make: func(k int) any { return tfhe.NewFFTGLWECiphertext(P(k)) }},
		{Name: "FFTGLevCiphertext", Make: func(k int) any { return tfhe.NewFFTGLevCiphertext(P(k), G(k)) }},
		{Name: "FFTGGSWCiphertext", Make: func(k int) any { return tfhe.NewFFTGGSWCiphertext(P(k), G(k)) }},
		{Name: "LWEKeySwitchKey", Make: func(k int) any { return tfhe.NewLWEKeySwitchKeyCustom(1+4*k, 2+3*k, G(k)) }},
		{Name: "GLWEKeySwitchKey", Make: func(k int) any { return tfhe.NewGLWEKeySwitchKeyCustom(1+k%3, 1+(k+1)%2, 16<<(k%2), G(k)) }},
		{Name: "BlindRotateKey", Make: func(k int) any { return tfhe.NewBlindRotateKey(P(k)) }},
		{Name: "EvaluationKey", Make: func(k int) any { return tfhe.NewEvaluationKey(P(k)) }},
		{Name: "SecretKey", Make: func(k int) any { return tfhe.NewSecretKey(P(k)) }},
		{Name: "PublicKey", Make: func(k int) any { return tfhe.NewPublicKeyCustom[T](1+k%3, 16<<(k%2)) }},
		{Name: "EvaluationKey/live", Live: true, Make: func(k int) any { return newEncryptor(P(k), "obj", int64(k)).GenEvalKey() }},
		{Name: "SecretKey/live", Live: true, Make: func(k int) any { return newEncryptor(P(k), "obj", int64(k)).SecretKey }},
		{Name: "mk.Parameters", Make: func(k int) any { return MP(k) }},
		{Name: "mk.LWECiphertext", Make: func(k int) any { return mktfhe.NewLWECiphertext(MP(k)) }},
		{Name: "mk.GLWECiphertext", Make: func(k int) any { return mktfhe.NewGLWECiphertext(MP(k)) }},
		{Name: "mk.UniEncryption", Make: func(k int) any { return mktfhe.NewUniEncryption(MP(k), G(k)) }},
		{Name: "mk.FFTGLWECiphertext", Make: func(k int) any { return mktfhe.NewFFTGLWECiphertext(MP(k)) }},
		{Name: "mk.FFTUniEncryption", Make: func(k int) any { return mktfhe.NewFFTUniEncryption(MP(k), G(k)) }},
		{Name: "mk.EvaluationKey", Make: func(k int) any { return mktfhe.NewEvaluationKey(MP(k)) }},
		{Name: "mk.EvaluationKey/live", Live: true, Make: func(k int) any { return mktfhe.NewEncryptor(MP(k), 1, []byte("obj")).GenEvalKey() }},
	}
}

func deref(p any) any { return reflect.ValueOf(p).Elem().Interface() }
