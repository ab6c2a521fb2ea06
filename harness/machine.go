package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"github.com/sp301415/tfhe-go/math/poly"
	"math"
	"math/rand"
	"os"
	"reflect"
	"sync"

	"github.com/sp301415/tfhe-go/math/vec"
	"github.com/sp301415/tfhe-go/tfhe"
	"github.com/sp301415/tfhe-go/xtfhe"
)

// SlotCfg is a slot of a machine configuration.
type SlotCfg struct {
	N string `json:"n"`
	C string `json:"c"`
	V []int  `json:"v"`
	I int    `json:"i"`
}

// MachineCfg is a machine configuration, shared with the TLA+ specifications.
type MachineCfg struct {
	Kind    string    `json:"kind"`
	Shape   Shape     `json:"shape"`
	P       int       `json:"p"`
	N       int       `json:"N"`
	L       string    `json:"L"`
	S       string    `json:"S"`
	Slots   []SlotCfg `json:"slots"`
	Bits    bool      `json:"bits"`
	Ref     bool      `json:"refrun"`
	Eval    bool      `json:"evk"`
	Public  bool      `json:"public"`
	GPBase  int       `json:"gpbase"`
	GPLevel int       `json:"gplevel"`
	Parties int       `json:"parties"`
	Regs    []int     `json:"regs"`
	DRegs   []int     `json:"dregs"`
	RBase   int       `json:"rbase"`
	RLevel  int       `json:"rlevel"`
	ABase   int       `json:"abase"`
	ALevel  int       `json:"alevel"`
	KSG     [][]int   `json:"ksg"`
	Conc    int       `json:"conc"`
	LutCnt  int       `json:"lutcount"`
	Gals    []int     `json:"gals"`
	OBase   int       `json:"obase"`
	OLevel  int       `json:"olevel"`
	San     []int     `json:"san"`
	Window  int       `json:"window"`
	SKStd   float64   `json:"skstd"`
}

// Prog is a generated program.
type Prog struct {
	Ops []Op `json:"ops"`
}

func readProgs(path string) []Prog {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	var r []Prog
	for sc.Scan() {
		var p Prog
		if err := json.Unmarshal(sc.Bytes(), &p); err != nil {
			panic(err)
		}
		r = append(r, p)
	}
	return r
}

func readCfg(path string) MachineCfg {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var c MachineCfg
	if err := json.Unmarshal(b, &c); err != nil {
		panic(err)
	}
	return c
}

func runMachine(c *Ctx) {
	cfg := readCfg(c.Args[0])
	progs := readProgs(c.Progs)
	if cfg.Shape.LogQ == 32 {
		runMachineT[uint32](c, cfg, progs)
	} else {
		runMachineT[uint64](c, cfg, progs)
	}
}

type initer interface {
	Init()
}

func runMachineT[T tfhe.TorusInt](c *Ctx, cfg MachineCfg, progs []Prog) {
	var sys *Sys[T]
	var init func(*Sys[T])
	switch cfg.Kind {
	case "core", "bin":
		sys, init = coreSys[T](c, cfg)
	case "mk":
		sys, init = mkSys[T](c, cfg)
	case "bfv", "mlut", "cb", "san", "fhew":
		sys, init = xtSys[T](c, cfg)
	default:
		panic("unknown machine kind " + cfg.Kind)
	}
	if cfg.Conc > 1 {
		runConc(c, cfg, sys, init, progs)
		return
	}
	for i, p := range progs {
		c.Balance()
		sys.initEvent(cfg, i, init)
		sys.runProg(cfg, p)
	}
}

func (sys *Sys[T]) initEvent(cfg MachineCfg, i int, init func(*Sys[T])) {
	c := sys.C
	ev := M{"ev": "init", "prog": i}
	st, msg := Try(func() { init(sys) })
	ev["st"] = st
	if st != "ok" {
		ev["msg"] = msg
	}
	slots := []M{}
	fps := []int{}
	for _, n := range sys.Order {
		o := sys.Slots[n]
		v, nb := []int{}, 0
		if !isConstCls(o.Cls) {
			if st2, _ := Try(func() { v, nb = sys.Observe(o) }); st2 != "ok" {
				v = []int{-1}
			}
		} else {
			for _, sc := range cfg.Slots {
				if sc.N == n {
					v = sc.V
				}
			}
		}
		slots = append(slots, M{"n": n, "v": v, "nb": nb})
		fps = append(fps, c.FP(o.Val))
	}
	ev["regs"], ev["dregs"] = []int{}, []int{}
	if sys.InitF != nil {
		sys.InitF(ev)
	}
	ev["slots"], ev["fp"], ev["kfp"] = slots, fps, c.FP(sys.Guard...)
	c.Emit(ev)
}

func (sys *Sys[T]) runProg(cfg MachineCfg, p Prog) {
	for k := range p.Ops {
		sys.C.Stats["op:"+p.Ops[k].Op+p.Ops[k].Form]++
		if !sys.Exec(&p.Ops[k], cfg.Ref) {
			break // the rest of the program would only repeat the failure
		}
	}
}

// fork makes a system over the same keys whose receivers are safe copies of the receivers of s.
func (s *Sys[T]) fork(c *Ctx) *Sys[T] {
	n := *s
	n.C, n.Slots, n.Order = c, map[string]*Obj{}, nil
	n.trf, n.pe, n.encd = tfhe.NewGLWETransformer[T](s.Shape.N), poly.NewEvaluator[T](s.Shape.N), tfhe.NewEncoder(s.P)
	n.Recv, n.Fresh = map[string]func() any{}, map[string]func() any{}
	for k, f := range s.Fresh {
		n.Fresh[k] = f
	}
	for k, f := range s.Recv {
		if r := f(); r != nil {
			cp := reflect.ValueOf(r).MethodByName("SafeCopy").Call(nil)[0].Interface()
			n.Recv[k] = func() any { return cp }
		}
	}
	if s.ForkF != nil {
		s.ForkF(&n)
	}
	return &n
}

// runConc runs programs concurrently, each goroutine on the original receivers or on safe copies of them; every goroutine
// records its own trace.
func runConc[T tfhe.TorusInt](c *Ctx, cfg MachineCfg, sys *Sys[T], init func(*Sys[T]), progs []Prog) {
	W := cfg.Conc
	ctxs := make([]*Ctx, W)
	for w := range ctxs {
		ctxs[w] = &Ctx{Seed: c.Seed, Tier: c.Tier, Rng: rand.New(rand.NewSource(c.Seed + int64(w))), OutBase: fmt.Sprintf("%s.%d", c.OutBase, w),
			Shards: 1, Variant: c.Variant, ids: map[uint64]int{}, Stats: map[string]int{}}
		ctxs[w].open()
	}
	sys.C = ctxs[0]
	for i := 0; i+W < len(progs); i += W + 1 {
		// a history for the original, then copies of it (and copies of copies)
		sys.initEvent(cfg, i, init)
		sys.runProg(cfg, progs[i])
		ss := []*Sys[T]{sys}
		for w := 1; w < W; w++ {
			ss = append(ss, ss[c.Rng.Intn(w)].fork(ctxs[w]))
		}
		for w := range ss {
			ss[w].initEvent(cfg, i+1+w, func(s *Sys[T]) { init(s) })
		}
		start := make(chan bool)
		var wg sync.WaitGroup
		for w := range ss {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				<-start
				ss[w].runProg(cfg, progs[i+1+w])
			}(w)
		}
		close(start)
		wg.Wait()
	}
	for _, x := range ctxs {
		x.close()
		for k, v := range x.Stats {
			c.Stats[k] += v
		}
		c.Samples = x.Samples
	}
	sys.C = c
}

func isConstCls(c string) bool {
	switch c {
	case "lev", "gsw", "fglev", "fggsw", "fggswb", "funi", "mlev", "kk0", "kk1", "kk2", "gg0", "gg1", "gg2":
		return true
	}
	return false
}

func (s *Sys[T]) gadget(base, level int) tfhe.GadgetParameters[T] {
	return tfhe.GadgetParametersLiteral[T]{Base: T(1) << base, Level: level}.Compile()
}

func coreSys[T tfhe.TorusInt](c *Ctx, cfg MachineCfg) (*Sys[T], func(*Sys[T])) {
	s := NewSys[T](c, cfg.Shape)
	p := s.P
	var enc *tfhe.Encryptor[T]
	var fhew *xtfhe.FHEWEncryptor[T]
	var fhewP xtfhe.FHEWParameters[T]
	if cfg.Kind == "fhew" {
		l := literal[T](cfg.Shape)
		fhewP = xtfhe.FHEWParametersLiteral[T]{BaseParams: l, SecretKeyStdDev: cfg.SKStd / math.Exp2(float64(cfg.Shape.LogQ)), WindowSize: cfg.Window}.Compile()
		fhew = xtfhe.NewFHEWEncryptor(fhewP)
		seedEncryptor(fhew.Encryptor, "fhew"+cfg.Shape.Name, c.Seed)
		fhew.Encryptor.SecretKey = fhew.GenSecretKey()
		enc = fhew.Encryptor
	} else {
		enc = newEncryptor(p, cfg.Shape.Name, c.Seed)
	}
	s.enc = enc
	s.GP = s.gadget(cfg.GPBase, cfg.GPLevel)
	evk := tfhe.EvaluationKey[T]{}
	if cfg.Eval && fhew == nil {
		evk = enc.GenEvalKey()
	}
	s.evk = evk
	s.Guard = []any{&evk, &enc.SecretKey}

	s.Keys["lwe"] = keyOfLWE(enc.DefaultLWESecretKey())
	s.Keys[cfg.L] = keyOfLWE(enc.SecretKey.LWELargeKey)
	s.Keys[cfg.S] = keyOfLWE(enc.SecretKey.LWEKey)
	s.Keys["glwe"] = keyOfGLWE(enc.SecretKey.GLWEKey)
	s.Keys["fglwe"] = s.Keys["glwe"]
	s.Keys["rot"] = s.Keys["glwe"]
	s.Obs1["rot"] = true

	s.Make["lwe"] = func() any { return tfhe.NewLWECiphertext(p) }
	s.Make[cfg.L] = func() any { return tfhe.NewLWECiphertextCustom[T](p.GLWEDimension()) }
	s.Make[cfg.S] = func() any { return tfhe.NewLWECiphertextCustom[T](p.LWEDimension()) }
	s.Make["glwe"] = func() any { return tfhe.NewGLWECiphertext(p) }
	s.Make["rot"] = s.Make["glwe"]
	s.Make["fglwe"] = func() any { return tfhe.NewFFTGLWECiphertext(p) }

	if cfg.Bits {
		s.Scale["lwe"] = T(1) << (logQ[T]() - 3)
		be := tfhe.NewBinaryEncryptorWithKey(p, enc.SecretKey)
		seedEncryptor(be.Encryptor, "bin"+cfg.Shape.Name, c.Seed)
		ev := tfhe.NewBinaryEvaluator(p, evk)
		s.Recv["ev"] = func() any { return ev }
		s.Fresh["ev"] = func() any { return tfhe.NewBinaryEvaluator(p, evk) }
		s.Recv["enc"] = func() any { return be }
		if cfg.Public {
			pe := be.PublicEncryptor()
			s.Recv["penc"] = func() any { return pe }
		}
	} else if fhew != nil {
		fk := xtfhe.FHEWEvaluationKey[T]{}
		if c.Rng.Intn(2) == 0 {
			fk = fhew.GenEvalKey()
		} else {
			fk = fhew.GenEvalKeyParallel()
		}
		s.Guard = append(s.Guard, &fk)
		ev := xtfhe.NewFHEWEvaluator(fhewP, fk)
		s.Recv["ev"] = func() any { return ev }
		s.Fresh["ev"] = func() any { return xtfhe.NewFHEWEvaluator(fhewP, fk) }
		s.Recv["enc"] = func() any { return fhew }
	} else {
		ev := tfhe.NewEvaluator(p, evk)
		s.Recv["ev"] = func() any { return ev }
		s.Fresh["ev"] = func() any { return tfhe.NewEvaluator(p, evk) }
		s.Recv["enc"] = func() any { return enc }
		if cfg.Public {
			pk := enc.GenPublicKey()
			s.Guard = append(s.Guard, &pk)
			pe := tfhe.NewPublicEncryptor(p, pk)
			s.Recv["penc"] = func() any { return pe }
		}
	}

	consts := map[string]any{}
	foreign := map[string]*tfhe.Encryptor[T]{}
	for i, sl := range cfg.Slots {
		switch sl.C {
		case "kk0":
			consts[sl.N] = enc.GenLWEKeySwitchKey(enc.DefaultLWESecretKey(), s.gadget(cfg.KSG[i][0], cfg.KSG[i][1]))
		case "kk1", "kk2":
			k := tfhe.NewLWESecretKeyCustom[T](cfg.KSG[i][2])
			enc.BinarySampler.SampleVecTo(k.Value)
			s.Keys["lk"+sl.C[2:]] = keyOfLWE(k)
			consts[sl.N] = enc.GenLWEKeySwitchKey(k, s.gadget(cfg.KSG[i][0], cfg.KSG[i][1]))
		case "gg0":
			consts[sl.N] = enc.GenGLWEKeySwitchKey(enc.SecretKey.GLWEKey, s.gadget(cfg.KSG[i][0], cfg.KSG[i][1]))
		case "gg1", "gg2":
			sh := cfg.Shape
			sh.Rank = cfg.KSG[i][2]
			fe := newEncryptor(literal[T](sh).Compile(), "foreign"+sl.C, c.Seed)
			foreign["gk"+sl.C[2:]] = fe
			s.Keys["gk"+sl.C[2:]] = keyOfGLWE(fe.SecretKey.GLWEKey)
			consts[sl.N] = enc.GenGLWEKeySwitchKey(fe.SecretKey.GLWEKey, s.gadget(cfg.KSG[i][0], cfg.KSG[i][1]))
		}
	}
	for _, sl := range cfg.Slots {
		switch sl.C {
		case "lev":
			consts[sl.N] = enc.EncryptLevScalar(T(sl.V[0]), s.GP)
		case "gsw":
			consts[sl.N] = enc.EncryptGSWScalar(T(sl.V[0]), s.GP)
		case "fglev":
			consts[sl.N] = enc.EncryptFFTGLevPoly(s.toPoly(sl.V), s.GP)
		case "fggsw", "fggswb":
			consts[sl.N] = enc.EncryptFFTGGSWPoly(s.toPoly(sl.V), s.GP)
		}
	}
	// encryptions under a key other than the default one
	under := func(key []T, m int) tfhe.LWECiphertext[T] {
		ct := tfhe.NewLWECiphertextCustom[T](len(key))
		enc.UniformSampler.SampleVecTo(ct.Value[1:])
		ct.Value[0] = s.encd.EncodeLWE(m).Value + enc.GaussianSampler.Sample(p.LWEStdDevQ()) - vec.Dot(ct.Value[1:], key)
		return ct
	}
	init := func(s *Sys[T]) {
		s.Order = nil
		for _, sl := range cfg.Slots {
			switch {
			case isConstCls(sl.C):
				s.AddSlot(sl.N, sl.C, consts[sl.N])
			case sl.C == "tens" || sl.C == "mlwe" || sl.C == "cggsw":
				s.AddSlot(sl.N, sl.C, s.Make[sl.C]())
			case foreign[sl.C] != nil:
				s.AddSlot(sl.N, sl.C, foreign[sl.C].EncryptGLWE(sl.V))
			case sl.C == "glwe":
				s.AddSlot(sl.N, sl.C, enc.EncryptGLWE(sl.V))
			case sl.C == "fglwe":
				s.AddSlot(sl.N, sl.C, enc.EncryptFFTGLWE(sl.V))
			case sl.C == "rot":
				s.AddSlot(sl.N, sl.C, enc.EncryptGLWE([]int{}))
			case cfg.Bits:
				be := s.Recv["enc"]().(*tfhe.BinaryEncryptor[T])
				s.AddSlot(sl.N, sl.C, be.EncryptLWEBool(sl.V[0] == 1))
			case sl.C == "lwe":
				s.AddSlot(sl.N, sl.C, enc.EncryptLWE(sl.V[0]))
			default:
				s.AddSlot(sl.N, sl.C, under(s.Keys[sl.C].LWE, sl.V[0]))
			}
		}
	}
	return s, init
}
