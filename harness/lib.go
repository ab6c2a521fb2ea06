// Command vdrv drives the real tfhe-go code and records what it does as ndjson
// events. It contains no oracle: the TLA+ specifications in /verif/spec decide
// whether the recorded events are behaviours of the specified system.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math"
	"math/bits"
	"math/rand"
	"os"
	"reflect"
	"sync"

	"github.com/sp301415/tfhe-go/math/vec"
	"github.com/sp301415/tfhe-go/tfhe"
)

// M is one event.
type M = map[string]any

// Ctx is the context of one driver run.
type Ctx struct {
	Seed    int64
	Tier    string
	Rng     *rand.Rand
	OutBase string
	Shards  int
	w       []*bufio.Writer
	f       []*os.File
	cur     int
	counts  []int
	Progs   string
	Variant string
	ids     map[uint64]int
	Stats   map[string]int
	Samples []any
	Args    []string
	mu      sync.Mutex
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) open() {
	for i := 0; i < c.Shards; i++ {
		f, err := os.Create(fmt.Sprintf("%s.%d.ndjson", c.OutBase, i))
		if err != nil {
			panic(err)
		}
		c.f = append(c.f, f)
		c.w = append(c.w, bufio.NewWriterSize(f, 1<<20))
		c.counts = append(c.counts, 0)
	}
}

func (c *Ctx) close() {
	for i := range c.f {
		c.w[i].Flush()
		c.f[i].Close()
	}
}

// Shard selects the shard that receives the next events.
func (c *Ctx) Shard(i int) { c.cur = ((i % c.Shards) + c.Shards) % c.Shards }

// Next moves to the next shard (only between self-contained groups of events).
func (c *Ctx) Next() { c.Shard(c.cur + 1) }

// Balance moves to the shard with the fewest events.
func (c *Ctx) Balance() {
	b := 0
	for i := range c.counts {
		if c.counts[i] < c.counts[b] {
			b = i
		}
	}
	c.cur = b
}

// Emit writes an event.
func (c *Ctx) Emit(ev M) {
	c.mu.Lock()
	defer c.mu.Unlock()
	b, err := json.Marshal(ev)
	if err != nil {
		panic(err)
	}
	c.w[c.cur].Write(b)
	c.w[c.cur].WriteByte('\n')
	wgt := len(b)/200 + 1
	c.counts[c.cur] += wgt
	if os.Getenv("VERIF_FLUSH") != "" {
		c.w[c.cur].Flush()
	}
	if len(c.Samples) < 3 {
		c.Samples = append(c.Samples, json.RawMessage(b))
	}
	if k, ok := ev["ev"].(string); ok {
		c.Stats["ev:"+k]++
	}
	c.Stats["events"]++
}

// ID maps a 64-bit fingerprint to a small integer that is equal for equal fingerprints.
func (c *Ctx) ID(h uint64) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if v, ok := c.ids[h]; ok {
		return v
	}
	v := len(c.ids) + 1
	c.ids[h] = v
	return v
}

// FP is the fingerprint of everything reachable from the objects.
func (c *Ctx) FP(objs ...any) int { return c.ID(Fingerprint(objs...)) }

var hseed = maphash.MakeSeed()

// Fingerprint hashes everything reachable from the objects.
func Fingerprint(objs ...any) uint64 {
	var h maphash.Hash
	h.SetSeed(hseed)
	seen := map[uintptr]bool{}
	for _, o := range objs {
		fpWalk(&h, reflect.ValueOf(o), seen)
	}
	return h.Sum64()
}

func w64(h *maphash.Hash, x uint64) {
	var b [8]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(x >> (8 * i))
	}
	h.Write(b[:])
}

func fpWalk(h *maphash.Hash, v reflect.Value, seen map[uintptr]bool) {
	if !v.IsValid() {
		w64(h, 0xdead)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w64(h, 1)
		} else {
			w64(h, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w64(h, uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w64(h, v.Uint())
	case reflect.Float32, reflect.Float64:
		f := v.Float()
		if f == 0 {
			f = 0 // -0 and +0 are the same number
		}
		w64(h, math.Float64bits(f))
	case reflect.Complex64, reflect.Complex128:
		w64(h, math.Float64bits(real(v.Complex())))
		w64(h, math.Float64bits(imag(v.Complex())))
	case reflect.String:
		h.WriteString(v.String())
		w64(h, uint64(v.Len()))
	case reflect.Slice, reflect.Array:
		w64(h, uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			fpWalk(h, v.Index(i), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fpWalk(h, v.Field(i), seen)
		}
	case reflect.Pointer:
		if v.IsNil() {
			w64(h, 0xdead)
			return
		}
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		fpWalk(h, v.Elem(), seen)
	case reflect.Map:
		w64(h, uint64(v.Len()))
		var sum uint64
		it := v.MapRange()
		for it.Next() {
			var g maphash.Hash
			g.SetSeed(hseed)
			fpWalk(&g, it.Key(), seen)
			fpWalk(&g, it.Value(), seen)
			sum += g.Sum64()
		}
		w64(h, sum)
	case reflect.Interface:
		fpWalk(h, v.Elem(), seen)
	default: // func, chan: not data
	}
}

// Try runs f and reports "ok", or "panic" with the message.
func Try(f func()) (st string, msg string) {
	defer func() {
		if r := recover(); r != nil {
			st, msg = "panic", fmt.Sprint(r)
			if len(msg) > 120 {
				msg = msg[:120]
			}
		}
	}()
	f()
	return "ok", ""
}

// Limbs writes an unsigned 64-bit word as six base-2^11 digits, least significant first.
func Limbs(x uint64) []int {
	r := make([]int, 6)
	for i := range r {
		r[i] = int(x & 2047)
		x >>= 11
	}
	return r
}

// LimbsV is Limbs of a vector.
func LimbsV[T ~uint32 | ~uint64](v []T) [][]int {
	r := make([][]int, len(v))
	for i := range v {
		r[i] = Limbs(uint64(v[i]))
	}
	return r
}

func logQ[T tfhe.TorusInt]() int {
	var z T
	return bits.Len64(uint64(^z))
}

func sgn[T tfhe.TorusInt](x T) int64 {
	if logQ[T]() == 32 {
		return int64(int32(uint32(x)))
	}
	return int64(x)
}

func absBits[T tfhe.TorusInt](x T) int {
	s := sgn(x)
	if s < 0 {
		return bits.Len64(uint64(-s))
	}
	return bits.Len64(uint64(s))
}

func ints[T ~int | ~uint32 | ~uint64](v []T) []int {
	r := make([]int, len(v))
	for i := range v {
		r[i] = int(v[i])
	}
	return r
}

// randFill overwrites every number reachable from v with arbitrary contents.
func randFill(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Pointer:
		if !v.IsNil() {
			randFill(r, v.Elem())
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() && v.Type().Field(i).Name != "GadgetParameters" {
				randFill(r, v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			randFill(r, v.Index(i))
		}
	case reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(r.Uint64() >> (64 - uint(v.Type().Bits())))
		}
	case reflect.Int:
		if v.CanSet() {
			v.SetInt(int64(r.Intn(1000)))
		}
	case reflect.Float64:
		if v.CanSet() {
			v.SetFloat((r.Float64() - 0.5) * math.Exp2(60))
		}
	}
}

// Dirty overwrites the contents of an object with arbitrary values.
func Dirty(r *rand.Rand, o any) { randFill(r, reflect.ValueOf(o)) }

// alignVec makes vectors alike the ones used by the library.
var _ = vec.Add[uint32]
