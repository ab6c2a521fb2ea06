package main

import (
	"errors"
	"io"
	"math/rand"

	"github.com/sp301415/tfhe-go/tfhe"
)

type serW interface {
	io.WriterTo
	MarshalBinary() ([]byte, error)
	ByteSize() int
}
type serR interface {
	io.ReaderFrom
	UnmarshalBinary([]byte) error
}

var errInjected = errors.New("injected fault")

// pipe is a byte stream with faults: a write that would pass byte limit is cut there and fails.
type pipe struct {
	buf      []byte
	pos      int
	wlimit   int // absolute position at which writing fails (-1: never)
	short    bool
	rlimit   int // absolute position at which reading fails (-1: never)
	rmode    int // 0: whole requests, 1: random chunks, 2: byte by byte, 3: data together with the error
	r        *rand.Rand
	acc      int // bytes moved by the current operation
	calls    int
	hitFault bool
}

func (p *pipe) Write(b []byte) (int, error) {
	p.calls++
	n := len(b)
	if p.wlimit >= 0 && len(p.buf)+n > p.wlimit {
		n = p.wlimit - len(p.buf)
		p.buf = append(p.buf, b[:n]...)
		p.acc += n
		p.hitFault = true
		if p.short {
			return n, nil
		}
		return n, errInjected
	}
	p.buf = append(p.buf, b...)
	p.acc += n
	return n, nil
}

func (p *pipe) Read(b []byte) (int, error) {
	p.calls++
	if len(b) == 0 {
		return 0, nil
	}
	end, err := len(p.buf), io.EOF
	if p.rlimit >= 0 && p.rlimit < end {
		end, err = p.rlimit, errInjected
	}
	avail := end - p.pos
	if avail <= 0 {
		p.hitFault = true
		return 0, err
	}
	n := len(b)
	switch p.rmode {
	case 1:
		n = 1 + p.r.Intn(n)
	case 2:
		n = 1
	}
	if n > avail {
		n = avail
	}
	copy(b, p.buf[p.pos:p.pos+n])
	p.pos += n
	p.acc += n
	if p.rmode == 3 && p.pos == end {
		p.hitFault = true
		return n, err
	}
	return n, nil
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case errors.Is(err, errInjected):
		return "injected"
	case errors.Is(err, io.EOF), errors.Is(err, io.ErrUnexpectedEOF):
		return "eof"
	case errors.Is(err, io.ErrShortWrite):
		return "short"
	}
	return "other: " + err.Error()
}

type serialRun struct {
	c    *Ctx
	objs []ObjSpec
	p    *pipe
	q    []qent
	seq  int
}

type qent struct {
	o       ObjSpec
	k       int
	size    int
	partial bool
}

func (s *serialRun) reset() {
	s.p = &pipe{wlimit: -1, rlimit: -1, r: s.c.Rng}
	s.q = nil
	s.c.Balance()
	s.c.Emit(M{"ev": "stream"})
}

// write writes an object; fault >= 0 makes the stream fail after that many bytes of it.
func (s *serialRun) write(o ObjSpec, k, fault int, short bool) {
	v := o.New(s.c.Rng, k)
	f0 := s.c.FP(v)
	size := v.(serW).ByteSize()
	s.p.acc, s.p.calls, s.p.hitFault = 0, 0, false
	s.p.wlimit, s.p.short = -1, short
	start := len(s.p.buf)
	if fault >= 0 {
		s.p.wlimit = start + fault
	}
	var n int64
	var err error
	st, msg := Try(func() { n, err = v.(serW).WriteTo(s.p) })
	s.p.wlimit = -1
	// the canonical encoding
	var mb []byte
	mst, _ := Try(func() {
		var e error
		mb, e = v.(serW).MarshalBinary()
		if e != nil {
			panic(e)
		}
	})
	if s.p.hitFault {
		mb = mb[:min(len(mb), s.p.acc)]
	}
	s.c.Emit(M{"ev": "write", "ty": o.Name, "k": k, "st": st, "mst": mst, "msg": msg, "id": f0, "id2": s.c.FP(v), "size": size, "n": n, "acc": s.p.acc,
		"err": errKind(err), "hit": s.p.hitFault, "short": short, "fault": fault, "bytes": s.c.FP(s.p.buf[start:]), "mb": s.c.FP(mb)})
	s.q = append(s.q, qent{o, k, size, s.p.hitFault})
	s.c.Stats["type:"+o.Name]++
}

// read reads the next object into a receiver in some prior state; fault >= 0 makes the source fail after that many bytes.
func (s *serialRun) read(fault int, rmode int) {
	e := s.q[0]
	s.q = s.q[1:]
	r := s.c.Rng
	var rc any
	prior := r.Intn(3)
	v := e.o.New(r, e.k)
	switch prior {
	case 0:
		rc = zeroPtr(v)
	case 1:
		rc = ptrTo(v)
	default:
		rc = ptrTo(e.o.New(r, (e.k+1+r.Intn(4))%5))
	}
	s.p.acc, s.p.calls, s.p.hitFault, s.p.rmode = 0, 0, false, rmode
	s.p.rlimit = -1
	if fault >= 0 {
		s.p.rlimit = s.p.pos + fault
	}
	var n int64
	var err error
	st, msg := Try(func() { n, err = rc.(serR).ReadFrom(s.p) })
	ev := M{"ev": "read", "ty": e.o.Name, "k": e.k, "prior": prior, "st": st, "msg": msg, "n": n, "acc": s.p.acc, "err": errKind(err), "hit": s.p.hitFault,
		"fault": fault, "rmode": rmode, "left": len(s.p.buf) - s.p.pos, "id": 0, "bytes": 0, "size": 0}
	if st == "ok" && err == nil {
		x := deref(rc)
		ev["id"] = s.c.FP(x)
		Try(func() {
			b, _ := x.(serW).MarshalBinary()
			ev["bytes"], ev["size"] = s.c.FP(b), x.(serW).ByteSize()
		})
	}
	s.p.rlimit = -1
	s.c.Emit(ev)
}

// slices marshals and unmarshals through byte slices; cut truncates the encoding.
func (s *serialRun) slices(o ObjSpec, k, cut int) {
	r := s.c.Rng
	v := o.New(r, k)
	ev := M{"ev": "slice", "ty": o.Name, "k": k, "cut": cut, "id": s.c.FP(v), "size": v.(serW).ByteSize(), "len": 0, "err": "", "rid": 0}
	rc := zeroPtr(v)
	if r.Intn(2) == 0 {
		rc = ptrTo(o.New(r, r.Intn(5)))
	}
	st, msg := Try(func() {
		b, err := v.(serW).MarshalBinary()
		if err != nil {
			panic(err)
		}
		ev["len"] = len(b)
		if cut >= 0 {
			b = b[:cut]
		}
		bf := s.c.FP(b)
		err = rc.(serR).UnmarshalBinary(b)
		ev["err"] = errKind(err)
		if err == nil {
			ev["rid"] = s.c.FP(deref(rc))
		}
		ev["same"] = bf == s.c.FP(b)
	})
	if _, ok := ev["same"]; !ok {
		ev["same"] = false
	}
	ev["st"], ev["msg"] = st, msg
	s.c.Emit(ev)
}

func runSerialT[T tfhe.TorusInt](c *Ctx, logq int, faults bool) {
	s := &serialRun{c: c, objs: serialObjs[T](logq)}
	r := c.Rng
	if !faults {
		// every type and shape, in long mixed streams
		for rep := 0; rep < c.Pick(2, 12); rep++ {
			var todo []qent
			for _, o := range s.objs {
				for k := 0; k < 5; k++ {
					if o.Live && k > c.Pick(1, 4) {
						continue
					}
					todo = append(todo, qent{o: o, k: k})
				}
			}
			r.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
			s.reset()
			for i, t := range todo {
				s.write(t.o, t.k, -1, false)
				for len(s.q) > 0 && r.Intn(2) == 0 {
					s.read(-1, r.Intn(4))
				}
				if i%23 == 22 {
					for len(s.q) > 0 {
						s.read(-1, r.Intn(4))
					}
					s.reset()
				}
				if r.Intn(3) == 0 {
					s.slices(t.o, t.k, -1)
				}
			}
			for len(s.q) > 0 {
				s.read(-1, r.Intn(4))
			}
		}
		return
	}
	for _, o := range s.objs {
		k := r.Intn(5)
		size := o.Make(k).(serW).ByteSize()
		pts := map[int]bool{0: true, 1: true, size - 1: true, size - 2: true}
		for i := 0; i <= 80; i += 8 {
			pts[i] = true
			if c.Thorough() {
				for j := 0; j < 8; j++ {
					pts[i+j] = true
				}
			}
		}
		for i := 0; i < c.Pick(14, 120); i++ {
			pts[r.Intn(size)] = true
			pts[r.Intn(size)/8*8] = true
		}
		for f := range pts {
			if f < 0 || f >= size || (o.Live && r.Intn(4) > 0) {
				continue
			}
			s.reset()
			for j := r.Intn(2); j > 0; j-- { // complete objects before the one that fails
				s.write(s.objs[r.Intn(len(s.objs)-1)], r.Intn(5), -1, false)
			}
			if r.Intn(2) == 0 {
				s.write(o, k, f, r.Intn(4) == 0)
				for len(s.q) > 0 {
					s.read(-1, r.Intn(4))
				}
			} else {
				for len(s.q) > 0 {
					s.read(-1, r.Intn(4))
				}
				s.write(o, k, -1, false)
				s.read(f, r.Intn(4))
			}
			if r.Intn(2) == 0 {
				s.slices(o, k, f)
			}
		}
	}
}

func init() {
	drivers["serial"] = func(c *Ctx) { runSerialT[uint64](c, 64, false); runSerialT[uint32](c, 32, false) }
	drivers["fault"] = func(c *Ctx) { runSerialT[uint64](c, 64, true); runSerialT[uint32](c, 32, true) }
}
