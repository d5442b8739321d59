package core

import (
	"bytes"
	"io"
	"math/rand"
	"strconv"
)

// Rope is a byte string as its runs of equal bytes (spec/Huge.tla).
type Rope []Run

type Run struct {
	N uint64
	B byte
}

// MaxRuns bounds what is kept of a byte string: no longer one occurs unless something is wrong.
const MaxRuns = 6000

func (r Rope) Push(n uint64, b byte) Rope {
	if n == 0 {
		return r
	}
	if k := len(r) - 1; k >= 0 && r[k].B == b {
		r[k].N += n
		return r
	}
	if len(r) >= MaxRuns {
		return r
	}
	return append(r, Run{n, b})
}

// sameRun is the length of the run of equal bytes that p starts with.
func sameRun(p []byte) int {
	n := 1
	for n < len(p) && n < 64 && p[n] == p[0] {
		n++
	}
	if n < 64 {
		return n
	}
	for {
		step := 1 << 16
		if step > len(p)-n {
			step = len(p) - n
		}
		if step > 0 && bytes.Equal(p[n:n+step], p[n-1:n-1+step]) {
			n += step
			continue
		}
		for n < len(p) && p[n] == p[0] {
			n++
		}
		return n
	}
}

func (r Rope) Add(p []byte) Rope {
	for len(p) > 0 {
		n := sameRun(p)
		r = r.Push(uint64(n), p[0])
		p = p[n:]
	}
	return r
}

func RopeOf(p []byte) Rope { return Rope{}.Add(p) }

func (r Rope) Len() (n uint64) {
	for _, x := range r {
		n += x.N
	}
	return
}

func (r Rope) Cat(s Rope) Rope {
	o := append(Rope{}, r...)
	for _, x := range s {
		o = o.Push(x.N, x.B)
	}
	return o
}

// Slice is the part from one position to another.
func (r Rope) Slice(from, to uint64) Rope {
	o := Rope{}
	pos := uint64(0)
	for _, x := range r {
		a, b := pos, pos+x.N
		pos = b
		if a < from {
			a = from
		}
		if b > to {
			b = to
		}
		if a < b {
			o = o.Push(b-a, x.B)
		}
	}
	return o
}

func (r Rope) At(i uint64) byte {
	for _, x := range r {
		if i < x.N {
			return x.B
		}
		i -= x.N
	}
	return 0
}

// With is the rope with the bytes from position i on replaced.
func (r Rope) With(i uint64, p []byte) Rope {
	return r.Slice(0, i).Cat(RopeOf(p)).Cat(r.Slice(i+uint64(len(p)), r.Len()))
}

// Fill writes the rope's bytes.
func (r Rope) Fill(p []byte) {
	for _, x := range r {
		fill(p[:x.N], x.B)
		p = p[x.N:]
	}
}

func fill(p []byte, b byte) {
	if len(p) == 0 {
		return
	}
	if len(p) < 128 {
		for i := range p {
			p[i] = b
		}
		return
	}
	p[0] = b
	for n := 1; n < len(p); n *= 2 {
		m := n
		if m > 1<<16 { // stay within the cache
			m = 1 << 16
			for n < len(p) {
				n += copy(p[n:], p[:m])
			}
			return
		}
		copy(p[n:], p[:m])
	}
}

func (r Rope) MarshalJSON() ([]byte, error) {
	o := []byte{'['}
	for i, x := range r {
		if i > 0 {
			o = append(o, ',')
		}
		o = append(o, '[')
		d, _ := Digits(x.N).MarshalJSON()
		o = append(o, d...)
		o = append(o, ',')
		o = strconv.AppendUint(o, uint64(x.B), 10)
		o = append(o, ']')
	}
	return append(o, ']'), nil
}

// RopeWriter keeps what is written to it as a rope. It fails after At bytes, unless that is negative.
type RopeWriter struct {
	R      Rope
	At     int64
	Mode   int // 0: take what fits, then fail; 1: take nothing of the failing call
	N      uint64
	Failed bool
	After  bool
	Err    error
}

func (w *RopeWriter) Write(p []byte) (int, error) {
	if w.Failed {
		if len(p) > 0 {
			w.After = true
		}
		return 0, w.Err
	}
	n := len(p)
	if w.At >= 0 && n > 0 && int64(w.N)+int64(n) > w.At {
		w.Failed = true
		n = 0
		if w.Mode == 0 {
			n = int(w.At - int64(w.N))
		}
	}
	w.R = w.R.Add(p[:n])
	w.N += uint64(n)
	if w.Failed {
		return n, w.Err
	}
	return n, nil
}

// RopeReader delivers a rope, in fragments of at most Frag bytes if that is positive, the end of
// the input together with the last bytes if EOF is set.
type RopeReader struct {
	R     Rope
	Rnd   *rand.Rand
	Frag  int
	EOF   bool
	Taken uint64
	run   int
	off   uint64
}

func (r *RopeReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if r.run >= len(r.R) {
		return 0, io.EOF
	}
	if r.Frag > 0 {
		if n := 1 + r.Rnd.Intn(r.Frag); n < len(p) {
			p = p[:n]
		}
	}
	total := 0
	for len(p) > 0 && r.run < len(r.R) {
		x := r.R[r.run]
		n := x.N - r.off
		if n > uint64(len(p)) {
			n = uint64(len(p))
		}
		fill(p[:n], x.B)
		p = p[n:]
		total += int(n)
		if r.off += n; r.off == x.N {
			r.run++
			r.off = 0
		}
	}
	r.Taken += uint64(total)
	if r.EOF && r.run >= len(r.R) {
		return total, io.EOF
	}
	return total, nil
}
