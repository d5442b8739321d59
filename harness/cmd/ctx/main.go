// Command ctx runs histories of operations on decoding and encoding contexts: those of
// spec/ContextMC.tla, or random ones that it records.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"time"

	"verif/core"

	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
)

type op struct {
	K string      `json:"k"`
	N *core.Bytes `json:"n,omitempty"`
	B *core.Bytes `json:"b,omitempty"`
	V *int        `json:"v,omitempty"`
	P *core.Bytes `json:"p,omitempty"`
	L *core.Bytes `json:"l,omitempty"`
}

type seen struct {
	I     core.Bytes `json:"i"`
	Max   core.Bytes `json:"max"`
	Span  core.Bytes `json:"span"`
	Taken core.Bytes `json:"taken"`
	N     int        `json:"n"`
}

type result struct {
	Op   op         `json:"op"`
	Ok   int        `json:"ok"`
	R    core.Bytes `json:"r"`
	Per  int        `json:"per"` // a long result repeats every 256 bytes
	Acc  core.Bytes `json:"acc"`
	Seen seen       `json:"seen"`
	Dead int        `json:"dead"`
	Msg  string     `json:"msg,omitempty"`
}

// world is a reader or a writer with its contexts.
type world struct {
	taken func() uint64
	sc    []*dec.DecodingReader
	ew    *enc.EncodingWriter
	w     *core.PlanWriter
}

func input(n int) []byte {
	b := make([]byte, n)
	for p := range b {
		b[p] = byte(p*37 + 11)
	}
	return b
}

// bare hides all optional interfaces of a reader.
type bare struct{ r io.Reader }

func (b bare) Read(p []byte) (int, error) { return b.r.Read(p) }

func newWorld(side string, dlen, wfail, mode int, plan core.ReadPlan) *world {
	x := &world{taken: func() uint64 { return 0 }}
	if side == "r" {
		r, taken, _ := core.NewReader(plan, input(dlen))
		if _, can := r.(io.Seeker); can {
			r = bare{r}
		}
		x.taken = func() uint64 { return uint64(taken()) }
		x.sc = []*dec.DecodingReader{dec.NewDecodingReader(r)}
	} else {
		x.w = &core.PlanWriter{P: core.WritePlan{At: wfail, Mode: mode}, Err: errors.New("planned write failure")}
		x.ew = enc.NewEncodingWriter(x.w.As(wfail + mode + dlen))
	}
	return x
}

var cur string

func (x *world) do(o op) (res result) {
	res.Op = o
	res.Per = 1
	res.R, res.Acc = core.Bytes{}, core.Bytes{}
	n := func() uint64 { return core.UnDigits(*o.N) }
	acc := 0
	if x.w != nil {
		acc = len(x.w.Acc)
	}
	cur = fmt.Sprint(o.K)
	func() {
		defer func() {
			if r := recover(); r != nil {
				res.Ok, res.Msg = 2, fmt.Sprint(r)
			}
		}()
		var err error
		var t *dec.DecodingReader
		if x.sc != nil {
			t = x.sc[len(x.sc)-1]
		}
		le := func(v uint64, k int) {
			for i := 0; i < k; i++ {
				res.R = append(res.R, byte(v>>uint(8*i)))
			}
		}
		switch o.K {
		case "read":
			p := make([]byte, n())
			var k int
			k, err = t.Read(p)
			if err == nil && k != len(p) {
				err = fmt.Errorf("Read returned %d for %d bytes", k, len(p))
			}
			res.R = p
		case "skip":
			var k int
			k, err = t.Skip(n())
			if err == nil && uint64(k) != n() {
				err = fmt.Errorf("Skip returned %d for %d bytes", k, n())
			}
		case "r8":
			var v byte
			v, err = t.ReadByte()
			le(uint64(v), 1)
		case "r16":
			var v uint16
			v, err = t.ReadUint16()
			le(uint64(v), 2)
		case "r32":
			var v uint32
			v, err = t.ReadUint32()
			le(uint64(v), 4)
		case "r64":
			var v uint64
			v, err = t.ReadUint64()
			le(v, 8)
		case "off":
			var v uint64
			v, err = t.ReadOffset()
			le(v, 4)
			if v>>32 != 0 {
				err = fmt.Errorf("offset %d", v)
			}
		case "scope":
			var c *dec.DecodingReader
			c, err = t.Scope(n())
			if err == nil {
				x.sc = append(x.sc, c)
			}
		case "close":
			x.sc = x.sc[:len(x.sc)-1]
			x.sc[len(x.sc)-1].UpdateIndexFromScoped(t)
		case "w":
			err = x.ew.Write(append([]byte{}, *o.B...))
		case "wb":
			err = x.ew.WriteByte(byte(*o.V))
		case "woff":
			var v uint64
			v, err = x.ew.WriteOffset(core.UnDigits(*o.P), core.UnDigits(*o.L))
			if err == nil {
				res.R = core.Digits(v)
			}
		default:
			panic("unknown op " + o.K)
		}
		if err == nil {
			res.Ok = 1
		} else {
			res.Msg = err.Error()
			if x.w != nil && !errors.Is(err, x.w.Err) {
				res.Ok, res.Msg = 3, "not the writer's error: "+res.Msg
			}
		}
	}()
	if res.Ok != 1 {
		res.R = core.Bytes{}
	}
	if n := len(res.R); n > 256 {
		for i := 256; i < n; i++ {
			if res.R[i] != res.R[i-256] {
				res.Per = 0
			}
		}
		res.R = res.R[:256]
	}
	if x.w != nil {
		res.Acc = append(res.Acc, x.w.Acc[acc:]...)
	}
	res.Seen = x.seen()
	return
}

func (x *world) seen() (s seen) {
	s.I, s.Span = core.Bytes{}, core.Digits(^uint64(0))
	s.Max = s.Span
	if x.sc != nil {
		t := x.sc[len(x.sc)-1]
		s.I, s.Max, s.Span = core.Digits(t.Index()), core.Digits(t.Max()), core.Digits(t.GetBytesSpan())
	} else {
		s.N = x.ew.Written()
	}
	s.Taken = core.Digits(x.taken())
	return
}

type record struct {
	Side  string     `json:"side"`
	Dlen  core.Bytes `json:"dlen"`
	Wfail int        `json:"wfail"`
	Mode  int        `json:"mode"`
	H     []op       `json:"h"`
	Seen  seen       `json:"seen"`
	Ops   []result   `json:"ops"`
}

func same(a, b seen) bool {
	return bytes.Equal(a.I, b.I) && bytes.Equal(a.Max, b.Max) && bytes.Equal(a.Span, b.Span) && bytes.Equal(a.Taken, b.Taken) && a.N == b.N
}

func main() {
	rp := flag.String("replay", "", "behaviours")
	out := flag.String("out", "", "output")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "histories")
	steps := flag.Int("steps", 40, "operations each")
	large := flag.Bool("huge", false, "large inputs")
	flag.Parse()
	go func() {
		for {
			was := cur
			time.Sleep(40 * time.Second)
			if was != "" && cur == was {
				fmt.Fprintln(os.Stderr, "HANG", was, "github.com/protolambda/zssz")
				os.Exit(7)
			}
		}
	}()
	of, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	defer w.Flush()
	emit := func(m interface{}) {
		d, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		w.Write(d)
		w.WriteByte('\n')
	}
	if *rp != "" {
		states, calls, bad := 0, 0, 0
		err := core.Behaviours(*rp, func(d []byte) bool {
			var k record
			if err := json.Unmarshal(d, &k); err != nil {
				panic(err)
			}
			states++
			mis := func(why string, o interface{}, got interface{}) {
				bad++
				emit(map[string]interface{}{"why": why, "history": k.H, "side": k.Side, "dlen": k.Dlen, "wfail": k.Wfail, "mode": k.Mode, "op": o, "got": got})
			}
			for i, want := range k.Ops {
				plan := core.ReadPlan{Style: (states + i) % core.RSteps, Seed: i, Fail: -1}
				x := newWorld(k.Side, int(core.UnDigits(k.Dlen)), k.Wfail, k.Mode, plan)
				for _, o := range k.H {
					x.do(o)
				}
				if got := x.seen(); !same(got, k.Seen) {
					mis("state after the history is not as specified", k.Seen, got)
					break
				}
				got := x.do(want.Op)
				calls++
				switch {
				case got.Ok != want.Ok:
					mis(fmt.Sprintf("%s: outcome %d, specified %d (0 error, 1 success, 2 panic): %s", want.Op.K, got.Ok, want.Ok, got.Msg), want, got)
				case !bytes.Equal(got.R, want.R):
					mis(want.Op.K+" returns something else than specified", want, got)
				case !bytes.Equal(got.Acc, want.Acc):
					mis(want.Op.K+" writes something else than specified", want, got)
				case want.Dead == 0 && !same(got.Seen, want.Seen):
					mis(want.Op.K+": index, span, count or input position not as specified", want, got)
				}
			}
			return bad < 20
		})
		if err != nil {
			panic(err)
		}
		fmt.Printf("{\"scenarios\":%d,\"calls\":%d,\"mismatches\":%d}\n", states, calls, bad)
		return
	}
	events := 0
	if *large {
		for i := 0; i < *n; i++ {
			line := huge(rand.New(rand.NewSource(*seed*1000003+int64(i))), i)
			events += len(line["ev"].([]result))
			emit(line)
		}
		fmt.Printf("{\"sessions\":%d,\"events\":%d}\n", *n, events)
		return
	}
	for i := 0; i < *n; i++ {
		r := rand.New(rand.NewSource(*seed*1000003 + int64(i)))
		side := "r"
		dlen, wfail, mode := r.Intn(1+r.Intn(400)), -1, 0
		if i%4 == 3 {
			side, dlen, mode = "w", 0, r.Intn(3)
			if r.Intn(3) > 0 {
				wfail = r.Intn(120)
			}
		}
		x := newWorld(side, dlen, wfail, mode, core.ReadPlan{Style: r.Intn(core.RSteps), Seed: i, Fail: -1})
		var evs []result
		dig := func(v uint64) *core.Bytes { b := core.Digits(v); return &b }
		for k := 0; k < *steps; k++ {
			var o op
			if side == "r" {
				left := dlen - int(x.taken())
				span := int(1 << 20)
				t := x.sc[len(x.sc)-1]
				if t.GetBytesSpan() < 1<<20 {
					span = int(t.GetBytesSpan())
				}
				small := func() uint64 {
					m := span
					if left < m {
						m = left
					}
					switch r.Intn(12) {
					case 0:
						return uint64(span)
					case 1:
						return uint64(m)
					case 2:
						return uint64(span + 1)
					}
					return uint64(r.Intn(1 + r.Intn(m+1)))
				}
				switch c := r.Intn(15); {
				case c < 3:
					o.K = []string{"r8", "r16", "r32", "r64", "off"}[r.Intn(5)]
				case c < 6:
					o.K, o.N = "read", dig(small())
				case c < 8:
					o.K, o.N = "skip", dig(small())
					if r.Intn(6) == 0 {
						o.N = dig(^uint64(0) - uint64(r.Intn(1+r.Intn(300))))
					}
				case c < 12:
					o.K, o.N = "scope", dig(small())
					if r.Intn(6) == 0 {
						o.N = dig(^uint64(0)>>uint(r.Intn(64)) - uint64(r.Intn(3)))
					}
				default:
					o.K = "close"
				}
				if o.K == "close" && len(x.sc) == 1 || o.K == "scope" && len(x.sc) > 12 {
					continue
				}
			} else {
				switch r.Intn(4) {
				case 0:
					b := make(core.Bytes, r.Intn(12))
					r.Read(b)
					o.K, o.B = "w", &b
				case 1:
					v := r.Intn(256)
					o.K, o.V = "wb", &v
				default:
					o.K = "woff"
					a := r.Uint64() >> uint(r.Intn(64))
					b := r.Uint64() >> uint(r.Intn(64))
					switch r.Intn(5) {
					case 0, 1:
						a >>= 32
						b >>= 33
					case 2: // around the end
						a %= 1 << 32
						b = 1<<32 - a + uint64(r.Intn(5)) - 2
					}
					o.P, o.L = dig(a), dig(b)
				}
			}
			e := x.do(o)
			evs = append(evs, e)
			events++
			if e.Ok == 0 && side == "w" || e.Ok > 1 && side == "r" {
				break
			}
			if side == "r" && e.Ok == 0 && x.taken() == uint64(dlen) {
				break
			}
		}
		if evs == nil {
			evs = []result{}
		}
		emit(map[string]interface{}{"side": side, "dlen": core.Digits(uint64(dlen)), "wfail": wfail, "mode": mode, "ev": evs})
	}
	fmt.Printf("{\"sessions\":%d,\"events\":%d}\n", *n, events)
}

// endless delivers the input of any length.
type endless struct {
	n, pos uint64
	frag   int
	eof    bool
	r      *rand.Rand
}

var pattern = input(1 << 20)

func (e *endless) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if e.pos == e.n {
		return 0, io.EOF
	}
	if e.frag > 0 {
		if k := 1 + e.r.Intn(e.frag); k < len(p) {
			p = p[:k]
		}
	}
	if e.n-e.pos < uint64(len(p)) {
		p = p[:e.n-e.pos]
	}
	for n := 0; n < len(p); {
		k := copy(p[n:], pattern[(e.pos+uint64(n))%256:])
		n += k
	}
	e.pos += uint64(len(p))
	if e.eof && e.pos == e.n {
		return len(p), io.EOF
	}
	return len(p), nil
}

// huge is a history of reads, skips and scopes of an input of up to 2^33 bytes.
func huge(r *rand.Rand, i int) map[string]interface{} {
	base, steps := uint64(1)<<16, 25
	switch {
	case i%60 == 59:
		base, steps = 1<<31<<uint(r.Intn(2)), 12
	case i%10 == 9:
		base = 1 << 24
	}
	dlen := base + uint64(r.Intn(600)) - 300
	switch r.Intn(3) {
	case 0:
		dlen += base
	case 1:
		dlen += uint64(r.Intn(1 << 16))
	}
	in := &endless{n: dlen, r: r}
	if r.Intn(3) == 0 && base < 1<<30 {
		in.frag = 1 + r.Intn(1<<15)
	}
	in.eof = r.Intn(3) == 0
	x := &world{taken: func() uint64 { return in.pos }, sc: []*dec.DecodingReader{dec.NewDecodingReader(in)}}
	dig := func(v uint64) *core.Bytes { b := core.Digits(v); return &b }
	evs := []result{}
	for k := 0; k < steps; k++ {
		var o op
		left := dlen - in.pos
		t := x.sc[len(x.sc)-1]
		fit := t.GetBytesSpan()
		if fit > left {
			fit = left
		}
		count := func() uint64 {
			v := uint64(r.Intn(20))
			switch r.Intn(10) {
			case 0, 1, 2:
				v = base + uint64(r.Intn(9)) - 4
			case 3:
				v = base / 2
			case 4:
				v = fit
			case 5:
				v = t.GetBytesSpan()
			case 6:
				v = t.GetBytesSpan() + 1
			case 7:
				v = 1<<uint(r.Intn(40)) - uint64(r.Intn(2))
			case 8:
				v = fit - uint64(r.Intn(30))
			}
			if v > fit && v <= t.GetBytesSpan() && r.Intn(8) > 0 { // the input rarely ends
				v = uint64(r.Intn(20))
			}
			return v
		}
		switch c := r.Intn(15); {
		case c < 4:
			o.K = []string{"r8", "r16", "r32", "r64", "off"}[r.Intn(5)]
		case c < 6:
			o.K = "read"
			v := count()
			if v > 1<<24+8 {
				v = uint64(r.Intn(300))
			}
			o.N = dig(v)
		case c < 8:
			o.K, o.N = "skip", dig(count())
		case c < 12:
			o.K = "scope"
			v := count()
			if r.Intn(3) == 0 {
				v = fit/2 + uint64(r.Intn(1+int(fit/2)))
			}
			o.N = dig(v)
		default:
			o.K = "close"
		}
		if o.K == "close" && len(x.sc) == 1 || o.K == "scope" && len(x.sc) > 6 {
			continue
		}
		e := x.do(o)
		evs = append(evs, e)
		if e.Ok > 1 || e.Ok == 0 && in.pos == dlen {
			break
		}
	}
	return map[string]interface{}{"side": "r", "dlen": core.Digits(dlen), "wfail": -1, "mode": 0, "ev": evs}
}
