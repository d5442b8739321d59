// Package codec executes events of the session specification (spec/Session.tla) against the real
// zssz API and records what happened.
package codec

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"

	"verif/core"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"
	"github.com/protolambda/zssz/util/endianness"
)

type M = map[string]interface{}

type Slot struct {
	E *core.Entry
	V reflect.Value // pointer to the value
}

func (s *Slot) P() unsafe.Pointer  { return s.V.UnsafePointer() }
func (s *Slot) Gv() core.Val       { return core.Project(s.E.G, s.E.T, s.P()) }
func (s *Slot) Iface() interface{} { return s.V.Interface() }
func NewSlot(e *core.Entry) *Slot  { return &Slot{E: e, V: reflect.New(e.T)} }
func (s *Slot) Set(v core.Val, o core.BuildOpts) {
	s.V = reflect.New(s.E.T)
	core.Build(s.E.G, s.E.T, s.P(), v, o)
}

type Exec struct {
	fresh  bool
	Cat    []*core.Entry
	Swaps  map[reflect.Type]reflect.Type // definitions to swap, for custom factories
	Inv    map[reflect.Type]bool         // the definition also inverts the bits
	Slots  map[int]*Slot
	Arena  core.Arena
	Raws   bool     // tell whether reading operations change memory of the value
	Bufs   [][]byte // input buffers of earlier decodes of this session
	H      *core.Hasher
	Hs     map[int]*core.Hasher
	defs   map[int]types.SSZ
	defErr map[int]bool
	Intent *os.File
	busy   int64
	Cur    string
	Sess   int
	quot   map[string][]*core.Entry
	cu     *customs
	writes int
	peek   func() // called around every call of a writer or hash function
	Gate   func() // called around every call of a reader, writer or hash function
	// Collect: what nothing refers to any more is collected (and, with GODEBUG=clobberfree=1, overwritten)
	// after every decoding, and with 2 during it, too.
	Collect int
	reads   int
}

func NewExec(cat []*core.Entry) *Exec {
	x := &Exec{Cat: cat, defs: map[int]types.SSZ{}, defErr: map[int]bool{}, Hs: map[int]*core.Hasher{0: core.NewHasher(0)}}
	x.Begin()
	return x
}

// Begin starts a session: no slots, SHA-256.
func (x *Exec) Begin() {
	x.Slots = map[int]*Slot{}
	x.Bufs, x.writes = nil, 0
	x.Arena = nil
	if core.AppendAnew {
		core.AppendAnew = false
	}
	if x.H != x.Hs[0] {
		x.H = x.Hs[0]
		htr.InitZeroHashes(x.H.Raw0)
	}
}

// Watch ends the process when an operation does not return in time.
func (x *Exec) Watch(limit time.Duration) {
	go func() {
		for {
			time.Sleep(limit / 20)
			if t := atomic.LoadInt64(&x.busy); t != 0 && time.Since(time.Unix(0, t)) > limit {
				fmt.Fprintf(os.Stderr, "HANG %s\n", x.Cur)
				os.Exit(7)
			}
		}
	}()
}

func (x *Exec) Entry(t int) *core.Entry { return x.Cat[t-1] }

// Def returns the definition of a type, built once.
func (x *Exec) Def(t int) (types.SSZ, bool) {
	if x.cu != nil {
		typ := x.Entry(t).T
		if o := x.Entry(t).Outer; o != nil {
			typ = o
		}
		d, err := x.cu.top(typ)
		return d, err == nil && d != nil
	}
	if x.fresh {
		d, err := types.SSZFactory(x.Entry(t).T)
		return d, err == nil && d != nil
	}
	if d, ok := x.defs[t]; ok {
		return d, true
	}
	if x.defErr[t] {
		return nil, false
	}
	d, err := types.SSZFactory(x.Entry(t).T)
	if err != nil || d == nil {
		x.defErr[t] = true
		return nil, false
	}
	x.defs[t] = d
	return d, true
}

func num(v interface{}) int {
	switch n := v.(type) {
	case int:
		return n
	case float64:
		return int(n)
	case json.Number:
		i, _ := n.Int64()
		return int(i)
	}
	return 0
}

func toBytes(v interface{}) []byte {
	switch b := v.(type) {
	case core.Bytes:
		return b
	case []byte:
		return b
	case []interface{}:
		o := make([]byte, len(b))
		for i := range b {
			o[i] = byte(num(b[i]))
		}
		return o
	}
	return nil
}

func toPlan(v interface{}) core.ReadPlan {
	switch p := v.(type) {
	case core.ReadPlan:
		return p
	case map[string]interface{}:
		r := core.ReadPlan{Style: num(p["st"]), Seed: num(p["seed"]), Fail: num(p["fail"]), Again: p["again"] == true}
		if st, ok := p["steps"].([]interface{}); ok {
			for _, s := range st {
				r.Steps = append(r.Steps, num(s))
			}
		}
		return r
	}
	return core.ReadPlan{Fail: -1}
}

func toWPlan(v interface{}) core.WritePlan {
	switch p := v.(type) {
	case core.WritePlan:
		return p
	case map[string]interface{}:
		return core.WritePlan{At: num(p["at"]), Mode: num(p["mode"])}
	}
	return core.WritePlan{At: -1}
}

func (x *Exec) toVal(t int, v interface{}) core.Val {
	if w, ok := v.(core.Val); ok {
		return w
	}
	d, _ := json.Marshal(v)
	return core.ParseVal(x.Entry(t).G, d)
}

// Do runs one event and stores its results in it. A panic of the code under test is a result.
func (x *Exec) Do(ev M) M {
	if x.Intent != nil {
		d, _ := json.Marshal(M{"session": x.Sess, "ev": ev})
		var hdr [8]byte
		for i := range hdr {
			hdr[i] = byte(len(d) >> (8 * uint(i)))
		}
		x.Intent.WriteAt(append(hdr[:], d...), 0)
	}
	x.Cur = fmt.Sprint(ev["k"], " ", ev["t"], " ", ev["s"])
	atomic.StoreInt64(&x.busy, time.Now().UnixNano())
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(harnessError); ok {
					panic(s)
				}
				ev["panic"] = 1
				ev["msg"] = fmt.Sprint(r)
			}
		}()
		before := x.raw(ev)
		if before != 0 { // nor may it change while the operation runs, as writers and hash functions see it
			calls := 0
			x.peek = func() {
				if calls++; (calls <= 24 || calls&(calls-1) == 0) && x.raw(ev) != before {
					ev["memChanged"] = 1
				}
			}
			defer func() { x.peek = nil }()
		}
		x.do(ev)
		if x.raw(ev) != before {
			ev["memChanged"] = 1
		}
	}()
	atomic.StoreInt64(&x.busy, 0)
	setOrder(false)
	return ev
}

// raw is a fingerprint of the memory of the value that a reading operation is about to read.
func (x *Exec) raw(ev M) uint64 {
	if !x.Raws {
		return 0
	}
	switch ev["k"] {
	case "enc", "encw", "size", "htr", "sr", "pretty":
		s := x.Slots[num(ev["s"])]
		return core.Raw(s.E.T, s.P())
	}
	return 0
}

// setOrder makes the code take the host for a big-endian or little-endian one.
func setOrder(be bool) {
	if endianness.IsLittleEndian == be {
		endianness.IsLittleEndian = !be
	}
}

type harnessError string

func newRand(seed int64) *rand.Rand { return rand.New(rand.NewSource(seed)) }

func (x *Exec) hashFn() htr.HashFn {
	h := x.H
	return func(b []byte) [32]byte {
		x.gate()
		r := h.Sum(b)
		x.gate()
		return r
	}
}

func (x *Exec) merkleFn(via int) htr.MerkleFn {
	if via == 1 {
		if x.Gate != nil || x.peek != nil {
			return gateMerkle{x}
		}
		return x.H
	}
	return x.hashFn()
}

type gcReader struct {
	r io.Reader
	x *Exec
}

func (g gcReader) Read(p []byte) (int, error) {
	if g.x.reads++; g.x.reads <= 6 {
		runtime.GC()
	}
	return g.r.Read(p)
}

func (x *Exec) gate() {
	if x.Gate != nil {
		x.Gate()
	}
	if x.peek != nil {
		x.peek()
	}
}

type gateMerkle struct{ x *Exec }

func (g gateMerkle) Combi(a [32]byte, b [32]byte) [32]byte {
	g.x.gate()
	r := g.x.H.Combi(a, b)
	g.x.gate()
	return r
}

func (g gateMerkle) MixIn(a [32]byte, i uint64) [32]byte {
	g.x.gate()
	r := g.x.H.MixIn(a, i)
	g.x.gate()
	return r
}

type gateReader struct {
	r io.Reader
	x *Exec
}

func (g gateReader) Read(p []byte) (int, error) {
	g.x.gate()
	n, err := g.r.Read(p)
	g.x.gate()
	return n, err
}

type gateWriter struct {
	w io.Writer
	x *Exec
}

func (g gateWriter) Write(p []byte) (int, error) {
	g.x.gate()
	n, err := g.w.Write(p)
	g.x.gate()
	return n, err
}

func (x *Exec) reader(p core.ReadPlan, b []byte) (io.Reader, func() int, int) {
	r, taken, avail := core.NewReader(p, b)
	if x.Gate != nil {
		r = gateReader{r, x}
	}
	if x.Collect == 2 {
		x.reads = 0
		r = gcReader{r, x}
	}
	return r, taken, avail
}

func (x *Exec) writer(w io.Writer) io.Writer {
	if _, rich := w.(core.RichWriter); x.Gate != nil || x.peek != nil && !rich {
		return gateWriter{w, x}
	}
	return w
}

func (x *Exec) do(ev M) {
	ev["panic"] = 0
	if cu := num(ev["cu"]); cu != 0 {
		t := num(ev["t"])
		if t == 0 {
			t = x.Slots[num(ev["s"])].E.Id
		}
		typ := x.Entry(t).T
		if o := x.Entry(t).Outer; o != nil {
			typ = o
			if cu%3 != 0 { // what the default factory makes of it has no part in this
				types.SSZFactory(typ)
			}
		}
		x.cu = newCustoms(cu, typ, x.Swaps, x.Inv)
		x.cu.mode = num(ev["cm"])
		defer func() {
			ev["made"], ev["past"], ev["unread"] = x.cu.made, x.cu.past, x.cu.unread
			x.cu = nil
		}()
	}
	// "nd": with a definition built for this one operation
	x.fresh = num(ev["nd"]) == 1
	defer func() { x.fresh = false }()
	be := num(ev["be"]) == 1
	switch ev["k"] {
	case "type":
		t := num(ev["t"])
		ev["ok"] = 0
		d, ok := x.Def(t)
		if !ok {
			return
		}
		ev["ok"] = 1
		ev["fx"] = b2i(d.IsFixed())
		ev["fl"] = core.Digits(d.FixedLen())
		ev["min"] = core.Digits(d.MinLen())
		ev["max"] = core.Digits(d.MaxLen())
		ev["fmin"] = core.Digits(d.FuzzMinLen())
		ev["fmax"] = core.Digits(d.FuzzMaxLen())
		_, signed := d.(types.SignedSSZ)
		ev["signed"] = b2i(signed)
	case "getssz": // GetSSZ with a nil pointer of the type: the definition, or a panic for unsupported types
		t := num(ev["t"])
		func() {
			defer func() {
				if recover() != nil {
					ev["ok"] = 0
				}
			}()
			d := zssz.GetSSZ(reflect.Zero(reflect.PtrTo(x.Entry(t).T)).Interface())
			ev["ok"] = b2i(d != nil)
		}()
	case "new":
		s := NewSlot(x.Entry(num(ev["t"])))
		x.Slots[num(ev["s"])] = s
		ev["gv"] = s.Gv()
	case "val":
		t := num(ev["t"])
		v := x.toVal(t, ev["gv"])
		s := NewSlot(x.Entry(t))
		o := core.BuildOpts{}
		if sp := num(ev["spare"]); sp > 0 {
			o.Spare = rand.New(rand.NewSource(int64(sp)))
		}
		if num(ev["carve"]) > 0 {
			if x.Arena == nil {
				x.Arena = core.Arena{}
			}
			o.Spare, o.Arena, core.AppendAnew = nil, x.Arena, true
		}
		s.Set(v, o)
		x.Slots[num(ev["s"])] = s
		ev["gv"] = v
		if got := s.Gv(); got.String() != v.String() {
			panic(harnessError("built " + got.String() + " instead of " + v.String()))
		}
	case "size":
		s := x.Slots[num(ev["s"])]
		d, _ := x.Def(s.E.Id)
		setOrder(be)
		ev["n"] = core.Digits(zssz.SizeOf(s.Iface(), d))
	case "enc":
		s := x.Slots[num(ev["s"])]
		d, _ := x.Def(s.E.Id)
		setOrder(be)
		var buf bytes.Buffer
		x.writes++
		if x.writes%3 == 0 {
			n, err := zssz.Encode(x.writer(&buf), s.Iface(), d)
			ev["b"], ev["n"], ev["err"] = core.Bytes(buf.Bytes()), n, b2i(err != nil)
			x.Bufs = append(x.Bufs, buf.Bytes())
			break
		}
		w := &core.PlanWriter{P: core.WritePlan{At: -1}}
		n, err := zssz.Encode(x.writer(w.As(x.writes%3)), s.Iface(), d)
		ev["b"], ev["n"], ev["err"] = core.Bytes(w.Acc), n, b2i(err != nil)
		x.Bufs = append(x.Bufs, w.Acc)
	case "encw":
		s := x.Slots[num(ev["s"])]
		d, _ := x.Def(s.E.Id)
		w := &core.PlanWriter{P: toWPlan(ev["wp"]), Err: errors.New("planned write failure")}
		// the same question always with the same kind of writer
		n, err := zssz.Encode(x.writer(w.As(w.P.At+w.P.Mode+s.E.Id)), s.Iface(), d)
		ev["acc"], ev["n"], ev["err"] = core.Bytes(w.Acc), n, b2i(err != nil)
		ev["failed"], ev["after"], ev["same"] = b2i(w.Failed), b2i(w.After), b2i(err != nil && errors.Is(err, w.Err))
	case "htr", "sr":
		s := x.Slots[num(ev["s"])]
		d, _ := x.Def(s.E.Id)
		x.H.Reset()
		iface := s.Iface()
		if be {
			tmp := NewSlot(s.E)
			core.Build(s.E.G, s.E.T, tmp.P(), s.Gv(), core.BuildOpts{Swap: true})
			iface = tmp.Iface()
		}
		setOrder(be)
		var root [32]byte
		if ev["k"] == "htr" {
			root = zssz.HashTreeRoot(x.merkleFn(num(ev["via"])), iface, d)
		} else {
			root = zssz.SigningRoot(x.merkleFn(num(ev["via"])), iface, d.(types.SignedSSZ))
		}
		ev["root"] = core.Bytes(root[:])
		ev["tree"] = x.H.Recover(root)
	case "dec", "fuzz":
		s := x.Slots[num(ev["s"])]
		d, _ := x.Def(s.E.Id)
		b := append([]byte{}, toBytes(ev["b"])...)
		x.Bufs = append(x.Bufs, b)
		r, taken, avail := x.reader(toPlan(ev["rd"]), b)
		ev["av"] = avail
		setOrder(be)
		var err error
		if ev["k"] == "dec" {
			err = zssz.Decode(r, core.UnDigits(toBytes(ev["L"])), s.Iface(), d)
		} else {
			var n uint64
			n, err = zssz.DecodeFuzzBytes(r, core.UnDigits(toBytes(ev["L"])), s.Iface(), d)
			ev["n"] = core.Digits(n)
		}
		ev["ok"], ev["used"] = b2i(err == nil), taken()
		if x.Collect > 0 {
			runtime.GC()
		}
		ev["gv"] = s.Gv()
	case "dry":
		d, _ := x.Def(num(ev["t"]))
		b := append([]byte{}, toBytes(ev["b"])...)
		r, taken, avail := x.reader(toPlan(ev["rd"]), b)
		ev["av"] = avail
		setOrder(be)
		err := zssz.DryCheck(r, core.UnDigits(toBytes(ev["L"])), d)
		ev["ok"], ev["used"] = b2i(err == nil), taken()
		if !bytes.Equal(b, toBytes(ev["b"])) {
			ev["inputChanged"] = 1
		}
	case "decdry": // the two verdicts on the same input, decoding into a fresh value
		e := x.Entry(num(ev["t"]))
		d, _ := x.Def(e.Id)
		b := toBytes(ev["b"])
		L := core.UnDigits(toBytes(ev["L"]))
		r1, _, avail := x.reader(toPlan(ev["rd"]), append([]byte{}, b...))
		r2, _, _ := x.reader(toPlan(ev["rd"]), append([]byte{}, b...))
		ev["av"] = avail
		err2 := zssz.DryCheck(r2, L, d)
		err1 := zssz.Decode(r1, L, NewSlot(e).Iface(), d)
		ev["dec"], ev["dry"] = b2i(err1 == nil), b2i(err2 == nil)
	case "mem": // decode with a hostile declared length, measuring allocation
		e := x.Entry(num(ev["t"]))
		d, _ := x.Def(e.Id)
		s := NewSlot(e)
		b := toBytes(ev["b"])
		L := core.UnDigits(toBytes(ev["L"]))
		iface := s.Iface()
		r, _, avail := x.reader(toPlan(ev["rd"]), b)
		ev["av"] = avail
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		err := zssz.Decode(r, L, iface, d)
		runtime.ReadMemStats(&m1)
		ev["ok"] = b2i(err == nil)
		ev["kib"] = int((m1.TotalAlloc - m0.TotalAlloc) >> 10)
		if m1.TotalAlloc-m0.TotalAlloc > 16<<20 {
			debug.FreeOSMemory() // before the next one
		}
	case "hash": // from now on use this hash function
		h := num(ev["h"])
		if x.Hs[h] == nil {
			x.Hs[h] = core.NewHasher(h)
		}
		x.H = x.Hs[h]
		htr.InitZeroHashes(x.H.Raw0)
	case "pretty":
		s := x.Slots[num(ev["s"])]
		d, _ := x.Def(s.E.Id)
		var buf bytes.Buffer
		ind, full := ev["ind"]
		if !full {
			ind = 1
			ev["ind"] = 1
		}
		zssz.Pretty(x.writer(&buf), indents[num(ind)], s.Iface(), d)
		ev["txt"] = core.Bytes(sum(buf.Bytes()))
		if full {
			ev["full"] = core.Bytes(bytes.Map(func(r rune) rune {
				if strings.ContainsRune(" \t\r\n", r) {
					return -1
				}
				return r
			}, buf.Bytes()))
		}
	case "mut": // the user changes the value in place
		s := x.Slots[num(ev["s"])]
		core.Mutate(s.E.G, s.E.T, s.P(), rand.New(rand.NewSource(int64(num(ev["seed"])))), 0)
		ev["gv"] = s.Gv()
	case "scrib": // the user overwrites every buffer seen so far
		for _, b := range x.Bufs {
			for i := range b {
				b[i] ^= byte(0x5a + i)
			}
		}
		x.Bufs = nil
	case "gc":
		runtime.GC()
	case "obs": // what every slot holds now
		var ids []int
		for i := range x.Slots {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		all := []interface{}{}
		for _, i := range ids {
			all = append(all, []interface{}{i, x.Slots[i].Gv()})
		}
		ev["all"] = all
	case "str": // messages one after the other on one reader
		msgs := ev["ms"].([]interface{})
		var b []byte
		for _, m := range msgs {
			b = append(b, toBytes(m.(M)["b"])...)
		}
		r, taken, avail := x.reader(toPlan(ev["rd"]), b)
		ev["av"] = avail
		res := []interface{}{}
		for _, mm := range msgs {
			m := mm.(M)
			e := x.Entry(num(m["t"]))
			d, _ := x.Def(e.Id)
			L := uint64(len(toBytes(m["b"])))
			before := taken()
			var err error
			s := NewSlot(e)
			if num(m["dry"]) == 1 {
				err = zssz.DryCheck(r, L, d)
			} else {
				err = zssz.Decode(r, L, s.Iface(), d)
			}
			o := M{"ok": b2i(err == nil), "used": taken() - before}
			if num(m["dry"]) == 0 && err == nil {
				o["gv"] = s.Gv()
			}
			res = append(res, o)
			if err != nil {
				break
			}
		}
		ev["res"] = res
	default:
		panic(harnessError("unknown event " + fmt.Sprint(ev["k"])))
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// sum is a short digest for comparing long outputs.
// indents are the units of indentation to ask for.
var indents = []string{"", " ", "  ", "\t", "    ", " \t "}

func sum(b []byte) []byte {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return core.Digits(h | 1<<63)
}
