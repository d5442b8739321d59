// Command huge records operations on values of up to several gigabytes (spec/HugeTrace.tla).
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/core"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"
	"github.com/protolambda/zssz/util/endianness"
)

type M = map[string]interface{}

// --- the types ---------------------------------------------------------------

type HB []byte

func (*HB) Limit() uint64 { return 1 << 33 }

type HS []byte

func (*HS) Limit() uint64 { return 70000 }

type HL []HB

func (*HL) Limit() uint64 { return 8 }

type HC struct {
	A uint32
	B HB
	C uint16
	D HB
	E HB
}

type HLC []HC

func (*HLC) Limit() uint64 { return 3 }

type H16 []uint16

func (*H16) Limit() uint64 { return 1 << 32 }

type H32 []uint32

func (*H32) Limit() uint64 { return 1 << 31 }

type H64 []uint64

func (*H64) Limit() uint64 { return 1 << 40 }

type HO []bool

func (*HO) Limit() uint64 { return 100000000 }

type HBits []byte

func (*HBits) Limit() uint64  { return 1 << 36 }
func (*HBits) BitLen() uint64 { return 0 }

type HBitsS []byte

func (*HBitsS) Limit() uint64  { return 524288 }
func (*HBitsS) BitLen() uint64 { return 0 }

type HVec [8193]byte

func (*HVec) BitLen() uint64 { return 65537 }

type HFix struct {
	A [30000]byte
	B uint64
	C [3000]uint16
}

type HLF []HFix

func (*HLF) Limit() uint64 { return 4 }

type HW struct {
	A [70000]byte
	B HB
	C [40000]uint16
	D *HBits
	E HVec
}

type HX struct {
	HC
	X *HL
	Y [2]HW
	Z *HC `ssz:"omit"`
	Q HS
}

type HN struct {
	A HC `ssz:"squash"`
	B [3]*HC
	C HLC
	D uint8
}

type HD struct {
	A [66000]byte
	B uint16
	HC
	D HC `ssz:"squash"`
}

// far fields, in several ways
type HFar struct {
	A [70000]byte
	HD
	Z [66000]byte `ssz:"omit"`
	M HD          `ssz:"squash"`
	X *HL
	P *[70000]byte
	E bool
}

type HIn struct {
	X *HFar        `ssz:"omit"`
	Z [140000]byte `ssz:"omit"`
	Y HFar         `ssz:"squash"`
	O [3]*HFar
	U HS
}

// the last field is squashed
type HTail struct {
	A HB
	N HN
	O [70000]bool `ssz:"omit"`
	F struct {
		G H16
		HC
	} `ssz:"squash"`
	*HBits `ssz:"omit"`
}

var hugeTypes = []reflect.Type{
	reflect.TypeOf(HB{}), reflect.TypeOf(HS{}), reflect.TypeOf(HL{}), reflect.TypeOf(HC{}), reflect.TypeOf(HLC{}),
	reflect.TypeOf(H16{}), reflect.TypeOf(H32{}), reflect.TypeOf(H64{}), reflect.TypeOf(HO{}), reflect.TypeOf(HBits{}),
	reflect.TypeOf(HBitsS{}), reflect.TypeOf(HVec{}), reflect.TypeOf(HFix{}), reflect.TypeOf(HLF{}), reflect.TypeOf(HW{}),
	reflect.TypeOf(HX{}), reflect.TypeOf(HN{}), reflect.TypeOf([3]HB{}), reflect.TypeOf([2]*HL{}), reflect.TypeOf([70000]byte{}),
	reflect.TypeOf([40000]uint16{}), reflect.TypeOf([9000]uint64{}), reflect.TypeOf([2]HFix{}),
	reflect.TypeOf(struct {
		A HBits
		B H64
		C HO
	}{}),
	reflect.TypeOf(HFar{}), reflect.TypeOf(HIn{}), reflect.TypeOf(HTail{}), reflect.TypeOf([2]*HFar{}),
}

// the flattening of a type: no pointers, no fields that are not serialised
func norm(t reflect.Type) reflect.Type {
	switch t.Kind() {
	case reflect.Ptr:
		return norm(t.Elem())
	case reflect.Array:
		if e := norm(t.Elem()); e != t.Elem() {
			return reflect.ArrayOf(t.Len(), e)
		}
	case reflect.Struct:
		var fs []reflect.StructField
		var add func(t reflect.Type)
		add = func(t reflect.Type) {
			for i := 0; i < t.NumField(); i++ {
				f := t.Field(i)
				if omitted(f) {
				} else if squashed(f) {
					add(f.Type)
				} else {
					fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: norm(f.Type)})
				}
			}
		}
		add(t)
		return reflect.StructOf(fs)
	}
	return t
}

func omitted(f reflect.StructField) bool { return strings.Contains(f.Tag.Get("ssz"), "omit") }
func squashed(f reflect.StructField) bool {
	return strings.Contains(f.Tag.Get("ssz"), "squash") || f.Anonymous && f.Type.Kind() == reflect.Struct
}

// carry copies the serialised part of a value to its flattening; to is of type norm.
func carry(to, from reflect.Value) {
	switch from.Kind() {
	case reflect.Ptr:
		carry(to, from.Elem())
	case reflect.Array:
		if to.Type() == from.Type() {
			to.Set(from)
			return
		}
		for i := 0; i < from.Len(); i++ {
			carry(to.Index(i), from.Index(i))
		}
	case reflect.Struct:
		n := 0
		var add func(from reflect.Value)
		add = func(from reflect.Value) {
			for i := 0; i < from.NumField(); i++ {
				f := from.Type().Field(i)
				if omitted(f) {
				} else if squashed(f) {
					add(from.Field(i))
				} else {
					carry(to.Field(n), from.Field(i))
					n++
				}
			}
		}
		add(from)
	default:
		to.Set(from)
	}
}

// series of many elements
type WB []HB

func (*WB) Limit() uint64 { return 1 << 18 }

type W5 []struct {
	A uint32
	B uint8
}

func (*W5) Limit() uint64 { return 1 << 20 }

type W33 [][33]byte

func (*W33) Limit() uint64 { return 70000 }

type WP []*uint64

func (*WP) Limit() uint64 { return 200000 }

type WBits []HBits

func (*WBits) Limit() uint64 { return 1 << 32 }

type WS []*struct {
	A uint8
	B HB
	C *H16
}

func (*WS) Limit() uint64 { return 66000 }

type W16 [][3]uint16

func (*W16) Limit() uint64 { return 1 << 40 }

var wideTypes = []reflect.Type{
	reflect.TypeOf(WB{}), reflect.TypeOf(W5{}), reflect.TypeOf(W33{}), reflect.TypeOf(WP{}), reflect.TypeOf(WBits{}), reflect.TypeOf(WS{}),
	reflect.TypeOf(W16{}), reflect.TypeOf([16390]HB{}), reflect.TypeOf([65539]W1{}), reflect.TypeOf([40001]*uint16{}),
}

type W1 struct{ A, B uint8 }

// gtype describes a Go type as SSZ.tla does.
func gtype(t reflect.Type) M {
	p := reflect.New(t).Interface()
	switch t.Kind() {
	case reflect.Bool:
		return M{"k": "bool"}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return M{"k": "uint", "n": int(t.Size())}
	case reflect.Ptr:
		return M{"k": "ptr", "e": gtype(t.Elem())}
	case reflect.Array:
		g := M{"k": "array", "n": t.Len(), "e": gtype(t.Elem())}
		if b, ok := p.(interface{ BitLen() uint64 }); ok {
			g["bl"] = int(b.BitLen())
		}
		return g
	case reflect.Slice:
		g := M{"k": "slice", "e": gtype(t.Elem()), "lim": core.Digits(p.(interface{ Limit() uint64 }).Limit())}
		if _, ok := p.(interface{ BitLen() uint64 }); ok {
			g["bl"] = true
		}
		return g
	case reflect.Struct:
		fs := []M{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			tag := f.Tag.Get("ssz")
			fs = append(fs, M{"t": gtype(f.Type), "emb": f.Anonymous, "omit": strings.Contains(tag, "omit"), "squash": strings.Contains(tag, "squash")})
		}
		return M{"k": "struct", "fs": fs}
	}
	panic("kind")
}

func basic(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Bool, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	}
	return false
}

// raw is the memory of a basic value, or of an array or slice of them.
func raw(v reflect.Value) []byte {
	t := v.Type()
	if t.Kind() == reflect.Slice {
		n := v.Len() * int(t.Elem().Size())
		if n == 0 {
			return nil
		}
		return unsafe.Slice((*byte)(v.UnsafePointer()), n)
	}
	return unsafe.Slice((*byte)(v.Addr().UnsafePointer()), int(t.Size()))
}

// project is the value as Huge.tla sees it.
func project(v reflect.Value) interface{} {
	t := v.Type()
	switch {
	case basic(t):
		return core.RopeOf(raw(v))
	case t.Kind() == reflect.Ptr:
		if v.IsNil() {
			return []int{}
		}
		return []interface{}{project(v.Elem())}
	case t.Kind() == reflect.Struct:
		o := []interface{}{}
		for i := 0; i < t.NumField(); i++ {
			o = append(o, project(v.Field(i)))
		}
		return o
	case basic(t.Elem()):
		return core.RopeOf(raw(v))
	}
	o := []interface{}{}
	for i := 0; i < v.Len() && i < 100; i++ {
		o = append(o, project(v.Index(i)))
	}
	return o
}

// --- values --------------------------------------------------------------------

// region is several gigabytes of zeros: the same pages over and over.
var region []byte

var regionSize uintptr = 5 << 30

func zeros(n uint64) []byte {
	if region == nil {
		const part = 16 << 20
		f, err := os.CreateTemp("", "zeros")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		if err := f.Truncate(part); err != nil {
			panic(err)
		}
		base, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, regionSize, syscall.PROT_NONE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE, ^uintptr(0), 0)
		if e != 0 {
			panic(e)
		}
		for o := uintptr(0); o < regionSize; o += part {
			if _, _, e := syscall.Syscall6(syscall.SYS_MMAP, base+o, part, syscall.PROT_READ, syscall.MAP_SHARED|syscall.MAP_FIXED, f.Fd(), 0); e != 0 {
				panic(e)
			}
		}
		region = unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&base))), regionSize)
	}
	return region[:n:n]
}

type gen struct {
	r    *rand.Rand
	cls  int // 0: about 2^16, 1: about 2^24, 2: about 2^31 and 2^32
	bigs int // leaves that may still be big
}

func (g *gen) near(c uint64) uint64 {
	switch g.r.Intn(4) {
	case 0:
		return c
	case 1:
		return c + uint64(g.r.Intn(40))
	}
	return c - uint64(g.r.Intn(130))
}

// size of a leaf of variable length
func (g *gen) size(lim uint64) uint64 {
	n := uint64(g.r.Intn(5))
	if g.r.Intn(3) == 0 {
		n = g.near(256)
	}
	if g.bigs > 0 && g.r.Intn(3) > 0 {
		g.bigs--
		switch g.cls {
		case 0:
			n = []uint64{g.near(1 << 16), g.near(1 << 16), g.near(1 << 16), g.near(1 << 15), g.near(1 << 17), uint64(g.r.Intn(200000))}[g.r.Intn(6)]
		case 1:
			n = []uint64{g.near(1 << 24), g.near(1 << 24), g.near(1 << 24), g.near(1 << 23), g.near(1 << 20), g.near(1 << 22)}[g.r.Intn(6)]
		case 2:
			n = []uint64{g.near(1 << 31), g.near(1 << 31), g.near(1 << 32), g.near(1 << 32), g.near(3 << 30), g.near(1 << 30)}[g.r.Intn(6)]
		}
	}
	if n > lim {
		n = lim - uint64(g.r.Intn(3))
	}
	return n
}

// content of a leaf
func (g *gen) fill(b []byte, isBool bool) {
	if len(b) == 0 {
		return
	}
	byt := func() byte {
		if isBool {
			return byte(g.r.Intn(2))
		}
		return byte(g.r.Intn(256))
	}
	c := byte(0)
	if g.r.Intn(2) == 0 {
		c = byt()
	}
	core.Rope{{N: uint64(len(b)), B: c}}.Fill(b)
	for k := g.r.Intn(7); k > 0; k-- {
		i := g.r.Intn(12)
		if g.r.Intn(2) == 0 {
			i = len(b) - 1 - i
		}
		if g.r.Intn(6) == 0 {
			i = g.r.Intn(len(b))
		}
		if i >= 0 && i < len(b) {
			b[i] = byt()
		}
	}
}

type slice struct {
	p        unsafe.Pointer
	len, cap int
}

func limit(t reflect.Type) uint64 {
	return reflect.New(t).Interface().(interface{ Limit() uint64 }).Limit()
}

func isBits(t reflect.Type) (uint64, bool) {
	b, ok := reflect.New(t).Interface().(interface{ BitLen() uint64 })
	if !ok {
		return 0, false
	}
	return b.BitLen(), true
}

func (g *gen) set(v reflect.Value) {
	t := v.Type()
	switch {
	case basic(t):
		g.fill(raw(v), t.Kind() == reflect.Bool)
	case t.Kind() == reflect.Ptr:
		v.Set(reflect.New(t.Elem()))
		g.set(v.Elem())
	case t.Kind() == reflect.Struct:
		for _, i := range g.r.Perm(t.NumField()) {
			g.set(v.Field(i))
		}
	case t.Kind() == reflect.Array && basic(t.Elem()):
		b := raw(v)
		g.fill(b, t.Elem().Kind() == reflect.Bool)
		if n, ok := isBits(t); ok && n%8 != 0 {
			b[len(b)-1] &= 1<<(n%8) - 1
		}
	case t.Kind() == reflect.Array:
		for _, i := range g.r.Perm(v.Len()) {
			g.set(v.Index(i))
		}
	case basic(t.Elem()):
		es := uint64(t.Elem().Size())
		lim := limit(t)
		_, bits := isBits(t)
		if bits {
			lim = lim/8 + 1
		}
		if lim > 1<<40 {
			lim = 1 << 40
		}
		n := g.size(lim*es) / es
		if bits && n == 0 {
			n = 1
		}
		var b []byte
		if n*es > 1<<27 && !bits {
			b = zeros(n * es)
		} else {
			if n*es > 1<<27 {
				n = 1 << 20
			}
			b = make([]byte, n*es+8)
			o := 0
			for es > 1 && uintptr(unsafe.Pointer(&b[o]))%uintptr(es) != 0 {
				o++
			}
			b = b[o : o+int(n*es)]
			g.fill(b, t.Elem().Kind() == reflect.Bool)
		}
		if bits {
			last := &b[n-1]
			if *last == 0 {
				*last = 1 << uint(g.r.Intn(8))
			}
			if n == lim { // at most the limit
				*last = *last&(1<<(limit(t)%8+1)-1) | 1
			}
		}
		if len(b) > 0 {
			*(*slice)(v.Addr().UnsafePointer()) = slice{unsafe.Pointer(&b[0]), int(n), int(n)}
		}
	default:
		n := g.r.Intn(4)
		if m := int(limit(t)); n > m {
			n = m
		}
		if n == 0 && g.r.Intn(3) > 0 {
			n = 2
		}
		v.Set(reflect.MakeSlice(t, n, n))
		for _, i := range g.r.Perm(n) {
			g.set(v.Index(i))
		}
	}
}

// --- operations ------------------------------------------------------------------

func guard(ev M, f func()) M {
	ev["panic"] = 0
	defer func() {
		if x := recover(); x != nil {
			ev["panic"] = 1
			ev["msg"] = fmt.Sprint(x)
		}
	}()
	f()
	return ev
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

type kase struct {
	t    reflect.Type
	d    types.SSZ
	v    reflect.Value // pointer
	r    *rand.Rand
	prop string
}

func (k *kase) encode(be bool) M {
	ev := M{"k": "enc", "n": core.Digits(0), "b": core.Rope{}, "err": 0}
	w := &core.RopeWriter{At: -1}
	guard(ev, func() {
		order(be)
		n, err := zssz.Encode(w, k.v.Interface(), k.d)
		ev["n"], ev["err"] = core.Digits(uint64(n)), b2i(err != nil)
	})
	order(false)
	if w.R != nil {
		ev["b"] = w.R
	}
	return ev
}

func order(be bool) {
	if endianness.IsLittleEndian == be {
		endianness.IsLittleEndian = !be
	}
}

// reader of a rope and what lies behind it
func (k *kase) reader(in core.Rope, style int) (io.Reader, func() uint64) {
	all := in.Cat(core.Rope{{N: 5, B: 0xEE}})
	if style == 3 && all.Len() < 1<<25 {
		b := make([]byte, all.Len())
		all.Fill(b)
		r := bytes.NewReader(b)
		return r, func() uint64 { return uint64(len(b) - r.Len()) }
	}
	r := &core.RopeReader{R: all, Rnd: rand.New(rand.NewSource(k.r.Int63()))}
	switch style {
	case 1:
		r.Frag = 1 + k.r.Intn(1<<17)
	case 2:
		r.R = in
		r.EOF = true
	}
	return r, func() uint64 { return r.Taken }
}

// decode into dst (or a new value)
func (k *kase) decode(r io.Reader, taken func() uint64, n uint64, dst reflect.Value, be bool) M {
	ev := M{"ok": 0, "used": core.Digits(0)}
	if !dst.IsValid() {
		dst = reflect.New(k.t)
	}
	guard(ev, func() {
		order(be)
		err := zssz.Decode(r, n, dst.Interface(), k.d)
		ev["ok"] = b2i(err == nil)
	})
	order(false)
	ev["used"] = core.Digits(taken())
	if ev["ok"] == 1 {
		ev["gv"] = project(dst.Elem())
	}
	return ev
}

func (k *kase) dry(r io.Reader, taken func() uint64, n uint64, be bool) M {
	ev := M{"ok": 0, "used": core.Digits(0)}
	guard(ev, func() {
		order(be)
		err := zssz.DryCheck(r, n, k.d)
		ev["ok"] = b2i(err == nil)
	})
	order(false)
	ev["used"] = core.Digits(taken())
	return ev
}

// input presents a byte string.
func (k *kase) input(b core.Rope, own, dec bool, cut uint64) M {
	n := b.Len()
	in := b
	if cut > 0 {
		in = b.Slice(0, n-cut)
	}
	ev := M{"k": "in", "b": b, "own": b2i(own), "early": b2i(cut > 0), "dec": M{}}
	style := k.r.Intn(4)
	mk := func(st int) (io.Reader, func() uint64) {
		if cut > 0 { // nothing behind it
			r := &core.RopeReader{R: in, Rnd: rand.New(rand.NewSource(k.r.Int63())), EOF: st == 2}
			return r, func() uint64 { return r.Taken }
		}
		return k.reader(in, st)
	}
	r, taken := mk(style)
	ev["dry"] = k.dry(r, taken, n, false)
	if !dec {
		return ev
	}
	r, taken = mk(style)
	ev["dec"] = k.decode(r, taken, n, reflect.Value{}, false)
	switch k.prop {
	case "C09":
		r, taken = mk((style + 1 + k.r.Intn(3)) % 4)
		ev["frag"] = k.decode(r, taken, n, reflect.Value{}, false)
	case "C11":
		g := &gen{r: k.r, cls: 0, bigs: 2}
		dst := reflect.New(k.t)
		g.set(dst.Elem())
		r, taken = mk(style)
		ev["again"] = k.decode(r, taken, n, dst, false)
	case "C17":
		r, taken = mk(style)
		ev["be"] = k.decode(r, taken, n, reflect.Value{}, true)
		r, taken = mk(style)
		ev["bedry"] = k.dry(r, taken, n, true)
	}
	return ev
}

// mutate changes an encoding a little.
func (k *kase) mutate(b core.Rope) core.Rope {
	n := b.Len()
	at := func() uint64 {
		p := uint64(k.r.Intn(64))
		if k.r.Intn(4) == 0 { // at the end of a run
			q := uint64(0)
			for i := 0; i <= k.r.Intn(len(b)); i++ {
				q += b[i].N
			}
			p = q - 1
		}
		if p >= n {
			p = uint64(k.r.Int63n(int64(n)))
		}
		return p
	}
	if n == 0 {
		return core.Rope{{N: 1 + uint64(k.r.Intn(8)), B: byte(k.r.Intn(3))}}
	}
	switch k.r.Intn(8) {
	case 0:
		return b.With(at(), []byte{byte(k.r.Intn(256))})
	case 1:
		p := at()
		return b.With(p, []byte{b.At(p) + byte(k.r.Intn(5)) - 2})
	case 2:
		c := 1 + uint64(k.r.Intn(5))
		if c > n {
			c = n
		}
		return b.Slice(0, n-c)
	case 3:
		return b.Cat(core.Rope{{N: 1 + uint64(k.r.Intn(5)), B: byte(k.r.Intn(2))}})
	case 4: // by multiples of large powers of two
		c := uint64(1+k.r.Intn(2)) << uint([]int{8, 15, 16, 16, 17}[k.r.Intn(5)])
		if c < n && k.r.Intn(2) == 0 {
			return b.Slice(0, n-c)
		}
		return b.Cat(core.Rope{{N: c, B: byte(k.r.Intn(2))}})
	case 5:
		p := n - 1
		return b.With(p, []byte{[]byte{0, 1, 255, 128}[k.r.Intn(4)]})
	default: // an offset
		p := at() &^ 1
		if p+4 > n {
			return b.Slice(0, n-1)
		}
		x := uint32(0)
		for i := uint64(0); i < 4; i++ {
			x |= uint32(b.At(p+i)) << (8 * i)
		}
		x += []uint32{1, ^uint32(0), 4, ^uint32(3), 256, 1 << 16, ^uint32(1<<16 - 1), 1 << 24, ^uint32(1<<24 - 1), 1 << 31, 1 << 15}[k.r.Intn(11)]
		return b.With(p, []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)})
	}
}

func (k *kase) encw(total uint64) M {
	at := uint64(0)
	switch k.r.Intn(4) {
	case 0:
		at = uint64(k.r.Intn(80))
	case 1:
		at = total - uint64(k.r.Intn(4))
	default:
		at = uint64(k.r.Int63n(int64(total + 1)))
	}
	if at > total {
		at = total
	}
	w := &core.RopeWriter{At: int64(at), Mode: k.r.Intn(2), Err: errors.New("planned write failure"), R: core.Rope{}}
	ev := M{"k": "encw", "at": core.Digits(at), "n": core.Digits(0), "err": 0, "same": 0}
	guard(ev, func() {
		n, err := zssz.Encode(w, k.v.Interface(), k.d)
		ev["n"], ev["err"], ev["same"] = core.Digits(uint64(n)), b2i(err != nil), b2i(err != nil && errors.Is(err, w.Err))
	})
	ev["acc"], ev["failed"], ev["after"] = w.R, b2i(w.Failed), b2i(w.After)
	return ev
}

func (k *kase) root(kind string, salt int) M {
	h := core.NewHasher(salt)
	htr.InitZeroHashes(h.Raw0)
	ev := M{"k": kind, "h": salt, "root": core.Bytes{}}
	guard(ev, func() {
		var r [32]byte
		if kind == "htr" {
			r = zssz.HashTreeRoot(htr.HashFn(h.Raw0), k.v.Interface(), k.d)
		} else {
			r = zssz.SigningRoot(htr.HashFn(h.Raw0), k.v.Interface(), k.d.(types.SignedSSZ))
		}
		ev["root"] = core.Bytes(r[:])
	})
	return ev
}

// wide records operations on a series of many equal elements.
func (k *kase) wide(e *core.Entry) M {
	s := k.v.Elem()
	n := s.Len()
	if k.t.Kind() == reflect.Slice {
		near := []int{1 << 14, 1 << 14, 1 << 16}[k.r.Intn(3)] // offsets cross 2^16, counts do
		if fx, fl := e.G.E.Fixed(); fx && fl < 10 {
			near = []int{1 << 16, 1 << 14}[k.r.Intn(2)]
		}
		n = near + k.r.Intn(9) - 4
		s.Set(reflect.MakeSlice(k.t, n, n))
	}
	first := s.Index(0)
	g := &gen{r: k.r}
	for {
		g.set(first)
		if x := core.Project(e.G.E, k.t.Elem(), first.Addr().UnsafePointer()); len(x.String()) < 300 {
			break
		}
	}
	for i := 1; i < n; i++ {
		s.Index(i).Set(first)
	}
	look := func(v reflect.Value) (M, string) {
		m := M{"n": v.Len(), "same": 1, "el": []int{}}
		str := ""
		for i := 0; i < v.Len(); i++ {
			x := core.Project(e.G.E, k.t.Elem(), v.Index(i).Addr().UnsafePointer())
			if i == 0 {
				m["el"], str = x, x.String()
			} else if x.String() != str {
				m["same"] = 0
				break
			}
		}
		return m, str
	}
	line := M{"el": core.Project(e.G.E, k.t.Elem(), first.Addr().UnsafePointer()), "n": n}
	var evs []M
	var buf bytes.Buffer
	enc := M{"k": "enc", "err": 0, "n": 0}
	guard(enc, func() {
		m, err := zssz.Encode(&buf, k.v.Interface(), k.d)
		enc["n"], enc["err"] = m, b2i(err != nil)
	})
	enc["b"] = core.Bytes(buf.Bytes())
	in := func(kind string, b []byte) {
		ev := M{"k": kind}
		dst := reflect.New(k.t)
		d := guard(M{"ok": 0}, func() {})
		guard(d, func() { d["ok"] = b2i(zssz.Decode(bytes.NewReader(b), uint64(len(b)), dst.Interface(), k.d) == nil) })
		if d["ok"] == 1 && kind == "in" {
			m, _ := look(dst.Elem())
			for x, y := range m {
				d[x] = y
			}
		}
		ev["dec"] = d
		y := M{"ok": 0}
		guard(y, func() { y["ok"] = b2i(zssz.DryCheck(bytes.NewReader(b), uint64(len(b)), k.d) == nil) })
		ev["dry"] = y
		evs = append(evs, ev)
	}
	switch k.prop {
	case "C02":
		evs = append(evs, enc)
	case "C01", "C03", "C04":
		if enc["panic"] == 0 && enc["err"] == 0 {
			in("in", buf.Bytes())
			in("cut", buf.Bytes()[:buf.Len()-1])
		}
	case "C05":
		ev := M{"k": "size", "n": 0}
		guard(ev, func() { ev["n"] = int(zssz.SizeOf(k.v.Interface(), k.d)) })
		evs = append(evs, ev)
	case "C06":
		evs = append(evs, k.root("htr", 0))
	case "C19":
		evs = append(evs, k.root("htr", k.r.Intn(8)))
	}
	line["ev"] = evs
	return line
}

// catalogue has the types in the order of their numbers; the flattening of hugeTypes[i] is number normId(i).
func catalogue() []reflect.Type {
	ts := append(append([]reflect.Type{}, hugeTypes...), wideTypes...)
	for _, t := range hugeTypes {
		ts = append(ts, norm(t))
	}
	return ts
}

func normId(i int) int { return len(hugeTypes) + len(wideTypes) + i + 1 }

var giantDecodes int

// session runs the operations that the property is about.
func (k *kase) session(cls int) (evs []M) {
	enc := func() M {
		e := k.encode(false)
		evs = append(evs, e)
		return e
	}
	switch k.prop {
	case "C02", "C18":
		enc()
	case "C17":
		e := enc()
		if cls < 2 {
			e["be"] = k.encode(true)
		} else {
			e["be"] = M{"n": e["n"], "b": e["b"]}
		}
		k.inputs(cls, e, &evs)
	case "C20":
		e := enc()
		evs = append(evs, M{"k": "obs", "gv": project(k.v.Elem())})
		if cls < 2 {
			k.root("htr", 0)
		}
		guard(M{}, func() { zssz.SizeOf(k.v.Interface(), k.d) })
		evs = append(evs, M{"k": "obs", "gv": project(k.v.Elem())})
		e["again"] = k.encode(false)
	case "C14":
		if n := norm(k.t); n != k.t && cls < 2 {
			a := k.views(cls)
			o := &kase{t: n, r: rand.New(rand.NewSource(1)), prop: k.prop, v: reflect.New(n)}
			var err error
			o.d, err = types.SSZFactory(n)
			if err != nil {
				evs = append(evs, M{"k": "norm", "a": a, "b": M{}, "refused": 1})
				return
			}
			carry(o.v.Elem(), k.v.Elem())
			evs = append(evs, M{"k": "norm", "a": a, "b": o.views(cls), "refused": 0, "ngv": project(o.v.Elem())})
		}
	case "C12":
		for i := 0; i < 4-cls && cls < 2; i++ {
			evs = append(evs, k.fuzz(cls))
		}
	case "C05":
		ev := M{"k": "size", "n": core.Digits(0)}
		guard(ev, func() {
			ev["min"], ev["max"] = core.Digits(k.d.MinLen()), core.Digits(k.d.MaxLen())
			ev["n"] = core.Digits(zssz.SizeOf(k.v.Interface(), k.d))
		})
		evs = append(evs, ev)
	case "C10":
		e := k.encode(false)
		if e["panic"] == 0 {
			n := e["b"].(core.Rope).Len()
			for i := 0; i < 5-2*cls; i++ {
				evs = append(evs, k.encw(n))
			}
		}
	case "C06":
		if cls < 2 {
			evs = append(evs, k.root("htr", 0))
		}
	case "C07", "C19":
		salt := 0
		if k.prop == "C19" {
			salt = k.r.Intn(8)
			if cls < 2 {
				evs = append(evs, k.root("htr", salt))
			}
		}
		if k.t.Kind() == reflect.Struct && cls < 2 {
			evs = append(evs, k.root("sr", salt))
		}
	default: // C01, C03, C04, C09, C11
		k.inputs(cls, enc(), &evs)
	}
	return
}

// views is what the library says about the value.
func (k *kase) views(cls int) M {
	e := k.encode(false)
	sz := guard(M{"n": core.Digits(0)}, func() {})
	guard(sz, func() { sz["n"] = core.Digits(zssz.SizeOf(k.v.Interface(), k.d)) })
	a := M{"enc": e, "size": sz, "htr": k.root("htr", 0), "in": []M{}}
	if k.t.Kind() == reflect.Struct {
		a["sr"] = k.root("sr", 0)
	}
	if e["panic"] == 1 || e["err"] == 1 {
		return a
	}
	k.r = rand.New(rand.NewSource(int64(len(e["b"].(core.Rope))))) // the same changes on both sides
	ins := []M{}
	for i := 0; i < 4-cls; i++ {
		b := e["b"].(core.Rope)
		if i > 0 {
			b = k.mutate(b)
		}
		r, taken := k.reader(b, 1)
		d := k.decode(r, taken, b.Len(), reflect.Value{}, false)
		r, taken = k.reader(b, 1)
		ins = append(ins, M{"b": b, "dec": d, "dry": k.dry(r, taken, b.Len(), false)})
	}
	a["in"] = ins
	return a
}

// fuzz turns some input into a value, and looks at what becomes of it.
func (k *kase) fuzz(cls int) M {
	g := &gen{r: k.r, cls: cls, bigs: 1}
	min := k.d.FuzzMinLen()
	n := min
	switch k.r.Intn(5) {
	case 0:
		n += uint64(k.r.Intn(300))
	case 1:
		if n > 0 {
			n -= 1
		}
	default:
		n += g.size(1 << 40)
	}
	b := core.Rope{{N: n, B: byte(k.r.Intn(3) * 0x55)}}
	if n == 0 {
		b = core.Rope{}
	}
	for i := k.r.Intn(9); i > 0; i-- {
		p := uint64(k.r.Intn(200))
		if k.r.Intn(4) == 0 && n > 0 {
			p = uint64(k.r.Int63n(int64(n)))
		}
		x := make([]byte, 1+k.r.Intn(8))
		k.r.Read(x)
		if p+uint64(len(x)) <= n {
			b = b.With(p, x)
		}
	}
	run := func(dst reflect.Value) M {
		r, taken := k.reader(b, k.r.Intn(3))
		d := M{"ok": 0, "n": core.Digits(0)}
		guard(d, func() {
			m, err := zssz.DecodeFuzzBytes(r, n, dst.Interface(), k.d)
			d["ok"], d["n"] = b2i(err == nil), core.Digits(m)
		})
		d["used"] = core.Digits(taken())
		if d["ok"] == 1 {
			d["gv"] = project(dst.Elem())
		}
		return d
	}
	dst := reflect.New(k.t)
	ev := M{"k": "fuzz", "b": b, "f": run(dst), "min": core.Digits(min), "max": core.Digits(k.d.FuzzMaxLen()), "enc": M{}, "dec": M{}, "htr": M{}}
	if ev["f"].(M)["ok"] == 1 {
		o := *k
		o.v = dst
		e := o.encode(false)
		ev["enc"] = e
		if e["panic"] == 0 && e["err"] == 0 {
			w := e["b"].(core.Rope)
			r, taken := k.reader(w, 1)
			ev["dec"] = k.decode(r, taken, w.Len(), reflect.Value{}, false)
		}
		ev["htr"] = o.root("htr", 0)
	}
	g = &gen{r: k.r, cls: 0, bigs: 2}
	old := reflect.New(k.t)
	g.set(old.Elem())
	ev["again"] = run(old)
	return ev
}

func (k *kase) inputs(cls int, e M, evs *[]M) {
	if e["panic"] == 1 || e["err"] == 1 {
		return
	}
	b := e["b"].(core.Rope)
	n := b.Len()
	dec := n < 1<<28
	if !dec && n < 5<<29 && giantDecodes < 1 {
		giantDecodes++
		dec = true
	}
	if !dec && (k.prop == "C11" || k.prop == "C01") {
		return
	}
	*evs = append(*evs, k.input(b, true, dec, 0))
	if !dec {
		return
	}
	m := []int{5, 2, 0}[cls]
	if k.prop == "C01" {
		m = 0
	}
	for i := 0; i < m; i++ {
		x := k.mutate(b)
		*evs = append(*evs, k.input(x, false, true, 0))
	}
	if k.prop == "C09" && cls < 2 && n > 0 {
		c := 1 + uint64(k.r.Intn(5))
		if k.r.Intn(2) == 0 {
			c = 1 + uint64(k.r.Int63n(int64(n)))
		}
		if c > n {
			c = n
		}
		*evs = append(*evs, k.input(b, false, true, c))
	}
}

func main() {
	prop := flag.String("prop", "C02", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "cases")
	nw := flag.Int("wide", 0, "series of many elements")
	ng := flag.Int("giant", 0, "lists of 2^32 elements")
	nv := flag.Int("vast", 0, "only lengths of vast types, this many")
	out := flag.String("out", "", "trace")
	cat := flag.String("types", "", "write the catalogue of types")
	trees := flag.String("trees", "", "trees and roots to compare")
	only := flag.Int("only", -1, "only this case")
	flag.Parse()
	if *trees != "" {
		core.CompareTrees(*trees)
		return
	}
	debug.SetGCPercent(50)
	if *nv > 0 {
		of, err := os.Create(*out)
		check(err)
		w := bufio.NewWriter(of)
		regionSize = 20 << 30
		for i := 0; i < *nv; i++ {
			if *only >= 0 && i != *only {
				continue
			}
			d, err := json.Marshal(vast(i, *seed))
			check(err)
			w.Write(append(d, '\n'))
		}
		check(w.Flush())
		fmt.Printf("{\"cases\":%d}\n", *nv)
		return
	}
	cf, err := os.Create(*cat)
	check(err)
	for i, t := range catalogue() {
		d, err := json.Marshal(M{"id": i + 1, "g": gtype(t)})
		check(err)
		cf.Write(append(d, '\n'))
	}
	check(cf.Close())
	entries := core.LoadCatalog(*cat, nil)
	of, err := os.Create(*out)
	check(err)
	w := bufio.NewWriter(of)
	events, cases := 0, 0
	cur := -1
	go func() {
		for {
			was := cur
			time.Sleep(240 * time.Second)
			if cur == was {
				fmt.Fprintln(os.Stderr, "HANG case", was)
				os.Exit(7)
			}
		}
	}()
	for i := 0; i < *n; i++ {
		if *only >= 0 && i != *only {
			continue
		}
		cur = i
		r := rand.New(rand.NewSource(*seed*7919 + int64(i)))
		t := i % len(hugeTypes)
		g := &gen{r: r, bigs: 1 + r.Intn(3)}
		switch x := r.Intn(20); {
		case x < 5:
			g.cls = 1
		case x < 7:
			g.cls = 2
		}
		if r.Intn(2) == 0 || g.cls == 2 { // those with offsets
			offs := []int{2, 3, 4, 15, 16, 17, 18, 23, 14, 24, 25, 26, 27}
			t = offs[r.Intn(len(offs))]
		}
		if g.cls == 2 {
			g.bigs = 1 + r.Intn(4)
			if r.Intn(3) == 0 {
				t = []int{0, 5, 6, 7, 8}[r.Intn(5)]
			}
		}
		if *prop == "C14" {
			for norm(hugeTypes[t]) == hugeTypes[t] {
				t = r.Intn(len(hugeTypes))
			}
			if g.cls == 2 {
				g.cls = 0
			}
		}
		if *prop == "C12" && g.cls == 2 {
			g.cls = 0
		}
		k := &kase{t: hugeTypes[t], r: r, prop: *prop}
		k.d, err = types.SSZFactory(k.t)
		check(err)
		k.v = reflect.New(k.t)
		g.set(k.v.Elem())
		gv := project(k.v.Elem())
		evs := k.session(g.cls)
		d, err := json.Marshal(M{"id": i, "t": t + 1, "nt": normId(t), "cls": g.cls, "gv": gv, "ev": evs})
		check(err)
		if evs == nil {
			continue
		}
		w.Write(append(d, '\n'))
		events += len(evs)
		cases++
		if g.cls > 0 {
			k.v = reflect.Value{}
			debug.FreeOSMemory()
		}
	}
	for i := *n; i < *n+*nw; i++ {
		if *only >= 0 && i != *only {
			continue
		}
		cur = i
		k := &kase{t: wideTypes[i%len(wideTypes)], r: rand.New(rand.NewSource(*seed*7919 + int64(i))), prop: *prop}
		k.d, err = types.SSZFactory(k.t)
		check(err)
		k.v = reflect.New(k.t)
		line := k.wide(entries[len(hugeTypes)+i%len(wideTypes)])
		if line["ev"].([]M) == nil {
			continue
		}
		line["id"], line["t"] = i, len(hugeTypes)+i%len(wideTypes)+1
		d, err := json.Marshal(line)
		check(err)
		w.Write(append(d, '\n'))
		events += len(line["ev"].([]M))
		cases++
	}
	for i := *n + *nw; i < *n+*nw+*ng; i++ {
		if *only >= 0 && i != *only {
			continue
		}
		cur = i
		line := giant(i, *n+*nw, *seed, *prop)
		if line == nil {
			continue
		}
		debug.FreeOSMemory()
		d, err := json.Marshal(line)
		check(err)
		w.Write(append(d, '\n'))
		events++
		cases++
	}
	check(w.Flush())
	fmt.Printf("{\"cases\":%d,\"events\":%d}\n", cases, events)
}

// giant records hash-tree-roots of lists of about 2^32 elements.
func giant(i, pos int, seed int64, prop string) M {
	r := rand.New(rand.NewSource(seed*7919 + int64(i)))
	t := []int{9, 9, 0, 8}[(i-pos)%4] // bits, bytes, booleans
	ty := hugeTypes[t]
	k := &kase{t: ty, r: r, prop: prop, v: reflect.New(ty)}
	var err error
	k.d, err = types.SSZFactory(ty)
	check(err)
	n := uint64(1)<<29 + 1 + uint64(r.Intn(3)) // bytes
	var b []byte
	if t == 9 {
		b = make([]byte, n)
		g := &gen{r: r}
		for {
			g.fill(b, false)
			if b[n-1] != 0 {
				break
			}
		}
	} else if t == 0 {
		n <<= 3
		b = zeros(n)
	} else {
		return nil
	}
	*(*slice)(k.v.UnsafePointer()) = slice{unsafe.Pointer(&b[0]), int(n), int(n)}
	salt := 0
	if prop == "C19" {
		salt = r.Intn(8)
	}
	return M{"id": i, "t": t + 1, "nt": normId(t), "cls": 3, "gv": project(k.v.Elem()), "ev": []M{k.root("htr", salt)}}
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}
