package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"unsafe"

	"verif/core"

	"github.com/protolambda/zssz"
	"github.com/protolambda/zssz/types"
)

// --- lengths of vast types, sizes of vast lists (spec/VastTrace.tla) -----------

type V8 []byte

func (*V8) Limit() uint64 { return 1 << 50 }

type V16 []uint16

func (*V16) Limit() uint64 { return 1<<47 + 3 }

type V32 []uint32

func (*V32) Limit() uint64 { return 1 << 33 }

type V64 []uint64

func (*V64) Limit() uint64 { return 1<<61 - 1 }

type VO []bool

func (*VO) Limit() uint64 { return 1<<64 - 1 }

type VC []struct {
	A uint32
	B uint8
}

func (*VC) Limit() uint64 { return 1<<32 - 1 }

type V33 [][33]byte

func (*V33) Limit() uint64 { return 1 << 32 }

type V6 [][3]uint16

func (*V6) Limit() uint64 { return 1 << 40 }

type VP [][2][5]uint64

func (*VP) Limit() uint64 { return 1 << 31 }

type VG [][1 << 28]byte

func (*VG) Limit() uint64 { return 1 << 30 }

type VBig [][3<<30 + 7]uint16

func (*VBig) Limit() uint64 { return 5 }

type VL []V8

func (*VL) Limit() uint64 { return 1 << 13 }

type VBits []byte

func (*VBits) Limit() uint64  { return 1<<64 - 1 }
func (*VBits) BitLen() uint64 { return 0 }

type VBitsB []byte

func (*VBitsB) Limit() uint64  { return 1<<35 - 1 }
func (*VBitsB) BitLen() uint64 { return 0 }

type VBitvec [1<<29 + 1]byte

func (*VBitvec) BitLen() uint64 { return 1<<32 + 3 }

type VBitvecOff [1<<29 + 2]byte

func (*VBitvecOff) BitLen() uint64 { return 1<<32 + 3 }

var vastElems = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(false),
	reflect.TypeOf([3]byte{}), reflect.TypeOf([33]byte{}), reflect.TypeOf(HFix{}), reflect.TypeOf((*uint32)(nil)),
	reflect.TypeOf((*VBitvec)(nil)).Elem(), reflect.TypeOf((*VBitvecOff)(nil)).Elem(), reflect.TypeOf(HC{}), reflect.TypeOf((*HX)(nil)),
}

// lists of elements of fixed length; the first vastLists of them
var vastLists = []reflect.Type{
	reflect.TypeOf(V8{}), reflect.TypeOf(V16{}), reflect.TypeOf(V32{}), reflect.TypeOf(V64{}), reflect.TypeOf(VO{}), reflect.TypeOf(VC{}),
	reflect.TypeOf(V33{}), reflect.TypeOf(V6{}), reflect.TypeOf(VP{}), reflect.TypeOf((*VG)(nil)).Elem(), reflect.TypeOf((*VBig)(nil)).Elem(),
}
var vastVar = append([]reflect.Type{reflect.TypeOf(VL{}), reflect.TypeOf(VBits{}), reflect.TypeOf(VBitsB{}), reflect.TypeOf(HLF{}), reflect.TypeOf(HBits{})}, vastLists...)

// vgtype is gtype, with digits for the lengths of arrays
func vgtype(t reflect.Type) M {
	switch t.Kind() {
	case reflect.Array:
		g := M{"k": "array", "n": core.Digits(uint64(t.Len())), "e": vgtype(t.Elem())}
		if b, ok := reflect.Zero(reflect.PtrTo(t)).Interface().(interface{ BitLen() uint64 }); ok {
			g["bl"] = core.Digits(b.BitLen())
		}
		return g
	case reflect.Ptr:
		return M{"k": "ptr", "e": vgtype(t.Elem())}
	case reflect.Slice:
		g := M{"k": "slice", "e": vgtype(t.Elem()), "lim": core.Digits(limit(t))}
		if _, ok := isBits(t); ok {
			g["bl"] = true
		}
		return g
	case reflect.Struct:
		fs := []M{}
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			fs = append(fs, M{"t": vgtype(f.Type), "emb": f.Anonymous, "omit": omitted(f), "squash": f.Tag.Get("ssz") == "squash"})
		}
		return M{"k": "struct", "fs": fs}
	}
	return gtype(t)
}

// room is how many of them can be in an array: less than 2^45 bytes of memory
func room(t reflect.Type) uint64 {
	s := uint64(t.Size())
	if s == 0 {
		s = 1
	}
	return 1 << 45 / s
}

func vastType(r *rand.Rand, depth int) reflect.Type {
	if depth == 0 || r.Intn(7) == 0 {
		if r.Intn(3) == 0 {
			return vastVar[r.Intn(len(vastVar))]
		}
		return vastElems[r.Intn(len(vastElems))]
	}
	e := vastType(r, depth-1)
	switch r.Intn(5) {
	case 0: // a struct
		fs := []reflect.StructField{}
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: vastType(r, depth-1)}
			if i == 0 {
				f.Type = e
			}
			if f.Type.Size() > 1<<44 { // the sum has to have a size
				f.Type = vastElems[r.Intn(5)]
			}
			switch r.Intn(6) {
			case 0:
				f.Tag = `ssz:"omit"`
			case 1:
				if f.Type.Kind() == reflect.Struct || r.Intn(9) == 0 {
					f.Tag = `ssz:"squash"`
				}
			}
			fs = append(fs, f)
		}
		return reflect.StructOf(fs)
	case 1:
		return reflect.PtrTo(e)
	}
	big := []uint64{1 << 16, 1 << 30, 1 << 31, 1 << 32, 1 << 29, 1 << 28, 1 << 33, 3 << 30, 1 << 40}[r.Intn(9)]
	n := big + uint64(r.Intn(5)) - 2
	if r.Intn(3) == 0 {
		n = 1 + uint64(r.Intn(5))
	}
	if m := room(e); n > m {
		n = m
	}
	if n == 0 {
		n = 1
	}
	return reflect.ArrayOf(int(n), e)
}

// vast records about one type.
func vast(i int, seed int64) M {
	r := rand.New(rand.NewSource(seed*104729 + int64(i)))
	if i%3 != 0 {
		t := vastType(r, 1+r.Intn(3))
		ev := M{"id": i, "k": "type", "g": vgtype(t), "ok": 0, "fx": 0}
		return guard(ev, func() {
			d, err := types.SSZFactory(t)
			if err != nil {
				return
			}
			ev["ok"], ev["fx"], ev["fl"], ev["min"], ev["max"] = 1, b2i(d.IsFixed()), core.Digits(d.FixedLen()), core.Digits(d.MinLen()), core.Digits(d.MaxLen())
		})
	}
	lt := vastLists[r.Intn(len(vastLists))]
	es := uint64(lt.Elem().Size())
	max := uint64(regionSize)
	bytes := []uint64{1 << 32, 1<<32 + es, 2 << 32, 1 << 31, 3 << 31, max}[r.Intn(6)]
	n := bytes/es + uint64(r.Intn(4))
	if n*es > max {
		n = max / es
	}
	if l := limit(lt); n > l {
		n = l
	}
	z := zeros(max)
	t := lt
	for k := r.Intn(3); k > 0; k-- {
		switch r.Intn(3) {
		case 0:
			t = reflect.StructOf([]reflect.StructField{{Name: "A", Type: vastElems[r.Intn(7)]}, {Name: "B", Type: reflect.TypeOf(HB{})}, {Name: "C", Type: t}})
		case 1:
			t = reflect.ArrayOf(1+r.Intn(2), t)
		default:
			if t.Kind() != reflect.Ptr {
				t = reflect.PtrTo(t)
			}
		}
	}
	v := reflect.New(t)
	at := v.Elem()
	for at.Type() != lt { // everything on the way, and the rest empty
		switch at.Kind() {
		case reflect.Ptr:
			at.Set(reflect.New(at.Type().Elem()))
			at = at.Elem()
		case reflect.Array:
			g := &gen{r: r}
			for j := 0; j < at.Len()-1; j++ {
				g.empty(at.Index(j))
			}
			at = at.Index(at.Len() - 1)
		case reflect.Struct:
			at = at.Field(at.NumField() - 1)
		}
	}
	if n > 0 {
		*(*slice)(at.Addr().UnsafePointer()) = slice{unsafe.Pointer(&z[0]), int(n), int(n)}
	}
	ev := M{"id": i, "k": "size", "g": vgtype(t), "n": core.Digits(n), "size": core.Digits(0)}
	return guard(ev, func() {
		d, err := types.SSZFactory(t)
		check(err)
		ev["size"] = core.Digits(zssz.SizeOf(v.Interface(), d))
	})
}

// empty makes the pointers of a value point to something.
func (g *gen) empty(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		g.empty(v.Elem())
	case reflect.Array:
		for i := 0; i < v.Len() && !basic(v.Type().Elem()); i++ {
			g.empty(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.empty(v.Field(i))
		}
	}
}
