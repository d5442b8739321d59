package core

import (
	"encoding/binary"
	"encoding/json"
	"math/rand"
	"reflect"
	"strconv"
	"unsafe"
)

// Bytes is a byte string that is written as a JSON array of numbers.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 2+4*len(b))
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		out = strconv.AppendUint(out, uint64(x), 10)
	}
	return append(out, ']'), nil
}

func (b *Bytes) UnmarshalJSON(d []byte) error {
	var xs []int
	if err := json.Unmarshal(d, &xs); err != nil {
		return err
	}
	*b = make(Bytes, len(xs))
	for i, x := range xs {
		(*b)[i] = byte(x)
	}
	return nil
}

// Digits writes a number as little-endian base-256 digits without a trailing zero, as in BigNat.tla.
func Digits(x uint64) Bytes {
	b := Bytes{}
	for x != 0 {
		b = append(b, byte(x))
		x >>= 8
	}
	return b
}

func UnDigits(b []byte) (x uint64) {
	for i, d := range b {
		x |= uint64(d) << (8 * uint(i))
	}
	return
}

// Val is a Go value as the specification sees it: leaf bytes or a tuple of values.
type Val struct {
	Leaf bool
	B    []byte
	K    []Val
}

func (v Val) MarshalJSON() ([]byte, error) { return v.app(nil), nil }

func (v Val) app(out []byte) []byte {
	out = append(out, '[')
	if v.Leaf {
		for i, x := range v.B {
			if i > 0 {
				out = append(out, ',')
			}
			out = strconv.AppendUint(out, uint64(x), 10)
		}
	} else {
		for i := range v.K {
			if i > 0 {
				out = append(out, ',')
			}
			out = v.K[i].app(out)
		}
	}
	return append(out, ']')
}

func (v Val) String() string { return string(v.app(nil)) }

// ParseVal reads a value of the given type.
func ParseVal(g *G, d json.RawMessage) Val {
	switch {
	case g.K == "bool" || g.K == "uint" || ((g.K == "array" || g.K == "slice") && g.E.IsByte()):
		var b Bytes
		if err := json.Unmarshal(d, &b); err != nil {
			panic(err)
		}
		return Val{Leaf: true, B: b}
	}
	var ks []json.RawMessage
	if err := json.Unmarshal(d, &ks); err != nil {
		panic(err)
	}
	v := Val{K: make([]Val, len(ks))}
	for i := range ks {
		if g.K == "struct" {
			v.K[i] = ParseVal(g.Fs[i].T, ks[i])
		} else if g.E != nil {
			v.K[i] = ParseVal(g.E, ks[i])
		}
	}
	return v
}

type sliceHeader struct {
	Data unsafe.Pointer
	Len  int
	Cap  int
}

// Project reads the Go value of type t at p.
func Project(g *G, t reflect.Type, p unsafe.Pointer) Val {
	switch g.K {
	case "bool":
		return Val{Leaf: true, B: []byte{*(*byte)(p)}}
	case "uint":
		b := make([]byte, g.N)
		switch g.N {
		case 1:
			b[0] = *(*byte)(p)
		case 2:
			binary.LittleEndian.PutUint16(b, *(*uint16)(p))
		case 4:
			binary.LittleEndian.PutUint32(b, *(*uint32)(p))
		case 8:
			binary.LittleEndian.PutUint64(b, *(*uint64)(p))
		}
		return Val{Leaf: true, B: b}
	case "ptr":
		q := *(*unsafe.Pointer)(p)
		if q == nil {
			return Val{}
		}
		return Val{K: []Val{Project(g.E, t.Elem(), q)}}
	case "array", "slice":
		n, data := 0, p
		if g.K == "array" {
			n = t.Len()
		} else {
			h := (*sliceHeader)(p)
			n, data = h.Len, h.Data
		}
		if g.E.IsByte() {
			b := make([]byte, n)
			for i := range b {
				b[i] = *(*byte)(unsafe.Pointer(uintptr(data) + uintptr(i)))
			}
			return Val{Leaf: true, B: b}
		}
		v := Val{K: make([]Val, n)}
		et := t.Elem()
		for i := range v.K {
			v.K[i] = Project(g.E, et, unsafe.Pointer(uintptr(data)+uintptr(i)*et.Size()))
		}
		return v
	case "struct":
		v := Val{K: make([]Val, len(g.Fs))}
		for i := range g.Fs {
			f := t.Field(i)
			v.K[i] = Project(g.Fs[i].T, f.Type, unsafe.Pointer(uintptr(p)+f.Offset))
		}
		return v
	}
	return Val{} // unsupported type, in an omitted field
}

// BuildOpts: how Build lays out the value.
type BuildOpts struct {
	Swap  bool       // byte-swap the elements of basic vectors and lists, as a big-endian host would have them
	Spare *rand.Rand // give slices spare capacity holding garbage
	Arena Arena      // cut slices out of larger ones, one behind the other: what follows a slice is another one
}

// Arena holds what is left of the larger slices, by type.
type Arena map[reflect.Type]reflect.Value

func (a Arena) cut(t reflect.Type, n int) reflect.Value {
	s, ok := a[t]
	if !ok || s.Len() < n {
		s = reflect.MakeSlice(t, n+32, n+32)
	}
	a[t] = s.Slice(n, s.Len())
	return s.Slice(0, n)
}

// AppendAnew: Mutate does not append into spare capacity, which belongs to others.
var AppendAnew bool

// Build stores v, a value of type t, at p, in newly allocated memory where memory is needed.
func Build(g *G, t reflect.Type, p unsafe.Pointer, v Val, o BuildOpts) {
	switch g.K {
	case "bool":
		*(*byte)(p) = v.B[0]
	case "uint":
		switch g.N {
		case 1:
			*(*byte)(p) = v.B[0]
		case 2:
			*(*uint16)(p) = binary.LittleEndian.Uint16(v.B)
		case 4:
			*(*uint32)(p) = binary.LittleEndian.Uint32(v.B)
		case 8:
			*(*uint64)(p) = binary.LittleEndian.Uint64(v.B)
		}
	case "ptr":
		rv := reflect.NewAt(t, p).Elem()
		if len(v.K) == 0 {
			rv.Set(reflect.Zero(t))
			return
		}
		n := reflect.New(t.Elem())
		Build(g.E, t.Elem(), n.UnsafePointer(), v.K[0], o)
		rv.Set(n)
	case "array", "slice":
		n := len(v.K)
		if v.Leaf {
			n = len(v.B)
		}
		data := p
		if g.K == "slice" {
			rv := reflect.NewAt(t, p).Elem()
			if n == 0 && o.Spare == nil && o.Arena == nil {
				rv.Set(reflect.Zero(t))
				return
			}
			c := n
			if o.Spare != nil {
				c += o.Spare.Intn(4)
			}
			var s reflect.Value
			if o.Arena != nil {
				c = n
				s = o.Arena.cut(t, n)
			} else {
				s = reflect.MakeSlice(t, c, c)
			}
			if c > 0 {
				data = s.Index(0).Addr().UnsafePointer()
			}
			if o.Spare != nil {
				for i := n; i < c; i++ {
					if n > 0 && o.Spare.Intn(2) == 0 {
						continue // see below
					}
					Build(g.E, t.Elem(), unsafe.Pointer(uintptr(data)+uintptr(i)*t.Elem().Size()), GenVal(g.E, o.Spare, 40), BuildOpts{Swap: o.Swap})
				}
			}
			rv.Set(s.Slice(0, n))
		}
		et := t.Elem()
		for i := 0; i < n; i++ {
			q := unsafe.Pointer(uintptr(data) + uintptr(i)*et.Size())
			if v.Leaf {
				*(*byte)(q) = v.B[i]
			} else {
				e := v.K[i]
				if o.Swap && g.E.K == "uint" {
					e = Val{Leaf: true, B: reversed(e.B)}
				}
				Build(g.E, et, q, e, o)
			}
		}
		if g.K == "slice" && o.Spare != nil && o.Arena == nil && n > 0 {
			// as removing elements in place leaves it: stale elements that are copies of live ones, pointers included
			full := reflect.NewAt(t, p).Elem()
			full = full.Slice(0, full.Cap())
			for i := n; i < full.Len(); i++ {
				if full.Index(i).IsZero() {
					full.Index(i).Set(full.Index(o.Spare.Intn(n)))
				}
			}
		}
	case "struct":
		for i := range g.Fs {
			f := t.Field(i)
			if i < len(v.K) {
				Build(g.Fs[i].T, f.Type, unsafe.Pointer(uintptr(p)+f.Offset), v.K[i], o)
			}
		}
	}
}

func reversed(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}

// ---- generation ----------------------------------------------------------------------------

var edges = []byte{0, 1, 2, 127, 128, 254, 255}

func genByte(r *rand.Rand) byte {
	if r.Intn(3) == 0 {
		return edges[r.Intn(len(edges))]
	}
	return byte(r.Intn(256))
}

func genBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	mode := r.Intn(6)
	for i := range b {
		switch mode {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 255
		case 2:
			b[i] = byte(i + 1)
		default:
			b[i] = genByte(r)
		}
	}
	return b
}

var lens = []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 34, 63, 64, 65, 95, 96, 97, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025}

// genLen picks a length of at most lim, for elements of about sz bytes within the budget.
func genLen(r *rand.Rand, lim uint64, sz, budget int) int {
	if sz < 1 {
		sz = 1
	}
	max := budget / sz
	if max < 1 {
		max = 1
	}
	if uint64(max) > lim {
		max = int(lim)
	}
	if max == 0 {
		return 0
	}
	switch r.Intn(7) {
	case 0:
		return max
	case 1:
		return max - 1
	case 2:
		return r.Intn(max + 1)
	case 3:
		if max > 6 {
			max = 6
		}
		return r.Intn(max + 1)
	default:
		for k := 0; k < 8; k++ {
			if n := lens[r.Intn(len(lens))]; n <= max {
				return n
			}
		}
		return 1
	}
}

// BitlistBytes packs n random bits with the delimiter.
func genBitlist(r *rand.Rand, n int) []byte {
	b := genBytes(r, n/8+1)
	b[n/8] &= 1<<uint(n%8) - 1
	b[n/8] |= 1 << uint(n%8)
	return b
}

// minSize estimates the size of a value with empty lists.
func minSize(g *G) int {
	switch g.K {
	case "ptr":
		return minSize(g.E)
	case "array":
		if g.E.IsByte() {
			return g.N
		}
		return g.N * (minSize(g.E) + 1)
	case "slice":
		return 4
	case "struct":
		s := 0
		for i := range g.Fs {
			if !g.Fs[i].Omit {
				s += minSize(g.Fs[i].T)
			}
		}
		return s
	}
	_, n := g.Fixed()
	return n
}

// GenVal makes a random valid value of about budget bytes at most (beyond what the type requires).
func GenVal(g *G, r *rand.Rand, budget int) Val {
	switch g.K {
	case "bool":
		return Val{Leaf: true, B: []byte{byte(r.Intn(2))}}
	case "uint":
		return Val{Leaf: true, B: genBytes(r, g.N)}
	case "ptr":
		return Val{K: []Val{GenVal(g.E, r, budget)}}
	case "array":
		if g.E.IsByte() {
			b := genBytes(r, g.N)
			if g.HasBL && g.BL%8 != 0 && len(b) > 0 {
				b[len(b)-1] &= 1<<uint(g.BL%8) - 1
			}
			return Val{Leaf: true, B: b}
		}
		v := Val{K: make([]Val, g.N)}
		for i := range v.K {
			v.K[i] = GenVal(g.E, r, budget/(g.N+1))
		}
		return v
	case "slice":
		if g.E.IsByte() {
			if g.HasBL {
				return Val{Leaf: true, B: genBitlist(r, genBitLen(r, g.Lim, 8*budget))}
			}
			return Val{Leaf: true, B: genBytes(r, genLen(r, g.Lim, 1, budget))}
		}
		n := genLen(r, g.Lim, minSize(g.E)+1, budget)
		v := Val{K: make([]Val, n)}
		left := budget
		for i := range v.K {
			b := left / (n - i)
			if r.Intn(4) == 0 {
				b = left / 2
			}
			v.K[i] = GenVal(g.E, r, b)
			left -= valSize(v.K[i])
			if left < 0 {
				left = 0
			}
		}
		return v
	case "struct":
		v := Val{K: make([]Val, len(g.Fs))}
		for i := range g.Fs {
			b := budget / (len(g.Fs) + 1)
			if r.Intn(4) == 0 {
				b = budget / 2
			}
			v.K[i] = GenVal(g.Fs[i].T, r, b)
		}
		return v
	}
	return Val{}
}

var bitLens = []int{0, 1, 2, 6, 7, 8, 9, 10, 14, 15, 16, 17, 23, 24, 25, 247, 248, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 263, 264, 265, 504, 505, 506, 507, 508, 509, 510, 511, 512, 513, 514, 520, 761, 767, 768, 769, 1016, 1023, 1024, 1025, 2040, 2047, 2048}

func genBitLen(r *rand.Rand, lim uint64, max int) int {
	if uint64(max) > lim {
		max = int(lim)
	}
	if max <= 0 {
		return 0
	}
	switch r.Intn(6) {
	case 0:
		return max
	case 1:
		return max - 1
	case 2:
		return r.Intn(max + 1)
	}
	for k := 0; k < 8; k++ {
		if n := bitLens[r.Intn(len(bitLens))]; n <= max {
			return n
		}
	}
	return r.Intn(max + 1)
}

func valSize(v Val) int {
	if v.Leaf {
		return len(v.B)
	}
	n := 0
	for i := range v.K {
		n += 1 + valSize(v.K[i])
	}
	return n
}

// Mutate changes one leaf of the Go value in place, writing through slices and pointers,
// and tells whether it found one. Bitfields and booleans stay well-formed.
func Mutate(g *G, t reflect.Type, p unsafe.Pointer, r *rand.Rand, depth int) bool {
	switch g.K {
	case "bool":
		*(*byte)(p) ^= 1
		return true
	case "uint":
		*(*byte)(unsafe.Pointer(uintptr(p) + uintptr(r.Intn(g.N)))) ^= byte(1 + r.Intn(255))
		return true
	case "ptr":
		q := *(*unsafe.Pointer)(p)
		return q != nil && Mutate(g.E, t.Elem(), q, r, depth+1)
	case "array", "slice":
		n, data := 0, p
		if g.K == "array" {
			n = t.Len()
		} else {
			h := (*sliceHeader)(p)
			n, data = h.Len, h.Data
		}
		if n == 0 {
			return false
		}
		if g.E.IsByte() && g.HasBL {
			bits := 8*n - 1
			if g.K == "array" {
				bits = g.BL
			} else {
				last := *(*byte)(unsafe.Pointer(uintptr(data) + uintptr(n-1)))
				for bits > 0 && last>>uint(bits%8) == 0 {
					bits--
					if bits%8 == 7 {
						return false
					}
				}
			}
			if bits == 0 {
				return false
			}
			i := r.Intn(bits)
			*(*byte)(unsafe.Pointer(uintptr(data) + uintptr(i/8))) ^= 1 << uint(i%8)
			return true
		}
		et := t.Elem()
		if g.K == "slice" && r.Intn(2) == 0 {
			rv := reflect.NewAt(t, p).Elem()
			if r.Intn(3) == 0 {
				// append, into spare capacity if there is any
				if g.HasLim && uint64(n) < uint64(g.Lim) {
					x := reflect.New(et)
					Build(g.E, et, x.UnsafePointer(), GenVal(g.E, r, 40), BuildOpts{})
					if AppendAnew {
						rv.Set(rv.Slice3(0, n, n))
					}
					rv.Set(reflect.Append(rv, x.Elem()))
					return true
				}
			} else {
				// remove elements in place
				i := r.Intn(n)
				j := i + 1 + r.Intn(n-i)
				rv.Set(reflect.AppendSlice(rv.Slice(0, i), rv.Slice(j, n)))
				return true
			}
		}
		o := r.Intn(n)
		for k := 0; k < n; k++ {
			i := (o + k) % n
			if Mutate(g.E, et, unsafe.Pointer(uintptr(data)+uintptr(i)*et.Size()), r, depth+1) {
				return true
			}
		}
		return false
	case "struct":
		n := len(g.Fs)
		if n == 0 {
			return false
		}
		o := r.Intn(n)
		for k := 0; k < n; k++ {
			i := (o + k) % n
			f := t.Field(i)
			if Mutate(g.Fs[i].T, f.Type, unsafe.Pointer(uintptr(p)+f.Offset), r, depth+1) {
				return true
			}
		}
	}
	return false
}
