package codec

import (
	"bytes"
	"errors"
	"hash/fnv"
	"reflect"
	"strconv"
	"strings"
	"unsafe"

	"github.com/protolambda/zssz/dec"
	"github.com/protolambda/zssz/enc"
	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/types"
)

// customs is a factory that puts definitions of its own in the place of some of the default ones.
// They behave like those, but do it through the contexts in different ways.
type customs struct {
	seed   int
	mode   int // 1: try to go past the scope first; 2: leave a byte unread
	keep   map[reflect.Type]bool
	made   int
	swaps  map[reflect.Type]reflect.Type
	inv    map[reflect.Type]bool
	past   int // attempts to go past the scope that succeeded
	unread int // bytes left unread
}

type custom struct {
	types.SSZ
	c     *customs
	style int
	typ   reflect.Type
}

// squashable notes the struct types that are embedded or squashed somewhere in typ: their fields are
// taken out of their definitions.
func squashable(typ reflect.Type, into map[reflect.Type]bool) {
	switch typ.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		squashable(typ.Elem(), into)
	case reflect.Struct:
		for i := 0; i < typ.NumField(); i++ {
			f := typ.Field(i)
			if f.Anonymous || strings.Contains(f.Tag.Get("ssz"), "squash") {
				into[f.Type] = true
			}
			squashable(f.Type, into)
		}
	}
}

func newCustoms(seed int, typ reflect.Type, swaps map[reflect.Type]reflect.Type, inv map[reflect.Type]bool) *customs {
	c := &customs{seed: seed, keep: map[reflect.Type]bool{}, swaps: swaps, inv: inv}
	squashable(typ, c.keep)
	return c
}

func (c *customs) top(typ reflect.Type) (types.SSZ, error) {
	return types.DefaultSSZFactory(c.factory, typ)
}

func (c *customs) factory(typ reflect.Type) (types.SSZ, error) {
	keep := c.keep[typ]
	inv := c.inv[typ]
	if t := c.swaps[typ]; t != nil { // the definition of another type
		typ = t
		c.made++
	}
	d, err := types.DefaultSSZFactory(c.factory, typ)
	if err == nil && inv {
		return &inverter{SSZ: d, bytewise: c.seed%2 == 0}, nil
	}
	if err != nil || keep {
		return d, err
	}
	switch typ.Kind() {
	case reflect.Array, reflect.Slice, reflect.Struct:
		h := fnv.New32a()
		h.Write([]byte(typ.String() + strconv.Itoa(c.seed)))
		if v := h.Sum32() >> 8; v%5 < 3 {
			c.made++
			return &custom{SSZ: d, c: c, style: int(v / 5 % 3), typ: typ}, nil
		}
	}
	return d, nil
}

// inverter encodes with all bits inverted, and mixes 7 into the root.
type inverter struct {
	types.SSZ
	bytewise bool
}

func (k *inverter) Encode(ew *enc.EncodingWriter, p unsafe.Pointer) error {
	var buf bytes.Buffer
	if err := k.SSZ.Encode(enc.NewEncodingWriter(&buf), p); err != nil {
		return err
	}
	b := buf.Bytes()
	for i := range b {
		b[i] = ^b[i]
	}
	if !k.bytewise {
		return ew.Write(b)
	}
	for _, x := range b {
		if err := ew.WriteByte(x); err != nil {
			return err
		}
	}
	return nil
}

// inverted is a reader for the bytes of the object, as the inner definition wants them
func (k *inverter) inverted(dr *dec.DecodingReader) (*dec.DecodingReader, error) {
	n := dr.GetBytesSpan()
	if k.IsFixed() {
		n = k.FixedLen()
	}
	if n > 1<<20 {
		return nil, errors.New("too large")
	}
	b := make([]byte, n)
	if k.bytewise {
		for i := range b {
			x, err := dr.ReadByte()
			if err != nil {
				return nil, err
			}
			b[i] = x
		}
	} else if _, err := dr.Read(b); err != nil {
		return nil, err
	}
	for i := range b {
		b[i] = ^b[i]
	}
	return dec.NewDecodingReader(bytes.NewReader(b)).Scope(n)
}

func (k *inverter) Decode(dr *dec.DecodingReader, p unsafe.Pointer) error {
	if dr.IsFuzzMode() {
		return k.SSZ.Decode(dr, p)
	}
	in, err := k.inverted(dr)
	if err != nil {
		return err
	}
	if err := k.SSZ.Decode(in, p); err != nil {
		return err
	}
	if in.GetBytesSpan() != 0 {
		return errors.New("bytes left over")
	}
	return nil
}

func (k *inverter) DryCheck(dr *dec.DecodingReader) error {
	in, err := k.inverted(dr)
	if err != nil {
		return err
	}
	if err := k.SSZ.DryCheck(in); err != nil {
		return err
	}
	if in.GetBytesSpan() != 0 {
		return errors.New("bytes left over")
	}
	return nil
}

func (k *inverter) HashTreeRoot(h htr.MerkleFn, p unsafe.Pointer) [32]byte {
	return h.MixIn(k.SSZ.HashTreeRoot(h, p), 7)
}

func (k *custom) plainBytes() bool {
	if k.typ.Kind() == reflect.Struct || k.typ.Elem().Kind() != reflect.Uint8 {
		return false
	}
	_, bits := reflect.PtrTo(k.typ).MethodByName("BitLen")
	return !bits
}

func (k *custom) bytesOf(p unsafe.Pointer) []byte {
	v := reflect.NewAt(k.typ, p).Elem()
	b := make([]byte, v.Len())
	for i := range b {
		b[i] = byte(v.Index(i).Uint())
	}
	return b
}

func (k *custom) Encode(ew *enc.EncodingWriter, p unsafe.Pointer) error {
	switch {
	case k.style == 1 && k.plainBytes(): // byte by byte
		for i, b := range k.bytesOf(p) {
			if i%3 == 1 {
				if err := ew.Write([]byte{b}); err != nil {
					return err
				}
				continue
			}
			if err := ew.WriteByte(b); err != nil {
				return err
			}
		}
		return nil
	case k.style == 2: // somewhere else first
		var buf bytes.Buffer
		other := enc.NewEncodingWriter(&buf)
		if err := k.SSZ.Encode(other, p); err != nil {
			return err
		}
		if other.Written() != buf.Len() {
			return errors.New("count is wrong")
		}
		return ew.Write(buf.Bytes())
	}
	return k.SSZ.Encode(ew, p)
}

// size of the object about to be read
func (k *custom) span(dr *dec.DecodingReader) uint64 {
	if k.IsFixed() {
		return k.FixedLen()
	}
	return dr.GetBytesSpan()
}

func (k *custom) tryPast(dr *dec.DecodingReader) {
	sp := dr.GetBytesSpan()
	at := dr.Index()
	if sp == ^uint64(0) {
		return
	}
	if sp < 1<<16 {
		if _, err := dr.Read(make([]byte, sp+1)); err == nil {
			k.c.past++
		}
	}
	if _, err := dr.Skip(sp + 1); err == nil {
		k.c.past++
	}
	if _, err := dr.Scope(sp + 1); err == nil {
		k.c.past++
	}
	if sp == 0 {
		if _, err := dr.ReadByte(); err == nil {
			k.c.past++
		}
	}
	if sp < 8 {
		if _, err := dr.ReadUint64(); err == nil {
			k.c.past++
		}
	}
	if dr.Index() != at || dr.GetBytesSpan() != sp {
		k.c.past++
	}
}

func (k *custom) read(dr *dec.DecodingReader, from func(dr *dec.DecodingReader) error) error {
	n := k.span(dr)
	switch k.c.mode {
	case 1:
		k.tryPast(dr)
	case 2:
		if n > 0 && n <= dr.GetBytesSpan() {
			k.c.unread++
			_, err := dr.Skip(n - 1)
			return err
		}
	}
	switch k.style {
	case 1: // in a scope within a scope
		out, err := dr.Scope(n)
		if err != nil {
			return err
		}
		in, err := out.Scope(n)
		if err != nil {
			return err
		}
		if err := from(in); err != nil {
			return err
		}
		out.UpdateIndexFromScoped(in)
		dr.UpdateIndexFromScoped(out)
		return nil
	case 2: // from a copy
		if n > dr.GetBytesSpan() {
			return errors.New("not enough")
		}
		if n > 1<<24 {
			return from(dr)
		}
		b := make([]byte, n)
		if _, err := dr.Read(b); err != nil {
			return err
		}
		in, err := dec.NewDecodingReader(bytes.NewBuffer(b)).Scope(n)
		if err != nil {
			return err
		}
		if err := from(in); err != nil {
			return err
		}
		if in.Index() != n {
			return errors.New("bytes left over")
		}
		return nil
	}
	return from(dr)
}

func (k *custom) Decode(dr *dec.DecodingReader, p unsafe.Pointer) error {
	if dr.IsFuzzMode() {
		return k.SSZ.Decode(dr, p)
	}
	if k.style == 1 && k.c.mode != 2 && k.IsFixed() && k.plainBytes() {
		if k.c.mode == 1 {
			k.tryPast(dr)
		}
		v := reflect.NewAt(k.typ, p).Elem()
		for i := 0; i < v.Len(); i++ {
			b, err := dr.ReadByte()
			if err != nil {
				return err
			}
			v.Index(i).SetUint(uint64(b))
		}
		return nil
	}
	return k.read(dr, func(dr *dec.DecodingReader) error { return k.SSZ.Decode(dr, p) })
}

func (k *custom) DryCheck(dr *dec.DecodingReader) error {
	return k.read(dr, func(dr *dec.DecodingReader) error { return k.SSZ.DryCheck(dr) })
}
