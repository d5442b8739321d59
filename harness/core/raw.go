package core

import (
	"encoding/binary"
	"hash"
	"hash/fnv"
	"reflect"
	"unsafe"
)

// Raw is a fingerprint of the memory of the value of type t at p: every byte of it and of what its
// pointers and slices refer to, up to the capacity of the slices.
func Raw(t reflect.Type, p unsafe.Pointer) uint64 {
	h := fnv.New64a()
	raw(h, t, p, 0)
	return h.Sum64()
}

func memory(p unsafe.Pointer, n uintptr) []byte {
	return unsafe.Slice((*byte)(p), n)
}

// hasRefs: there is something to follow in a t.
func hasRefs(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice:
		return true
	case reflect.Array:
		return t.Len() > 0 && hasRefs(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasRefs(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func raw(h hash.Hash, t reflect.Type, p unsafe.Pointer, depth int) {
	if t.Size() > 0 {
		h.Write(memory(p, t.Size()))
	}
	follow(h, t, p, depth)
}

func follow(h hash.Hash, t reflect.Type, p unsafe.Pointer, depth int) {
	if depth > 30 || !hasRefs(t) {
		return
	}
	switch t.Kind() {
	case reflect.Ptr:
		if q := *(*unsafe.Pointer)(p); q != nil {
			raw(h, t.Elem(), q, depth+1)
		}
	case reflect.Slice:
		s := (*sliceHeader)(p)
		n := uintptr(s.Cap)
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(n))
		h.Write(b[:])
		et := t.Elem()
		if n > 0 && et.Size() > 0 {
			h.Write(memory(s.Data, n*et.Size()))
			for i := uintptr(0); i < n && hasRefs(et); i++ {
				follow(h, et, unsafe.Pointer(uintptr(s.Data)+i*et.Size()), depth+1)
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			follow(h, t.Elem(), unsafe.Pointer(uintptr(p)+uintptr(i)*t.Elem().Size()), depth+1)
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			follow(h, f.Type, unsafe.Pointer(uintptr(p)+f.Offset), depth+1)
		}
	}
}
