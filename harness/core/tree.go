package core

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
)

// Tree is a Merkle tree as in SSZ.tla and Huge.tla: 0 chunk, 1 node, 2 zero tree of a depth,
// 3 tree of a depth all of whose leaves are L.
type Tree struct {
	Kind  int
	Chunk []byte
	L, R  *Tree
	D     int
}

func (t *Tree) app(o []byte) []byte {
	switch t.Kind {
	case 0:
		o = append(o, "[0,["...)
		for i, x := range t.Chunk {
			if i > 0 {
				o = append(o, ',')
			}
			o = strconv.AppendUint(o, uint64(x), 10)
		}
		return append(o, "]]"...)
	case 1:
		o = append(o, "[1,"...)
		o = t.L.app(o)
		o = append(o, ',')
		o = t.R.app(o)
		return append(o, ']')
	}
	o = append(o, "[2,"...)
	o = strconv.AppendInt(o, int64(t.D), 10)
	return append(o, ']')
}

func (t *Tree) MarshalJSON() ([]byte, error) { return t.app(nil), nil }

func (t *Tree) UnmarshalJSON(d []byte) error {
	var raw []json.RawMessage
	if err := json.Unmarshal(d, &raw); err != nil {
		return err
	}
	if err := json.Unmarshal(raw[0], &t.Kind); err != nil {
		return err
	}
	switch t.Kind {
	case 0:
		var b Bytes
		if err := json.Unmarshal(raw[1], &b); err != nil {
			return err
		}
		t.Chunk = b
	case 1:
		t.L, t.R = new(Tree), new(Tree)
		if err := t.L.UnmarshalJSON(raw[1]); err != nil {
			return err
		}
		return t.R.UnmarshalJSON(raw[2])
	case 3:
		t.L = new(Tree)
		if err := t.L.UnmarshalJSON(raw[1]); err != nil {
			return err
		}
		return json.Unmarshal(raw[2], &t.D)
	default:
		return json.Unmarshal(raw[1], &t.D)
	}
	return nil
}

// Hasher is a hash function on 64 bytes: SHA-256, or SHA-256 with a salt behind the input. With
// salts from 4 on it agrees with SHA-256 on some inputs: when the first half is zero (4), is not
// zero (5), equals the second half (6), or the second half is not zero (7).
type Hasher struct {
	Salt  int
	seen  map[[32]byte][64]byte
	zeros map[[32]byte]int
	Zs    [65][32]byte
	Calls int
}

func NewHasher(salt int) *Hasher {
	h := &Hasher{Salt: salt, zeros: map[[32]byte]int{}}
	var z [32]byte
	h.zeros[z] = 0
	for i := 1; i <= 64; i++ {
		var b [64]byte
		copy(b[:32], z[:])
		copy(b[32:], z[:])
		z = h.Raw(b[:])
		h.zeros[z] = i
		h.Zs[i] = z
	}
	return h
}

// Raw computes the hash without recording.
func (h *Hasher) Raw(b []byte) [32]byte {
	plain := h.Salt == 0
	if h.Salt >= 4 && len(b) == 64 {
		l, r, zero := b[:32], b[32:], make([]byte, 32)
		switch h.Salt {
		case 4:
			plain = bytes.Equal(l, zero)
		case 5:
			plain = !bytes.Equal(l, zero)
		case 6:
			plain = bytes.Equal(l, r)
		case 7:
			plain = !bytes.Equal(r, zero)
		}
	}
	if plain {
		return sha256.Sum256(b)
	}
	return sha256.Sum256(append(append([]byte{}, b...), byte(h.Salt)))
}

// Raw0 is Raw, as a function to hand to the code under test for its zero hashes.
func (h *Hasher) Raw0(b []byte) [32]byte { return h.Raw(b) }

func (h *Hasher) Reset() { h.seen = map[[32]byte][64]byte{}; h.Calls = 0 }

// Sum computes and records.
func (h *Hasher) Sum(b []byte) [32]byte {
	o := h.Raw(b)
	h.Calls++
	if len(b) == 64 && h.seen != nil {
		var k [64]byte
		copy(k[:], b)
		h.seen[o] = k
	}
	return o
}

// Combi and MixIn make the Hasher a MerkleFn of its own.
func (h *Hasher) Combi(a [32]byte, b [32]byte) [32]byte {
	var v [64]byte
	copy(v[:32], a[:])
	copy(v[32:], b[:])
	return h.Sum(v[:])
}

func (h *Hasher) MixIn(a [32]byte, i uint64) [32]byte {
	var b [32]byte
	for j := 0; j < 8; j++ {
		b[j] = byte(i >> (8 * uint(j)))
	}
	return h.Combi(a, b)
}

// Recover finds the tree under a root from the recorded hash calls.
func (h *Hasher) Recover(root [32]byte) *Tree { return h.recover(root, 0) }

func (h *Hasher) recover(root [32]byte, depth int) *Tree {
	if d, ok := h.zeros[root]; ok {
		return &Tree{Kind: 2, D: d}
	}
	if in, ok := h.seen[root]; ok && depth < 400 {
		var a, b [32]byte
		copy(a[:], in[:32])
		copy(b[:], in[32:])
		return &Tree{Kind: 1, L: h.recover(a, depth+1), R: h.recover(b, depth+1)}
	}
	n := 32
	for n > 0 && root[n-1] == 0 {
		n--
	}
	return &Tree{Kind: 0, Chunk: append([]byte{}, root[:n]...)}
}

// Root evaluates a tree.
func (h *Hasher) Root(t *Tree) (o [32]byte) {
	switch t.Kind {
	case 0:
		copy(o[:], t.Chunk)
	case 1:
		a, b := h.Root(t.L), h.Root(t.R)
		var v [64]byte
		copy(v[:32], a[:])
		copy(v[32:], b[:])
		o = h.Raw(v[:])
	case 3:
		o = h.Root(t.L)
		for i := 0; i < t.D; i++ {
			var v [64]byte
			copy(v[:32], o[:])
			copy(v[32:], o[:])
			o = h.Raw(v[:])
		}
	default:
		o = h.Zs[t.D]
	}
	return
}

// EvalRoots prints the root of a tree.
func EvalRoots(path string) {
	d, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var q struct {
		H    int   `json:"h"`
		Tree *Tree `json:"tree"`
	}
	if err := json.Unmarshal(d, &q); err != nil {
		panic(err)
	}
	r := NewHasher(q.H).Root(q.Tree)
	o, _ := json.Marshal(map[string]interface{}{"root": Bytes(r[:])})
	fmt.Println(string(o))
}

// CompareTrees prints the lines whose root is not that of the tree.
func CompareTrees(path string) {
	f, err := os.Open(path)
	check(err)
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	bad, n := []int{}, 0
	hs := map[int]*Hasher{}
	for sc.Scan() {
		var q struct {
			H    int   `json:"h"`
			Tree *Tree `json:"tree"`
			Root Bytes `json:"root"`
		}
		check(json.Unmarshal(sc.Bytes(), &q))
		if hs[q.H] == nil {
			hs[q.H] = NewHasher(q.H)
		}
		if r := hs[q.H].Root(q.Tree); !bytes.Equal(r[:], q.Root) {
			bad = append(bad, n)
		}
		n++
	}
	d, _ := json.Marshal(map[string]interface{}{"trees": n, "bad": bad})
	fmt.Println(string(d))
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}
