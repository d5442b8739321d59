// Command merkle records calls of merkle.Merkleize and merkle.ConstructProof, or replays the
// behaviours of spec/Merkleizer.tla into them.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"time"

	"verif/core"

	"github.com/protolambda/zssz/htr"
	"github.com/protolambda/zssz/merkle"
)

type M = map[string]interface{}

type proofQ struct {
	Idx core.Bytes   `json:"idx"`
	B   []*core.Tree `json:"b"`
}

type kase struct {
	Cnt    int          `json:"cnt"`
	Lim    core.Bytes   `json:"lim"`
	Leaves []*core.Tree `json:"leaves"`
	Depth  int          `json:"depth"`
	Tree   *core.Tree   `json:"tree"`
	Br     []proofQ     `json:"br"`
}

var cur string

func watch() {
	for {
		was := cur
		time.Sleep(30 * time.Second)
		if cur == was && was != "" {
			fmt.Fprintln(os.Stderr, "HANG", was)
			os.Exit(7)
		}
	}
}

func mfn(h *core.Hasher, via int) htr.MerkleFn {
	if via == 1 {
		return h
	}
	return htr.HashFn(func(b []byte) [32]byte { return h.Sum(b) })
}

func leafFn(leaves [][32]byte) func(i uint64) []byte {
	return func(i uint64) []byte { x := leaves[i]; return x[:] }
}

func root(f htr.MerkleFn, leaves [][32]byte, lim uint64) (r [32]byte, panicked string) {
	defer func() {
		if x := recover(); x != nil {
			panicked = fmt.Sprint(x)
		}
	}()
	return merkle.Merkleize(f, uint64(len(leaves)), lim, leafFn(leaves)), ""
}

func branch(f htr.MerkleFn, leaves [][32]byte, lim, idx uint64) (b [][32]byte, panicked string) {
	defer func() {
		if x := recover(); x != nil {
			panicked = fmt.Sprint(x)
		}
	}()
	return merkle.ConstructProof(f, uint64(len(leaves)), lim, leafFn(leaves), idx), ""
}

// own is a copy of the branch b, which is then overwritten, with its spare capacity: a branch belongs to the caller.
func own(b [][32]byte) [][32]byte {
	c := append([][32]byte{}, b...)
	b = b[:cap(b)]
	for i := range b {
		for j := range b[i] {
			b[i][j] ^= byte(0x5a + i + j)
		}
	}
	return c
}

func fold(h *core.Hasher, leaf [32]byte, b [][32]byte, idx uint64) [32]byte {
	for j, s := range b {
		var v [64]byte
		if idx>>uint(j)&1 == 0 {
			copy(v[:32], leaf[:])
			copy(v[32:], s[:])
		} else {
			copy(v[:32], s[:])
			copy(v[32:], leaf[:])
		}
		leaf = h.Raw(v[:])
	}
	return leaf
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func main() {
	replay := flag.String("replay", "", "behaviours")
	out := flag.String("out", "", "output")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "cases")
	maxLeaves := flag.Int("leaves", 400, "most leaves")
	salts := flag.Int("salts", 1, "hash functions")
	abs := flag.Bool("abs", false, "compare roots and branches with the specification's, instead of with each other")
	noproof := flag.Bool("noproof", false, "roots only")
	roots := flag.String("roots", "", "trees to evaluate")
	large := flag.Bool("huge", false, "many leaves")
	trees := flag.String("trees", "", "trees and roots to compare")
	flag.Parse()
	if *trees != "" {
		core.CompareTrees(*trees)
		return
	}
	if *roots != "" {
		core.EvalRoots(*roots)
		return
	}
	go watch()
	of, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	emit := func(m interface{}) {
		d, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		w.Write(d)
		w.WriteByte('\n')
	}
	hs := map[int]*core.Hasher{}
	for i := 0; i < *salts; i++ {
		hs[i] = core.NewHasher(i)
	}
	if *replay != "" {
		cases, proofs, bad := 0, 0, 0
		err := core.Behaviours(*replay, func(d []byte) bool {
			var k kase
			if err := json.Unmarshal(d, &k); err != nil {
				panic(err)
			}
			cases++
			salt := cases % *salts
			h := hs[salt]
			if *salts > 1 {
				htr.InitZeroHashes(h.Raw0)
			}
			lim := core.UnDigits(k.Lim)
			leaves := make([][32]byte, k.Cnt)
			for i := range leaves {
				leaves[i] = h.Root(k.Leaves[i])
			}
			cur = fmt.Sprint("case ", cases)
			f := mfn(h, cases/2%2)
			r, p := root(f, leaves, lim)
			mis := func(why string, idx core.Bytes) {
				bad++
				emit(M{"why": why, "cnt": k.Cnt, "lim": k.Lim, "idx": idx, "leaves": k.Leaves, "hash": salt})
			}
			if p != "" {
				mis("Merkleize panics: "+p, nil)
				return bad < 20
			}
			want := h.Root(k.Tree)
			if *abs && r != want {
				mis("the root is not that of the specified tree", nil)
				return bad < 20
			}
			for _, q := range k.Br {
				if *noproof {
					break
				}
				idx := core.UnDigits(q.Idx)
				b, p := branch(f, leaves, lim, idx)
				proofs++
				if proofs%3 == 0 {
					b = own(b)
				}
				if p != "" {
					mis("ConstructProof panics: "+p, q.Idx)
					break
				}
				if len(b) != k.Depth {
					mis(fmt.Sprintf("the branch has %d siblings for %d levels", len(b), k.Depth), q.Idx)
					break
				}
				same := true
				for j := range b {
					same = same && b[j] == h.Root(q.B[j])
				}
				if same && r == want {
					continue
				}
				var leaf [32]byte
				if idx < uint64(len(leaves)) {
					leaf = leaves[idx]
				}
				if !*abs && fold(h, leaf, b, idx) == r {
					continue
				}
				mis("the branch does not lead to the root", q.Idx)
				break
			}
			return bad < 20
		})
		if err != nil {
			panic(err)
		}
		w.Flush()
		fmt.Printf("{\"scenarios\":%d,\"proofs\":%d,\"mismatches\":%d}\n", cases, proofs, bad)
		return
	}
	rng := rand.New(rand.NewSource(*seed))
	if *large {
		proofs := 0
		for i := 0; i < *n; i++ {
			cur = fmt.Sprint("case ", i)
			h := hs[i%*salts]
			htr.InitZeroHashes(h.Raw0)
			c, k := huge(rng, h, i)
			proofs += k
			emit(c)
		}
		w.Flush()
		fmt.Printf("{\"cases\":%d,\"proofs\":%d}\n", *n, proofs)
		return
	}
	proofs := 0
	for i := 0; i < *n; i++ {
		h := hs[i%*salts]
		if *salts > 1 {
			htr.InitZeroHashes(h.Raw0)
		}
		h.Reset()
		cnt := rng.Intn(1 + rng.Intn(1+rng.Intn(*maxLeaves+1)))
		if rng.Intn(6) == 0 {
			cnt = 1<<uint(rng.Intn(8)) + rng.Intn(3) - 1
		}
		lim := uint64(cnt)
		switch rng.Intn(7) {
		case 0:
		case 1:
			lim += uint64(rng.Intn(5))
		case 2:
			lim += uint64(rng.Intn(2*cnt + 2))
		case 3:
			lim = 1<<uint(8+rng.Intn(56)) + uint64(rng.Intn(3)) - 1
		case 4:
			lim = 1 << uint(8+rng.Intn(56))
		case 5:
			lim = rng.Uint64() >> uint(rng.Intn(50))
		case 6:
			lim = ^uint64(0) - uint64(rng.Intn(3))
		}
		if lim < uint64(cnt) {
			lim = uint64(cnt)
		}
		leaves := make([][32]byte, cnt)
		jl := make([]core.Bytes, cnt)
		mode := rng.Intn(4)
		for k := range leaves {
			switch {
			case mode == 0 || mode == 1 && rng.Intn(2) == 0:
				rng.Read(leaves[k][:])
			case mode == 2:
				leaves[k][rng.Intn(32)] = byte(rng.Intn(4))
			case mode == 3:
				leaves[k][0] = 9
			}
			x := leaves[k]
			jl[k] = core.Bytes(x[:])
		}
		cur = fmt.Sprint("case ", i)
		f := mfn(h, rng.Intn(2))
		c := M{"cnt": cnt, "lim": core.Digits(lim), "leaves": jl, "panic": 0, "hash": i % *salts}
		r, p := root(f, leaves, lim)
		if p != "" {
			c["panic"], c["msg"] = 1, p
			c["br"] = []interface{}{}
			emit(c)
			continue
		}
		var qs []interface{}
		type pend struct {
			m M
			b [][32]byte
		}
		var ps []pend
		for k := 0; k < 6 && lim > 0; k++ {
			var idx uint64
			switch rng.Intn(6) {
			case 0, 1:
				idx = uint64(rng.Intn(cnt + 1))
			case 2:
				idx = uint64(cnt + rng.Intn(4))
			case 3:
				idx = lim - 1 - uint64(rng.Intn(3))
			case 4:
				idx = rng.Uint64() % lim
			case 5:
				idx = 1 << uint(rng.Intn(64))
			}
			if idx >= lim {
				idx = lim - 1
			}
			b, p := branch(f, leaves, lim, idx)
			proofs++
			if k%2 == 1 { // the others are kept, and must not change
				b = own(b)
			}
			m := M{"idx": core.Digits(idx), "panic": 0}
			if p != "" {
				m["panic"], m["msg"], m["b"] = 1, p, []interface{}{}
			}
			var leaf [32]byte
			if idx < uint64(len(leaves)) {
				leaf = leaves[idx]
			}
			m["folds"] = b2i(p == "" && fold(h, leaf, b, idx) == r)
			ps = append(ps, pend{m, b})
			qs = append(qs, m)
		}
		for _, p := range ps {
			bt := []*core.Tree{}
			for _, x := range p.b {
				bt = append(bt, h.Recover(x))
			}
			p.m["b"] = bt
		}
		c["tree"] = h.Recover(r)
		c["root"] = core.Bytes(r[:])
		if qs == nil {
			qs = []interface{}{}
		}
		c["br"] = qs
		emit(c)
	}
	w.Flush()
	fmt.Printf("{\"cases\":%d,\"proofs\":%d}\n", *n, proofs)
}

// huge is one case of very many leaves, in runs of equal ones.
func huge(rng *rand.Rand, h *core.Hasher, i int) (M, int) {
	bits := []uint{16, 16, 16, 15, 17, 12, 13, 14, 18}[i%9]
	if i%40 == 39 {
		bits = 20
	}
	cnt := uint64(1) << bits
	switch rng.Intn(4) {
	case 0:
		cnt += uint64(rng.Intn(5)) - 2
	case 1:
		cnt -= uint64(rng.Intn(int(cnt / 2)))
	}
	lim := cnt
	switch rng.Intn(6) {
	case 0:
		lim += uint64(rng.Intn(3))
	case 1:
		lim = 1<<(bits+1+uint(rng.Intn(int(63-bits)))) + uint64(rng.Intn(3)) - 1
	case 2:
		lim = 1 << (bits + uint(rng.Intn(int(64-bits))))
	case 3:
		lim = ^uint64(0) - uint64(rng.Intn(3))
	case 4:
		lim = 1<<bits + 1
	}
	if lim < cnt {
		lim = cnt
	}
	// positions where the leaf changes
	ends := map[uint64]bool{cnt: true}
	for k := rng.Intn(6); k > 0; k-- {
		p := rng.Uint64() % cnt
		switch rng.Intn(3) {
		case 0:
			p = cnt - 1 - uint64(rng.Intn(4))
		case 1:
			p = 1 << uint(rng.Intn(int(bits)))
		}
		if p > 0 && p <= cnt {
			ends[p] = true
		}
		if rng.Intn(2) == 0 && p+1 < cnt {
			ends[p+1] = true
		}
	}
	var sorted []uint64
	for p := range ends {
		sorted = append(sorted, p)
	}
	sort.Slice(sorted, func(a, b int) bool { return sorted[a] < sorted[b] })
	leaves := make([][32]byte, len(sorted))
	runs := []interface{}{}
	from := uint64(0)
	for k, p := range sorted {
		switch rng.Intn(4) {
		case 0:
		case 1:
			leaves[k][rng.Intn(32)] = byte(1 + rng.Intn(255))
		default:
			rng.Read(leaves[k][:])
		}
		if k > 0 && leaves[k] == leaves[k-1] {
			leaves[k][31] ^= 1
		}
		runs = append(runs, []interface{}{core.Digits(p - from), core.Bytes(append([]byte{}, leaves[k][:]...))})
		from = p
	}
	leaf := func(i uint64) []byte {
		k := sort.Search(len(sorted), func(k int) bool { return sorted[k] > i })
		x := leaves[k]
		return x[:]
	}
	f := htr.HashFn(h.Raw0)
	c := M{"runs": runs, "lim": core.Digits(lim), "hash": h.Salt, "panic": 0, "root": core.Bytes{}}
	brs := []interface{}{}
	c["panic"] = b2i(panics(func() {
		r := merkle.Merkleize(f, cnt, lim, leaf)
		c["root"] = core.Bytes(r[:])
	}))
	for k := 0; k < 3 && c["panic"] == 0; k++ {
		idx := rng.Uint64() % lim
		switch rng.Intn(6) {
		case 0, 1:
			idx = rng.Uint64() % cnt
		case 2:
			idx = cnt + uint64(rng.Intn(4)) - 2
		case 3:
			idx = 1<<16 + uint64(rng.Intn(5)) - 2
		}
		if idx >= lim {
			idx = lim - 1
		}
		q := M{"idx": core.Digits(idx), "b": []core.Bytes{}}
		q["panic"] = b2i(panics(func() {
			b := []core.Bytes{}
			for _, x := range own(merkle.ConstructProof(f, cnt, lim, leaf, idx)) {
				b = append(b, core.Bytes(append([]byte{}, x[:]...)))
			}
			q["b"] = b
		}))
		brs = append(brs, q)
	}
	c["br"] = brs
	return c, len(brs)
}

func panics(f func()) (p bool) {
	defer func() {
		if recover() != nil {
			p = true
		}
	}()
	f()
	return
}
