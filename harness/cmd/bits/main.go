// Command bits records histories of bitfield operations, or replays those of spec/BitfieldMC.tla.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"

	"verif/core"

	"github.com/protolambda/zssz/bitfields"
)

type M = map[string]interface{}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// do runs one operation on b; the answer, whether it panicked.
func do(b []byte, e M) {
	e["panic"] = 0
	defer func() {
		if r := recover(); r != nil {
			e["panic"], e["msg"] = 1, fmt.Sprint(r)
		}
		e["after"] = core.Bytes(append([]byte{}, b...))
	}()
	n := func() uint64 { return core.UnDigits(e["n"].(core.Bytes)) }
	m := func() uint64 { return core.UnDigits(e["m"].(core.Bytes)) }
	x := func() byte { return byte(e["x"].(int)) }
	switch e["k"] {
	case "get":
		e["r"] = b2i(bitfields.GetBit(b, uint64(e["i"].(int))))
	case "set":
		bitfields.SetBit(b, uint64(e["i"].(int)), e["v"].(int) == 1)
	case "len":
		e["r"] = int(bitfields.BitlistLen(b))
	case "zero":
		e["r"] = b2i(bitfields.IsZeroBitlist(b))
	case "lc":
		e["r"] = b2i(bitfields.BitlistCheck(b, n()) == nil)
	case "vc":
		e["r"] = b2i(bitfields.BitvectorCheck(b, n()) == nil)
	case "lbl":
		e["r"] = b2i(bitfields.BitlistCheckByteLen(m(), n()) == nil)
	case "llb":
		e["r"] = b2i(bitfields.BitlistCheckLastByte(x(), n()) == nil)
	case "vbl":
		e["r"] = b2i(bitfields.BitvectorCheckByteLen(m(), n()) == nil)
	case "vlb":
		e["r"] = b2i(bitfields.BitvectorCheckLastByte(x(), n()) == nil)
	case "hi":
		e["r"] = int(bitfields.BitIndex(x()))
	}
}

type record struct {
	B    core.Bytes      `json:"b"`
	Bits core.Bytes      `json:"bits"`
	Len  int             `json:"len"`
	Zero int             `json:"zero"`
	Lc   []core.Bytes    `json:"lc"`
	Nlc  []core.Bytes    `json:"nlc"`
	Vc   []core.Bytes    `json:"vc"`
	Nvc  []core.Bytes    `json:"nvc"`
	Sets [][2]core.Bytes `json:"sets"`
}

func replay(path string, emit func(interface{})) {
	states, calls, bad := 0, 0, 0
	err := core.Behaviours(path, func(d []byte) bool {
		var r record
		if err := json.Unmarshal(d, &r); err != nil {
			panic(err)
		}
		states++
		check := func(e M, want int, after core.Bytes) {
			calls++
			do(append([]byte{}, r.B...), e)
			got, _ := e["r"].(int)
			if e["k"] == "set" {
				got = want
			}
			if e["panic"] == 1 || got != want || !bytes.Equal(e["after"].(core.Bytes), after) {
				bad++
				emit(M{"why": fmt.Sprint(e["k"], " on ", []byte(r.B), " is not as specified"), "b": r.B, "event": e, "want": want, "after": after})
			}
		}
		for i := range r.Bits {
			check(M{"k": "get", "i": i}, int(r.Bits[i]), r.B)
			for v := 0; v < 2; v++ {
				check(M{"k": "set", "i": i, "v": v}, 0, r.Sets[i][v])
			}
		}
		check(M{"k": "len"}, r.Len, r.B)
		check(M{"k": "zero"}, r.Zero, r.B)
		for k, q := range map[string][2][]core.Bytes{"lc": {r.Nlc, r.Lc}, "vc": {r.Nvc, r.Vc}} {
			for want, ls := range q {
				for _, l := range ls {
					check(M{"k": k, "n": l}, want, r.B)
				}
			}
		}
		return bad < 20
	})
	if err != nil {
		panic(err)
	}
	fmt.Printf("{\"scenarios\":%d,\"calls\":%d,\"mismatches\":%d}\n", states, calls, bad)
}

func main() {
	rp := flag.String("replay", "", "behaviours")
	out := flag.String("out", "", "output")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "histories")
	steps := flag.Int("steps", 25, "operations each")
	large := flag.Bool("huge", false, "large bitfields")
	flag.Parse()
	of, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriter(of)
	defer w.Flush()
	emit := func(m interface{}) {
		d, _ := json.Marshal(m)
		w.Write(d)
		w.WriteByte('\n')
	}
	if *rp != "" {
		replay(*rp, emit)
		return
	}
	r := rand.New(rand.NewSource(*seed))
	if *large {
		events := 0
		for i := 0; i < *n; i++ {
			line := huge(r, i)
			events += len(line["ev"].([]M))
			emit(line)
		}
		fmt.Printf("{\"sessions\":%d,\"events\":%d}\n", *n, events)
		return
	}
	around := func(k int) core.Bytes {
		switch r.Intn(8) {
		case 0:
			return core.Digits(r.Uint64() >> uint(r.Intn(64)))
		case 1:
			return core.Digits(^uint64(0) - uint64(r.Intn(10)))
		case 2:
			return core.Digits(1<<63 + uint64(r.Intn(9)) - 4)
		}
		v := k + r.Intn(19) - 9
		if v < 0 {
			v = 0
		}
		return core.Digits(uint64(v))
	}
	events := 0
	for i := 0; i < *n; i++ {
		b := make([]byte, r.Intn(1+r.Intn(70)))
		switch r.Intn(4) {
		case 0:
		case 1:
			for j := range b {
				b[j] = 255
			}
		default:
			r.Read(b)
		}
		if len(b) > 0 {
			switch r.Intn(3) {
			case 0:
				b[len(b)-1] = 1 << uint(r.Intn(8))
			case 1:
				b[len(b)-1] = 0
			}
		}
		start := core.Bytes(append([]byte{}, b...))
		var evs []interface{}
		for k := 0; k < *steps; k++ {
			e := M{}
			bits := 8 * len(b)
			c := r.Intn(16)
			if bits == 0 && c < 6 {
				c = 6
			}
			switch c {
			case 0, 1, 2, 3:
				e["k"], e["i"], e["v"] = "set", r.Intn(bits), r.Intn(2)
				if r.Intn(4) == 0 { // towards all zero
					e["v"] = 0
				}
			case 4, 5:
				e["k"], e["i"] = "get", r.Intn(bits)
			case 6, 7:
				e["k"] = "len"
			case 8:
				e["k"] = "zero"
			case 9, 10:
				e["k"], e["n"] = "lc", around(bits-4)
			case 11, 12:
				e["k"], e["n"] = "vc", around(bits)
			case 13:
				e["k"], e["m"], e["n"] = []string{"lbl", "vbl"}[r.Intn(2)], around(len(b)), around(bits)
				if r.Intn(4) == 0 { // lengths of huge bitfields
					v := r.Uint64()
					e["n"] = core.Digits(v)
					e["m"] = core.Digits(v/8 + uint64(r.Intn(4)) - 1)
				}
			case 14:
				e["k"], e["x"], e["n"] = []string{"llb", "vlb"}[r.Intn(2)], r.Intn(256), around(bits)
				if r.Intn(2) == 0 {
					e["n"] = core.Digits(uint64(r.Intn(20)))
				}
			case 15:
				e["k"], e["x"] = "hi", r.Intn(256)
			}
			if e["k"] == "set" || e["k"] == "get" {
				e["i"] = e["i"].(int)
			}
			do(b, e)
			evs = append(evs, e)
			events++
		}
		emit(M{"b": start, "ev": evs})
	}
	fmt.Printf("{\"sessions\":%d,\"events\":%d}\n", *n, events)
}

// huge is a history of operations on a bitfield of up to 2^33 bits.
func huge(r *rand.Rand, i int) M {
	size, steps := uint64(1)<<13, 14
	switch {
	case i%20 == 19: // 2^31 and 2^32 bits
		size, steps = 1<<28<<uint(r.Intn(2)), 3
	case i%5 == 4:
		size, steps = 1<<21<<uint(3*r.Intn(2)), 6
	case i%2 == 1:
		size = 1 << 16
	}
	size += uint64(r.Intn(7)) - 3
	b := make([]byte, size)
	if r.Intn(3) == 0 {
		core.Rope{{N: size, B: byte(r.Intn(256))}}.Fill(b)
	}
	at := func() uint64 {
		p := uint64(r.Intn(40))
		switch r.Intn(6) {
		case 0, 1:
			p = 8*size - 1 - uint64(r.Intn(40))
		case 2:
			p = uint64(r.Int63n(int64(8 * size)))
		case 3:
			p = 1<<16 + uint64(r.Intn(9)) - 4
		case 4:
			p = size + uint64(r.Intn(9)) - 4
		}
		if p >= 8*size {
			p = 8*size - 1
		}
		return p
	}
	for k := r.Intn(4); k > 0; k-- {
		p := at()
		b[p/8] ^= byte(1 << (p % 8))
	}
	switch r.Intn(3) {
	case 0:
		b[size-1] = 1 << uint(r.Intn(8))
	case 1:
		b[size-1] = 0
	}
	start := core.RopeOf(b)
	evs := []M{}
	bool2d := func(b bool) core.Bytes { return core.Digits(uint64(b2i(b))) }
	for k := 0; k < steps; k++ {
		e := M{"panic": 0, "r": core.Bytes{}}
		p, v := at(), r.Intn(2)
		m := uint64(int64(8*size) + int64(r.Intn(40)) - 30)
		if r.Intn(4) == 0 {
			m += 1 << 16
		}
		func() {
			defer func() {
				if x := recover(); x != nil {
					e["panic"], e["msg"] = 1, fmt.Sprint(x)
				}
			}()
			switch c := r.Intn(12); {
			case c < 5:
				e["k"], e["i"], e["v"] = "set", core.Digits(p), v
				bitfields.SetBit(b, p, v == 1)
			case c < 7:
				e["k"], e["i"] = "get", core.Digits(p)
				e["r"] = bool2d(bitfields.GetBit(b, p))
			case c < 8:
				e["k"] = "len"
				e["r"] = core.Digits(bitfields.BitlistLen(b))
			case c < 10:
				e["k"] = "zero"
				e["r"] = bool2d(bitfields.IsZeroBitlist(b))
			case c < 11:
				e["k"], e["n"] = "lc", core.Digits(m)
				e["r"] = bool2d(bitfields.BitlistCheck(b, m) == nil)
			default:
				e["k"], e["n"] = "vc", core.Digits(m)
				e["r"] = bool2d(bitfields.BitvectorCheck(b, m) == nil)
			}
		}()
		e["after"] = core.RopeOf(b)
		evs = append(evs, e)
	}
	return M{"b": start, "ev": evs}
}
