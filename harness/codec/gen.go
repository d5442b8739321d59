package codec

import (
	"math/rand"

	"verif/core"
)

// Gen makes the sessions of a property.
type Gen struct {
	X    *Exec
	R    *rand.Rand
	Ev   []M
	Quot map[string][]*core.Entry
	// the slices of all values lie behind each other
	Carve bool
}

func NewGen(x *Exec, seed int64) *Gen {
	g := &Gen{X: x, R: rand.New(rand.NewSource(seed)), Quot: map[string][]*core.Entry{}}
	for _, e := range x.Cat {
		if e.Is("swap") {
			if e.Is("inv") {
				g.Quot["inv"] = append(g.Quot["inv"], e)
			} else if e.Outer != nil {
				g.Quot["swap"] = append(g.Quot["swap"], e)
			}
			continue
		}
		for _, c := range e.Cls {
			g.Quot[c] = append(g.Quot[c], e)
		}
		if e.Is("ok") && !e.Is("zero") {
			g.Quot["std"] = append(g.Quot["std"], e)
			if e.G.K == "struct" {
				g.Quot["stdcont"] = append(g.Quot["stdcont"], e)
			}
			if hasVar(e.G) {
				g.Quot["stdvar"] = append(g.Quot["stdvar"], e)
			}
			if hasPtrOrSlice(e.G) {
				g.Quot["heap"] = append(g.Quot["heap"], e)
			}
			if e.G.K == "slice" && e.G.E.K == "uint" && e.G.Lim >= 600 {
				g.Quot["long"] = append(g.Quot["long"], e)
			}
			if hasBasicSeries(e.G) {
				g.Quot["series"] = append(g.Quot["series"], e)
			}
			if e.Nf != e.Id {
				g.Quot["twin"] = append(g.Quot["twin"], e)
			}
			if !e.Is("sys") || e.G.K == "struct" {
				g.Quot["comp"] = append(g.Quot["comp"], e)
			}
		}
	}
	return g
}

func hasVar(g *core.G) bool { fx, _ := g.Fixed(); return !fx }

func walkG(g *core.G, f func(*core.G) bool) bool {
	if f(g) {
		return true
	}
	if g.E != nil && walkG(g.E, f) {
		return true
	}
	for i := range g.Fs {
		if !g.Fs[i].Omit && walkG(g.Fs[i].T, f) {
			return true
		}
	}
	return false
}

func hasPtrOrSlice(g *core.G) bool {
	return walkG(g, func(h *core.G) bool { return h.K == "ptr" || h.K == "slice" })
}

func hasBasicSeries(g *core.G) bool {
	return walkG(g, func(h *core.G) bool {
		return (h.K == "array" || h.K == "slice") && (h.E.K == "uint" && h.E.N > 1 || h.E.K == "bool")
	})
}

// budget: mostly small values, sometimes larger ones
func (g *Gen) budget() int {
	switch g.R.Intn(20) {
	case 0:
		return 2500
	case 1, 2:
		return 700
	case 3, 4, 5, 6, 7:
		return 40
	}
	return 160
}

func (g *Gen) from(c string) *core.Entry { q := g.Quot[c]; return q[g.R.Intn(len(q))] }

// pick chooses a type; the i-th session of a run walks through the class so that every type is met.
func (g *Gen) pick(i int, c string) *core.Entry {
	q := g.Quot[c]
	if i%3 == 0 && i/3 < len(q) {
		return q[i/3]
	}
	if i%3 == 1 && len(g.Quot["comp"]) > 0 && c == "std" {
		return g.from("comp")
	}
	return q[g.R.Intn(len(q))]
}

func (g *Gen) do(ev M) M {
	if ev["k"] == "val" && g.Carve {
		ev["carve"] = 1
	} else if _, has := ev["spare"]; ev["k"] == "val" && !has && g.R.Intn(2) == 0 {
		ev["spare"] = 1 + g.R.Intn(1000)
	}
	g.X.Do(ev)
	g.Ev = append(g.Ev, ev)
	return ev
}

func (g *Gen) val(s int, e *core.Entry) M {
	return g.do(M{"k": "val", "s": s, "t": e.Id, "gv": core.GenVal(e.G, g.R, g.budget())})
}

func whole() core.ReadPlan { return core.ReadPlan{Style: core.RWhole, Fail: -1} }

func (g *Gen) plan() core.ReadPlan {
	return core.ReadPlan{Style: g.R.Intn(core.RSteps), Seed: g.R.Intn(1 << 20), Fail: -1}
}

func L(b []byte) core.Bytes { return core.Digits(uint64(len(b))) }

func bs(ev M, k string) core.Bytes { b, _ := ev[k].(core.Bytes); return b }

func ok(ev M) bool { return num(ev["panic"]) == 0 && num(ev["ok"]) == 1 }

// bigVal makes values whose encodings need offsets beyond two bytes.
func (g *Gen) bigVal(s int) (*core.Entry, M) {
	for {
		e := g.from("stdvar")
		v := core.GenVal(e.G, g.R, 90000)
		if n := len(v.String()); n > 200000 || n < 3000 {
			continue
		}
		return e, g.do(M{"k": "val", "s": s, "t": e.Id, "gv": v})
	}
}

func (g *Gen) entry(i, s int) *core.Entry {
	if i%97 == 96 {
		e, _ := g.bigVal(s)
		return e
	}
	e := g.pick(i, "std")
	g.val(s, e)
	return e
}

// Session makes session i for the property and returns its events.
func (g *Gen) Session(prop string, i int) []M {
	g.Ev = nil
	g.X.Begin()
	g.Carve = i%8 == 5 || i%2 == 1 && (prop == "C11" || prop == "C20")
	switch prop {
	case "C01":
		e := g.entry(i, 1)
		w := g.do(M{"k": "enc", "s": 1})
		g.do(M{"k": "new", "s": 2, "t": e.Id})
		g.do(M{"k": "dec", "s": 2, "b": bs(w, "b"), "L": L(bs(w, "b")), "rd": whole()})
		if i%4 == 0 { // once more, from what was decoded
			w = g.do(M{"k": "enc", "s": 2})
			g.do(M{"k": "new", "s": 3, "t": e.Id})
			g.do(M{"k": "dec", "s": 3, "b": bs(w, "b"), "L": L(bs(w, "b")), "rd": g.plan()})
		}
	case "C02":
		e := g.entry(i, 1)
		g.do(M{"k": "enc", "s": 1})
		if i%3 == 0 && i%97 != 96 {
			g.val(1, e)
			g.do(M{"k": "enc", "s": 1})
		}
		if i%3 == 1 && i%97 != 96 { // changed in place
			g.do(M{"k": "mut", "s": 1, "seed": g.R.Intn(1 << 20)})
			g.do(M{"k": "enc", "s": 1})
		}
	case "C05":
		e := g.entry(i, 1)
		g.do(M{"k": "type", "t": e.Id})
		for k := 0; k < 2; k++ {
			g.do(M{"k": "size", "s": 1})
			g.do(M{"k": "enc", "s": 1})
			if i%97 == 96 {
				break
			}
			if g.R.Intn(2) == 0 {
				g.val(1, e)
			} else {
				g.do(M{"k": "mut", "s": 1, "seed": g.R.Intn(1 << 20)})
			}
		}
	case "C06":
		g.entry(i, 1)
		g.do(M{"k": "htr", "s": 1, "via": g.R.Intn(2)})
		if i%4 == 1 && i%97 != 96 { // changed in place
			g.do(M{"k": "mut", "s": 1, "seed": g.R.Intn(1 << 20)})
			g.do(M{"k": "htr", "s": 1, "via": g.R.Intn(2)})
		}
	case "C07":
		e := g.pick(i, "stdcont")
		v := g.val(1, e)
		g.do(M{"k": "sr", "s": 1, "via": g.R.Intn(2)})
		// the same but for one field
		if n := len(e.G.Fs); n > 0 {
			w := core.Val{K: append([]core.Val{}, v["gv"].(core.Val).K...)}
			f := n - 1
			if g.R.Intn(2) == 0 {
				f = g.R.Intn(n)
			}
			w.K[f] = core.GenVal(e.G.Fs[f].T, g.R, 60)
			g.do(M{"k": "val", "s": 2, "t": e.Id, "gv": w})
			g.do(M{"k": "sr", "s": 2, "via": 0})
		}
	case "C03", "C04":
		c := "std"
		if i%40 == 7 {
			c = "zero"
		}
		e := g.pick(i, c)
		n := 4
		for k := 0; k < n; k++ {
			b := core.Bytes(core.GenInput(e.G, g.R, g.budget()/2))
			if prop == "C04" {
				ln, rd := L(b), whole()
				switch g.R.Intn(8) {
				case 0: // another declared length
					ln = core.Digits(uint64(g.R.Intn(len(b) + 6)))
				case 1:
					rd = g.plan()
				case 2:
					rd = g.plan()
					rd.Fail = g.R.Intn(len(b) + 1)
					rd.Again = g.R.Intn(2) == 0
				}
				g.do(M{"k": "decdry", "t": e.Id, "b": b, "L": ln, "rd": rd})
				continue
			}
			g.do(M{"k": "new", "s": 1, "t": e.Id})
			d := g.do(M{"k": "dec", "s": 1, "b": b, "L": L(b), "rd": whole()})
			if ok(d) {
				g.do(M{"k": "enc", "s": 1})
			}
		}
	case "C09":
		g.c09(i)
	case "C10":
		g.entry(i, 1)
		w := g.do(M{"k": "enc", "s": 1})
		n := len(bs(w, "b"))
		for k := 0; k < 5; k++ {
			at := g.R.Intn(n + 2)
			switch g.R.Intn(6) {
			case 0:
				at = n
			case 1:
				at = n - 1
			case 2:
				at = g.R.Intn(9)
			case 3:
				at = -1
			}
			if at < -1 {
				at = 0
			}
			g.do(M{"k": "encw", "s": 1, "wp": core.WritePlan{At: at, Mode: g.R.Intn(3)}})
		}
	case "C11":
		g.c11(i)
	case "C12":
		g.c12(i)
	case "C14":
		g.c14(i)
	case "C16":
		g.c16(i)
	case "C17":
		g.c17(i)
	case "C18":
		g.c18(i)
	case "C19":
		g.c19(i)
	case "C20":
		g.c20(i)
	case "C21":
		g.c21(i)
	default:
		panic(harnessError("no sessions for " + prop))
	}
	return g.Ev
}

// validBytes: an encoding as the code under test writes it.
func (g *Gen) validBytes(e *core.Entry, budget int) core.Bytes {
	p := core.Lay(e.G, core.GenVal(e.G, g.R, budget))
	return core.Bytes(p.Bytes())
}

func (g *Gen) c09(i int) {
	if i%3 == 2 { // a stream of messages
		var ms []interface{}
		n, total := 2+g.R.Intn(3), 0
		for k := 0; k < n; k++ {
			e := g.from("std")
			b := g.validBytes(e, 60)
			if k == n-1 && g.R.Intn(3) == 0 {
				b = core.GenInput(e.G, g.R, 40)
			}
			total += len(b)
			dry := g.R.Intn(2)
			ms = append(ms, M{"t": e.Id, "b": b, "dry": dry})
			if dry == 1 { // alone
				g.do(M{"k": "dry", "t": e.Id, "b": b, "L": L(b), "rd": whole()})
			} else {
				g.do(M{"k": "new", "s": 1, "t": e.Id})
				g.do(M{"k": "dec", "s": 1, "b": b, "L": L(b), "rd": whole()})
			}
		}
		rd := g.plan()
		if g.R.Intn(4) == 0 && total > 0 {
			rd.Fail = g.R.Intn(total)
		}
		g.do(M{"k": "str", "ms": ms, "rd": rd})
		return
	}
	e := g.pick(i, "std")
	b := g.validBytes(e, g.budget()/2)
	if i%5 == 0 {
		b = core.GenInput(e.G, g.R, 60)
	}
	g.do(M{"k": "new", "s": 1, "t": e.Id})
	g.do(M{"k": "dec", "s": 1, "b": b, "L": L(b), "rd": whole()})
	g.do(M{"k": "dry", "t": e.Id, "b": b, "L": L(b), "rd": whole()})
	for k := 0; k < 5; k++ {
		rd := g.plan()
		bb := b
		switch g.R.Intn(4) {
		case 0: // the stream goes on
			bb = append(append(core.Bytes{}, b...), core.GenInput(e.G, g.R, 10)...)
		case 1: // it fails or ends early
			if len(b) > 0 {
				rd.Fail = g.R.Intn(len(b))
				rd.Again = g.R.Intn(2) == 0
				if g.R.Intn(2) == 0 {
					bb = b[:rd.Fail]
					rd.Fail = -1
				}
			}
		}
		if g.R.Intn(2) == 0 {
			g.do(M{"k": "dry", "t": e.Id, "b": bb, "L": L(b), "rd": rd})
		} else {
			g.do(M{"k": "new", "s": 2, "t": e.Id})
			g.do(M{"k": "dec", "s": 2, "b": bb, "L": L(b), "rd": rd})
		}
	}
}

func (g *Gen) c11(i int) {
	e := g.pick(i, "heap")
	// the reference: decoded into fresh memory
	var inputs []core.Bytes
	for k := 0; k < 3; k++ {
		inputs = append(inputs, g.validBytes(e, []int{120, 10, 60}[k]))
	}
	ref := func(b core.Bytes) {
		g.do(M{"k": "new", "s": 4, "t": e.Id})
		g.do(M{"k": "dec", "s": 4, "b": b, "L": L(b), "rd": whole()})
	}
	for _, b := range inputs {
		ref(b)
	}
	g.do(M{"k": "new", "s": 1, "t": e.Id})
	g.do(M{"k": "new", "s": 2, "t": e.Id})
	for k := 0; k < 9; k++ {
		s := 1 + g.R.Intn(3)
		switch c := g.R.Intn(12); {
		case c < 5:
			if g.X.Slots[s] == nil {
				g.do(M{"k": "new", "s": s, "t": e.Id})
			}
			b := inputs[g.R.Intn(len(inputs))]
			rd := g.plan()
			if g.R.Intn(3) == 0 {
				rd = core.ReadPlan{Style: []int{core.RBytes, core.RBuffer}[g.R.Intn(2)], Fail: -1}
			}
			g.do(M{"k": "dec", "s": s, "b": b, "L": L(b), "rd": rd})
			if g.R.Intn(4) == 0 {
				g.do(M{"k": "scrib"})
			}
		case c == 5:
			if g.X.Slots[s] == nil {
				g.do(M{"k": "new", "s": s, "t": e.Id})
			}
			b := core.Bytes(core.GenInput(e.G, g.R, 60))
			rd := g.plan()
			if g.R.Intn(2) == 0 {
				rd.Fail = g.R.Intn(len(b) + 1)
				rd.Again = g.R.Intn(2) == 0
			} else {
				ref(b)
			}
			g.do(M{"k": "dec", "s": s, "b": b, "L": L(b), "rd": rd})
		case c == 6:
			g.do(M{"k": "val", "s": s, "t": e.Id, "gv": core.GenVal(e.G, g.R, []int{5, 80, 200}[g.R.Intn(3)]), "spare": 1 + g.R.Intn(1000)})
			if g.R.Intn(2) == 0 {
				b := inputs[g.R.Intn(len(inputs))]
				g.do(M{"k": "dec", "s": s, "b": b, "L": L(b), "rd": whole()})
			}
		case c <= 8:
			if g.X.Slots[s] != nil {
				g.do(M{"k": "mut", "s": s, "seed": g.R.Intn(1 << 20)})
				if g.R.Intn(2) == 0 {
					b := inputs[g.R.Intn(len(inputs))]
					g.do(M{"k": "dec", "s": s, "b": b, "L": L(b), "rd": whole()})
				}
			}
		case c == 9:
			g.do(M{"k": "scrib"})
		case c == 10:
			if g.X.Slots[s] != nil && g.R.Intn(2) == 0 {
				b := core.Bytes(core.GenInput(e.G, g.R, 60))
				d, _ := g.X.Def(e.Id)
				if uint64(len(b)) >= d.FuzzMinLen() {
					g.do(M{"k": "fuzz", "s": s, "b": b, "L": L(b), "rd": whole()})
				}
			}
		case c == 11:
			g.do(M{"k": "gc"})
		}
		g.do(M{"k": "obs"})
	}
}

// fuzzInput is an input for fuzz decoding of n bytes.
func (g *Gen) fuzzInput(n int) core.Bytes {
	b := make(core.Bytes, n)
	mode := g.R.Intn(5)
	for j := range b {
		switch mode {
		case 0:
			b[j] = 0
		case 1:
			b[j] = 255
		case 2: // lengths are read as 8 bytes: keep the high ones zero
			if g.R.Intn(6) == 0 {
				b[j] = byte(g.R.Intn(40))
			}
		default:
			b[j] = byte(g.R.Intn(256))
		}
	}
	return b
}

func (g *Gen) c12(i int) {
	e := g.pick(i, "std")
	g.do(M{"k": "type", "t": e.Id})
	d, good := g.X.Def(e.Id)
	if !good {
		return
	}
	min := int(d.FuzzMinLen())
	for k := 0; k < 4; k++ {
		n := min + []int{0, 0, 1, 7, 8, 9, 20, 60, 200}[g.R.Intn(9)]
		if k == 3 && min > 0 {
			n = g.R.Intn(min)
		}
		b := g.fuzzInput(n)
		rd := whole()
		if g.R.Intn(3) == 0 {
			rd = g.plan()
		}
		g.do(M{"k": "new", "s": 1, "t": e.Id})
		f := g.do(M{"k": "fuzz", "s": 1, "b": b, "L": L(b), "rd": rd})
		if ok(f) {
			w := g.do(M{"k": "enc", "s": 1})
			g.do(M{"k": "new", "s": 3, "t": e.Id})
			g.do(M{"k": "dec", "s": 3, "b": bs(w, "b"), "L": L(bs(w, "b")), "rd": whole()})
			g.do(M{"k": "htr", "s": 1, "via": 0})
			// the reader fails or ends before what was taken is delivered
			if n := int(core.UnDigits(f["n"].(core.Bytes))); n > 0 && g.R.Intn(2) == 0 {
				p := g.R.Intn(n)
				if g.R.Intn(3) == 0 {
					p = n - 1
				}
				bb, cut := b, g.plan()
				if g.R.Intn(2) == 0 {
					bb = b[:p]
				} else {
					cut.Fail = p
				}
				g.do(M{"k": "new", "s": 3, "t": e.Id})
				g.do(M{"k": "fuzz", "s": 3, "b": bb, "of": b, "L": L(b), "rd": cut})
			}
		}
		// again, into something else
		g.do(M{"k": "val", "s": 2, "t": e.Id, "gv": core.GenVal(e.G, g.R, 100), "spare": 1 + g.R.Intn(1000)})
		g.do(M{"k": "fuzz", "s": 2, "b": b, "L": L(b), "rd": g.plan()})
	}
}

func (g *Gen) c14(i int) {
	// two of three sessions: is the type accepted; the third: does a mapped type behave as specified
	if i < len(g.X.Cat) {
		g.do(M{"k": "type", "t": i + 1})
		g.do(M{"k": "getssz", "t": i + 1})
		return
	}
	e := g.from([]string{"map", "map", "rnd", "twin", "twin"}[g.R.Intn(5)])
	if e.Is("zero") || !e.Is("ok") {
		return
	}
	n := g.X.Entry(e.Nf)
	g.do(M{"k": "type", "t": n.Id})
	g.do(M{"k": "type", "t": e.Id})
	g.val(1, e)
	w := g.do(M{"k": "enc", "s": 1})
	// the type and its normal form are asked the same
	dec := func(t, s int, b core.Bytes) M {
		g.do(M{"k": "new", "s": s, "t": t})
		return g.do(M{"k": "dec", "s": s, "b": b, "L": L(b), "rd": whole()})
	}
	if num(w["panic"]) == 0 {
		b := bs(w, "b")
		dec(e.Id, 2, b)
		if ok(dec(n.Id, 3, b)) {
			for _, s := range []int{1, 3} {
				g.do(M{"k": "enc", "s": s})
				g.do(M{"k": "size", "s": s})
				g.do(M{"k": "htr", "s": s, "via": 0})
				if e.G.K == "struct" {
					g.do(M{"k": "sr", "s": s, "via": 0})
				}
			}
		}
		g.do(M{"k": "val", "s": 2, "t": e.Id, "gv": core.GenVal(e.G, g.R, 60)})
		g.do(M{"k": "dec", "s": 2, "b": b, "L": L(b), "rd": whole()})
		g.do(M{"k": "enc", "s": 2})
	}
	for k := 0; k < 3; k++ {
		b := core.Bytes(core.GenInput(e.G, g.R, 60))
		dec(n.Id, 3, b)
		dec(e.Id, 2, b)
		g.do(M{"k": "dry", "t": n.Id, "b": b, "L": L(b), "rd": whole()})
		g.do(M{"k": "dry", "t": e.Id, "b": b, "L": L(b), "rd": whole()})
	}
}

var hostile = []uint64{1 << 26, 1<<26 + 3, 1 << 30, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 7, 1 << 40, 1 << 48, 1 << 62, 1<<63 - 1, 1 << 63, 1<<63 + 1, 1<<64 - 32, 1<<64 - 8, 1<<64 - 4, 1<<64 - 3, 1<<64 - 2, 1<<64 - 1}

func (g *Gen) c16(i int) {
	for k := 0; k < 200; k++ {
		e := g.pick(i, "stdvar")
		i = 3*i + 1
		if memMax(e.G) > 1<<22 {
			continue
		}
		for n := 0; n < 3; n++ {
			ln := hostile[g.R.Intn(len(hostile))]
			p := core.Lay(e.G, core.GenVal(e.G, g.R, 40))
			if g.R.Intn(3) > 0 {
				p.Hostile(g.R, ln)
			}
			g.do(M{"k": "mem", "t": e.Id, "b": core.Bytes(p.Bytes()), "L": core.Digits(ln), "rd": core.ReadPlan{Style: []int{core.RWhole, core.RBytes}[g.R.Intn(2)], Fail: -1}})
		}
		return
	}
}

// memMax estimates the memory of the largest value (as a float, to avoid overflow)
func memMax(g *core.G) float64 {
	switch g.K {
	case "ptr":
		return 8 + memMax(g.E)
	case "array":
		return float64(g.N) * memMax(g.E)
	case "slice":
		return 24 + float64(g.Lim)*memMax(g.E)
	case "struct":
		s := 8.0
		for i := range g.Fs {
			s += 8 + memMax(g.Fs[i].T)
		}
		return s
	}
	_, n := g.Fixed()
	return float64(n)
}

func (g *Gen) c17(i int) {
	c := "series"
	if i%4 == 3 {
		c = "std"
	}
	e := g.pick(i, c)
	if e.Is("eth") && i%7 != 0 {
		e = g.from(c)
	}
	g.val(1, e)
	for be := 0; be < 2; be++ {
		g.do(M{"k": "size", "s": 1, "be": be})
	}
	w := g.do(M{"k": "enc", "s": 1, "be": 0})
	g.do(M{"k": "enc", "s": 1, "be": 1})
	g.do(M{"k": "htr", "s": 1, "via": 0, "be": 0})
	g.do(M{"k": "htr", "s": 1, "via": 0, "be": 1})
	if d, good := g.X.Def(e.Id); good && d.FuzzMinLen() < 3000 {
		for k := 0; k < 2; k++ {
			b := g.fuzzInput(int(d.FuzzMinLen()) + []int{0, 1, 7, 8, 9, 20, 33, 60, 200}[g.R.Intn(9)])
			for be := 0; be < 2; be++ {
				g.do(M{"k": "new", "s": 3, "t": e.Id})
				g.do(M{"k": "fuzz", "s": 3, "b": b, "L": L(b), "rd": whole(), "be": be})
			}
		}
	}
	for k := 0; k < 3; k++ {
		b := bs(w, "b")
		if k > 0 {
			b = core.GenInput(e.G, g.R, 60)
		}
		for be := 0; be < 2; be++ {
			g.do(M{"k": "new", "s": 2, "t": e.Id})
			g.do(M{"k": "dec", "s": 2, "b": b, "L": L(b), "rd": whole(), "be": be})
			g.do(M{"k": "dry", "t": e.Id, "b": b, "L": L(b), "rd": whole(), "be": be})
		}
	}
}

func (g *Gen) c19(i int) {
	e := g.pick(i, "std")
	g.val(1, e)
	g.do(M{"k": "htr", "s": 1, "via": 0})
	n := 3
	for k := 0; k < n; k++ {
		g.do(M{"k": "hash", "h": []int{1 + g.R.Intn(7), 0}[g.R.Intn(3)/2]})
		g.do(M{"k": "htr", "s": 1, "via": g.R.Intn(2)})
		if e.G.K == "struct" {
			g.do(M{"k": "sr", "s": 1, "via": g.R.Intn(2)})
		}
		if k == 1 {
			e = g.from("std")
			g.val(1, e)
		}
	}
	g.do(M{"k": "hash", "h": 0})
	g.do(M{"k": "htr", "s": 1, "via": 0})
}

func (g *Gen) c20(i int) {
	e := g.pick(i, "std")
	e2 := e
	if i%2 == 0 {
		e2 = g.from("std")
	}
	g.val(1, e)
	g.val(2, e2)
	g.do(M{"k": "type", "t": e.Id})
	for k := g.R.Intn(3); k > 0; k-- { // nothing behind its pointers
		g.do(M{"k": "new", "s": 4, "t": e.Id})
		g.do(M{"k": "pretty", "s": 4})
		g.do(M{"k": "obs"})
	}
	in := map[int]core.Bytes{1: core.GenInput(e.G, g.R, 40), 2: g.validBytes(e2, 40)}
	id := map[int]*core.Entry{1: e, 2: e2}
	for k := 0; k < 12; k++ {
		s := 1 + g.R.Intn(2)
		nd := g.R.Intn(4) / 3 // now and then with a new definition
		switch c := g.R.Intn(11); c {
		case 0, 1:
			g.do(M{"k": "enc", "s": s, "nd": nd})
		case 2:
			g.do(M{"k": "encw", "s": s, "wp": core.WritePlan{At: g.R.Intn(20), Mode: g.R.Intn(3)}})
		case 3:
			g.do(M{"k": "size", "s": s, "nd": nd})
		case 4, 5:
			g.do(M{"k": "htr", "s": s, "via": g.R.Intn(2), "nd": nd})
		case 6:
			if id[s].G.K == "struct" {
				g.do(M{"k": "sr", "s": s, "via": 0, "nd": nd})
			}
		case 7:
			g.do(M{"k": "dry", "t": id[s].Id, "b": in[s], "L": L(in[s]), "rd": g.plan(), "nd": nd})
		case 8:
			g.do(M{"k": "pretty", "s": s, "nd": nd})
		case 9: // the user changes the value, in place; what was remembered about it is out of date
			for _, q := range []string{"size", "enc"}[:g.R.Intn(3)] {
				g.do(M{"k": q, "s": s})
			}
			g.do(M{"k": "mut", "s": s, "seed": g.R.Intn(1 << 20)})
			for n := 0; n < 2; n++ {
				q := M{"k": []string{"size", "enc", "htr", "pretty"}[g.R.Intn(4)], "s": s, "via": 0}
				r := M{"nd": 1}
				for k, v := range q {
					r[k] = v
				}
				g.do(q)
				g.do(r)
			}
		case 10:
			g.do(M{"k": "new", "s": 3, "t": id[s].Id})
			rd := g.plan()
			rd.Fail = g.R.Intn(len(in[s]) + 1)
			rd.Again = g.R.Intn(2) == 0
			g.do(M{"k": "dec", "s": 3, "b": in[s], "L": L(in[s]), "rd": rd})
		}
		g.do(M{"k": "obs"})
	}
	g.do(M{"k": "type", "t": e.Id})
}

// c21: texts of fresh, given, decoded and changed values
func (g *Gen) c21(i int) {
	c := "std"
	if i%40 == 7 {
		c = "zero"
	}
	e := g.pick(i, c)
	for n := 0; len(g.validBytes(e, 30)) > 400 && (i%50 != 0 || n > 40); n++ {
		e = g.from("std")
	}
	if i%20 == 5 {
		e = g.from("long")
	}
	show := func(s int) { g.do(M{"k": "pretty", "s": s, "ind": g.R.Intn(len(indents))}) }
	g.do(M{"k": "new", "s": 1, "t": e.Id}) // nothing behind its pointers
	show(1)
	n := 50
	if i%10 == 3 {
		n = 300
	}
	if i%20 == 5 {
		n = []int{1000, 3000, 9000}[g.R.Intn(3)]
	}
	g.do(M{"k": "val", "s": 2, "t": e.Id, "gv": core.GenVal(e.G, g.R, n)})
	show(2)
	g.do(M{"k": "pretty", "s": 2, "ind": g.R.Intn(len(indents)), "nd": 1})
	if g.R.Intn(2) == 0 {
		b := g.validBytes(e, 40)
		g.do(M{"k": "dec", "s": 1, "b": b, "L": L(b), "rd": g.plan()})
		show(1)
	}
	for k := g.R.Intn(3); k > 0; k-- {
		s := 1 + g.R.Intn(2)
		g.do(M{"k": "mut", "s": s, "seed": g.R.Intn(1 << 20)})
		show(s)
	}
}

// c18: the same calls with the default definition and with custom ones inside
func (g *Gen) c18(i int) {
	if i%4 == 3 {
		g.c18own(i)
		return
	}
	e := g.pick(i, "comp")
	for n := 0; (!e.Is("ok") || e.Is("zero") || e.Is("eth") && i%9 != 0) && n < 100; n++ {
		e = g.from("std")
	}
	if i%4 == 1 { // with definitions swapped
		e = g.Quot["swap"][i/4%len(g.Quot["swap"])]
	}
	g.val(1, e)
	cu := func() int { return 1 + g.R.Intn(1<<20) }
	g.do(M{"k": "type", "t": e.Id})
	g.do(M{"k": "size", "s": 1})
	w := g.do(M{"k": "enc", "s": 1})
	g.do(M{"k": "htr", "s": 1, "via": 0})
	g.do(M{"k": "type", "t": e.Id, "cu": cu()})
	g.do(M{"k": "size", "s": 1, "cu": cu()})
	g.do(M{"k": "enc", "s": 1, "cu": cu()})
	g.do(M{"k": "htr", "s": 1, "via": 0, "cu": cu()})
	if e.G.K == "struct" {
		g.do(M{"k": "sr", "s": 1, "via": 0})
		g.do(M{"k": "sr", "s": 1, "via": 0, "cu": cu()})
	}
	if e.Outer != nil || i%8 == 0 {
		g.do(M{"k": "pretty", "s": 1})
		g.do(M{"k": "pretty", "s": 1, "cu": cu()})
		if d, good := g.X.Def(e.Id); good && d.FuzzMinLen() < 3000 {
			b := g.fuzzInput(int(d.FuzzMinLen()) + g.R.Intn(40))
			for _, c := range []int{0, cu(), cu()} {
				ev := M{"k": "fuzz", "s": 3, "b": b, "L": L(b), "rd": whole()}
				if c != 0 {
					ev["cu"] = c
				}
				g.do(M{"k": "new", "s": 3, "t": e.Id})
				g.do(ev)
			}
		}
	}
	if n := len(bs(w, "b")); n > 0 {
		wp := core.WritePlan{At: g.R.Intn(n + 1), Mode: g.R.Intn(2)}
		g.do(M{"k": "encw", "s": 1, "wp": wp, "cu": cu()})
	}
	for k := 0; k < 3; k++ {
		b := bs(w, "b")
		if k > 0 {
			b = core.GenInput(e.G, g.R, 60)
		}
		g.do(M{"k": "new", "s": 2, "t": e.Id})
		g.do(M{"k": "dec", "s": 2, "b": b, "L": L(b), "rd": whole()})
		g.do(M{"k": "dry", "t": e.Id, "b": b, "L": L(b), "rd": whole()})
		c := cu()
		for m := 0; m < 2; m++ {
			g.do(M{"k": "new", "s": 3, "t": e.Id})
			g.do(M{"k": "dec", "s": 3, "b": b, "L": L(b), "rd": g.plan(), "cu": c, "cm": m})
			g.do(M{"k": "dry", "t": e.Id, "b": b, "L": L(b), "rd": g.plan(), "cu": c, "cm": m})
		}
		if k == 0 {
			g.do(M{"k": "new", "s": 3, "t": e.Id})
			g.do(M{"k": "dec", "s": 3, "b": b, "L": L(b), "rd": whole(), "cu": c, "cm": 2})
			g.do(M{"k": "dry", "t": e.Id, "b": b, "L": L(b), "rd": whole(), "cu": c, "cm": 2})
		}
	}
}

// c18own: definitions that encode in a way of their own
func (g *Gen) c18own(i int) {
	e := g.Quot["inv"][i/4%len(g.Quot["inv"])]
	cu := func() int { return 1 + g.R.Intn(1<<20) }
	g.do(M{"k": "type", "t": e.Id, "cu": cu()})
	for n := 0; n < 2; n++ {
		g.val(1, e)
		g.do(M{"k": "size", "s": 1, "cu": cu()})
		w := g.do(M{"k": "enc", "s": 1, "cu": cu()})
		g.do(M{"k": "htr", "s": 1, "via": g.R.Intn(2), "cu": cu()})
		if e.G.K == "struct" {
			g.do(M{"k": "sr", "s": 1, "via": g.R.Intn(2), "cu": cu()})
		}
		g.do(M{"k": "pretty", "s": 1, "cu": cu()})
		good := bs(w, "b")
		if len(good) > 0 {
			g.do(M{"k": "encw", "s": 1, "wp": core.WritePlan{At: g.R.Intn(len(good) + 1), Mode: g.R.Intn(2)}, "cu": cu()})
		}
		for k := 0; k < 4; k++ {
			b := append(core.Bytes{}, good...)
			switch {
			case k == 0:
			case k == 3 && len(b) > 0:
				b = b[:g.R.Intn(len(b))]
			case k == 2:
				b = append(b, byte(g.R.Intn(256)))
			case len(b) > 0:
				b[g.R.Intn(len(b))] ^= byte(1 << g.R.Intn(8))
			}
			g.do(M{"k": "new", "s": 2, "t": e.Id})
			g.do(M{"k": "dec", "s": 2, "b": b, "L": L(b), "rd": g.plan(), "cu": cu()})
			g.do(M{"k": "dry", "t": e.Id, "b": b, "L": L(b), "rd": g.plan(), "cu": cu()})
		}
	}
}
