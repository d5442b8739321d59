package core

import (
	"encoding/binary"
	"math/rand"
)

// Part is a piece of an encoding, used only to make inputs (valid and damaged ones) whose
// offsets are consistent with what surrounds the damage.
type Part struct {
	Fixed bool
	Raw   []byte // if no kids
	Kids  []Part // a container or a series of variable-size elements: offsets are computed
	Cont  bool
	Delta []int64 // per variable kid: added to its offset
	Gap   []byte  // junk between the fixed part and the first variable kid
}

// Lay makes the parts of a value.
func Lay(g *G, v Val) Part {
	fx, _ := g.Fixed()
	switch g.K {
	case "ptr":
		if len(v.K) == 0 {
			return Part{Fixed: fx}
		}
		return Lay(g.E, v.K[0])
	case "array", "slice":
		if v.Leaf {
			return Part{Fixed: fx, Raw: append([]byte{}, v.B...)}
		}
		p := Part{Fixed: fx, Cont: true, Kids: make([]Part, len(v.K))}
		for i := range v.K {
			p.Kids[i] = Lay(g.E, v.K[i])
		}
		return p
	case "struct":
		p := Part{Fixed: fx, Cont: true}
		layFields(g, v, &p)
		return p
	}
	return Part{Fixed: true, Raw: append([]byte{}, v.B...)}
}

func layFields(g *G, v Val, p *Part) {
	for i := range g.Fs {
		f := &g.Fs[i]
		if f.Omit {
			continue
		}
		if f.Squashed() {
			layFields(f.T, v.K[i], p)
		} else {
			p.Kids = append(p.Kids, Lay(f.T, v.K[i]))
		}
	}
}

func (p *Part) Bytes() []byte {
	if !p.Cont {
		return p.Raw
	}
	var head, tail []byte
	fl := 0
	for i := range p.Kids {
		if p.Kids[i].Fixed {
			fl += len(p.Kids[i].Bytes())
		} else {
			fl += 4
		}
	}
	tail = append(tail, p.Gap...)
	vi := 0
	for i := range p.Kids {
		b := p.Kids[i].Bytes()
		if p.Kids[i].Fixed {
			head = append(head, b...)
			continue
		}
		off := int64(fl + len(tail))
		if vi < len(p.Delta) {
			off += p.Delta[vi]
		}
		var o [4]byte
		binary.LittleEndian.PutUint32(o[:], uint32(off))
		head = append(head, o[:]...)
		tail = append(tail, b...)
		vi++
	}
	return append(head, tail...)
}

func (p *Part) all(out []*Part) []*Part {
	out = append(out, p)
	for i := range p.Kids {
		out = p.Kids[i].all(out)
	}
	return out
}

func (p *Part) varKids() int {
	n := 0
	for i := range p.Kids {
		if !p.Kids[i].Fixed {
			n++
		}
	}
	return n
}

var deltas = []int64{-1, 1, -4, 4, -2, 2, -3, 3, 8, -8, 256, -256, 1 << 16, 1 << 24, 1 << 31, -(1 << 31), 5, 100}

// Damage changes one thing somewhere in the parts.
func (p *Part) Damage(r *rand.Rand) {
	ps := p.all(nil)
	q := ps[r.Intn(len(ps))]
	if q.Cont {
		n := q.varKids()
		switch c := r.Intn(8); {
		case c <= 2 && n > 0: // an offset
			q.Delta = make([]int64, n)
			i := r.Intn(n)
			q.Delta[i] = deltas[r.Intn(len(deltas))]
			if r.Intn(4) == 0 { // and the ones behind it alike
				for j := i + 1; j < n; j++ {
					q.Delta[j] = q.Delta[i]
				}
			}
			return
		case c == 3 && n > 0: // a gap with the offsets pointing behind it
			q.Gap = genBytes(r, 1+r.Intn(5))
			return
		case c == 4 && len(q.Kids) > 0: // one more of the last
			k := q.Kids[len(q.Kids)-1]
			for i := 1 + r.Intn(3); i > 0; i-- {
				q.Kids = append(q.Kids, k)
			}
			return
		case c == 5 && len(q.Kids) > 0: // one less
			q.Kids = q.Kids[:len(q.Kids)-1]
			return
		case c == 6 && len(q.Kids) > 1: // two exchanged
			i, j := r.Intn(len(q.Kids)), r.Intn(len(q.Kids))
			q.Kids[i], q.Kids[j] = q.Kids[j], q.Kids[i]
			return
		}
		// as raw bytes, damaged
		q.Raw, q.Cont, q.Kids = q.Bytes(), false, nil
	}
	q.Raw = damageBytes(r, q.Raw)
}

func damageBytes(r *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	switch r.Intn(9) {
	case 0:
		return append(b, genBytes(r, 1+r.Intn(4))...)
	case 1:
		if len(b) > 0 {
			return b[:len(b)-1]
		}
	case 2:
		if len(b) > 0 {
			return b[:r.Intn(len(b))]
		}
	case 3, 4:
		if len(b) > 0 {
			b[len(b)-1] = []byte{0, 1, 2, 3, 4, 128, 255, byte(1 << uint(r.Intn(8)))}[r.Intn(8)]
			return b
		}
	case 5:
		if len(b) > 0 {
			b[r.Intn(len(b))] = genByte(r)
			return b
		}
	case 6:
		if len(b) > 0 {
			b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
			return b
		}
	case 7: // insert
		i := r.Intn(len(b) + 1)
		return append(append(append([]byte{}, b[:i]...), genBytes(r, 1+r.Intn(4))...), b[i:]...)
	case 8:
		n := len(b)
		if n > 0 && n < 200 {
			return append(b, b...)
		}
	}
	return append(b, 0)
}

// OverLimit makes a value like GenVal, but somewhere breaks a rule of the type: a list one or
// more over its limit, a boolean that is neither 0 nor 1, padding bits set, a bitlist without or
// with too many bits.
func BreakValue(g *G, v *Val, r *rand.Rand) bool {
	switch g.K {
	case "bool":
		v.B = []byte{[]byte{2, 3, 4, 128, 255, 254, 129, 16}[r.Intn(8)]}
		return true
	case "uint":
		return false
	case "ptr":
		return len(v.K) > 0 && BreakValue(g.E, &v.K[0], r)
	case "array", "slice":
		if g.E.IsByte() {
			if g.HasBL && g.K == "array" {
				if g.BL%8 == 0 || len(v.B) == 0 {
					return false
				}
				v.B = append([]byte{}, v.B...)
				v.B[len(v.B)-1] |= 1 << uint(g.BL%8+r.Intn(8-g.BL%8))
				return true
			}
			if g.K == "array" || g.Lim > 3000 {
				if g.HasBL && len(v.B) > 0 {
					v.B = append(append([]byte{}, v.B...), 0)
					return true
				}
				return false
			}
			if g.HasBL {
				switch r.Intn(4) {
				case 0:
					v.B = nil
				case 1:
					v.B = append(append([]byte{}, v.B...), 0)
				default:
					v.B = genBitlist(r, int(g.Lim)+[]int{1, 1, 2, 7, 8, 9, 16}[r.Intn(7)])
				}
				return true
			}
			v.B = genBytes(r, int(g.Lim)+[]int{1, 1, 2, 32}[r.Intn(4)])
			return true
		}
		if g.K == "slice" && g.Lim < 40 && r.Intn(2) == 0 {
			n := int(g.Lim) + []int{1, 1, 2, 5}[r.Intn(4)]
			ks := append([]Val{}, v.K...)
			for len(ks) < n {
				ks = append(ks, GenVal(g.E, r, 20))
			}
			v.K = ks
			return true
		}
		if len(v.K) == 0 {
			return false
		}
		ks := append([]Val{}, v.K...)
		v.K = ks
		o := r.Intn(len(ks))
		for k := range ks {
			if BreakValue(g.E, &ks[(o+k)%len(ks)], r) {
				return true
			}
		}
	case "struct":
		if len(v.K) == 0 {
			return false
		}
		v.K = append([]Val{}, v.K...)
		o := r.Intn(len(v.K))
		for k := range v.K {
			i := (o + k) % len(v.K)
			if !g.Fs[i].Omit && BreakValue(g.Fs[i].T, &v.K[i], r) {
				return true
			}
		}
	}
	return false
}

// GenInput makes an input for the type: valid, nearly valid or random.
func GenInput(g *G, r *rand.Rand, budget int) []byte {
	v := GenVal(g, r, budget)
	switch c := r.Intn(12); {
	case c == 0:
		p := Lay(g, v)
		return p.Bytes()
	case c <= 3:
		BreakValue(g, &v, r)
		p := Lay(g, v)
		return p.Bytes()
	case c <= 8:
		if c == 4 {
			BreakValue(g, &v, r)
		}
		p := Lay(g, v)
		p.Damage(r)
		if c == 5 {
			p.Damage(r)
		}
		return p.Bytes()
	case c <= 10:
		p := Lay(g, v)
		b := damageBytes(r, p.Bytes())
		if c == 9 {
			b = damageBytes(r, b)
		}
		return b
	}
	return genBytes(r, r.Intn(24))
}

// Hostile makes offsets somewhere in the parts huge, as if the input of n bytes were there.
func (p *Part) Hostile(r *rand.Rand, n uint64) {
	ps := p.all(nil)
	var cs []*Part
	for _, q := range ps {
		if q.Cont && q.varKids() > 0 {
			cs = append(cs, q)
		}
	}
	if len(cs) == 0 {
		return
	}
	q := cs[r.Intn(len(cs))]
	if r.Intn(2) == 0 {
		q = cs[0]
	}
	k := q.varKids()
	q.Delta = make([]int64, k)
	d := []int64{1 << 26, 1 << 30, 1 << 31, 1<<32 - 64, 1<<26 + 1}[r.Intn(5)]
	i := r.Intn(k)
	if k > 1 && r.Intn(2) == 0 {
		i = 1 + r.Intn(k-1)
	}
	for ; i < k; i++ {
		q.Delta[i] = d
	}
}
