// Package core holds the parts of the harness that do not depend on the code under test:
// type descriptions, Go values built and projected by reflection, generators, readers and
// writers that follow a plan, and the trace format.
package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
)

// G describes a Go type, see spec/SSZ.tla.
type G struct {
	K    string          `json:"k"`
	N    int             `json:"n"`
	E    *G              `json:"e"`
	LimD []int           `json:"lim"`
	BLr  json.RawMessage `json:"bl"`
	Fs   []F             `json:"fs"`
	Name string          `json:"name"`

	HasLim bool   `json:"-"`
	Lim    uint64 `json:"-"`
	HasBL  bool   `json:"-"`
	BL     int    `json:"-"`
}

type F struct {
	T      *G   `json:"t"`
	Emb    bool `json:"emb"`
	Omit   bool `json:"omit"`
	Squash bool `json:"squash"`
}

func (f *F) Squashed() bool { return f.Squash || (f.Emb && f.T.K == "struct") }

func (g *G) IsByte() bool { return g.K == "uint" && g.N == 1 }

func (g *G) fill() {
	if g.LimD != nil {
		g.HasLim = true
		for i, d := range g.LimD {
			g.Lim |= uint64(d) << (8 * uint(i))
		}
	}
	if len(g.BLr) > 0 {
		g.HasBL = true
		_ = json.Unmarshal(g.BLr, &g.BL)
	}
	if g.E != nil {
		g.E.fill()
	}
	for i := range g.Fs {
		g.Fs[i].T.fill()
	}
}

// Entry is one type of the catalogue.
type Entry struct {
	Id  int      `json:"id"`
	Go  string   `json:"go"`
	Cls []string `json:"cls"`
	Min int      `json:"min"`
	Nf  int      `json:"nf"` // the entry without pointers, omitted fields and embedding
	G   *G       `json:"g"`

	T     reflect.Type `json:"-"`
	Outer reflect.Type `json:"-"` // of the same layout; with a factory that swaps definitions its definition is that of T
}

func (e *Entry) Is(c string) bool {
	for _, x := range e.Cls {
		if x == c {
			return true
		}
	}
	return false
}

func LoadCatalog(path string, types []reflect.Type) []*Entry {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	var out []*Entry
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		e := new(Entry)
		if err := json.Unmarshal(sc.Bytes(), e); err != nil {
			panic(err)
		}
		e.G.fill()
		if len(out) < len(types) {
			e.T = types[len(out)]
		}
		out = append(out, e)
	}
	if types != nil && len(types) != len(out) {
		panic(fmt.Sprintf("catalogue has %d entries, %d Go types", len(out), len(types)))
	}
	return out
}

// Fixed tells whether the (supported) type is fixed-size, and its size or the size of its fixed part.
func (g *G) Fixed() (bool, int) {
	switch g.K {
	case "bool":
		return true, 1
	case "uint":
		return true, g.N
	case "ptr":
		return g.E.Fixed()
	case "array":
		if g.E.IsByte() {
			return true, g.N
		}
		fx, fl := g.E.Fixed()
		if fx {
			return true, fl * g.N
		}
		return false, 4 * g.N
	case "slice":
		return false, 0
	case "struct":
		fx, fl := true, 0
		for i := range g.Fs {
			f := &g.Fs[i]
			if f.Omit {
				continue
			}
			a, b := f.T.Fixed()
			if f.Squashed() {
				fl += b
				fx = fx && a
			} else if a {
				fl += b
			} else {
				fl += 4
				fx = false
			}
		}
		return fx, fl
	}
	return true, 0
}
