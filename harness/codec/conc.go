package codec

import (
	"fmt"
	"math/rand"
	"sync"
	"time"

	"verif/core"

	"github.com/protolambda/zssz/htr"
)

// Sub is an executor for a process of its own: it shares the definitions (and nothing else) with x.
func (x *Exec) Sub(slots ...int) *Exec {
	p := &Exec{Cat: x.Cat, defs: x.defs, defErr: x.defErr, Hs: map[int]*core.Hasher{0: core.NewHasher(0)}, Slots: map[int]*Slot{}}
	p.H = p.Hs[0]
	for _, s := range slots {
		if x.Slots[s] != nil {
			p.Slots[s] = x.Slots[s]
		}
	}
	return p
}

// Concurrent makes sessions with processes that use definitions at the same time.
type Concurrent struct {
	X  *Exec
	G  *Gen
	R  *rand.Rand
	Ev []M
	mu sync.Mutex

	Stuck bool
}

func NewConcurrent(x *Exec, seed int64) *Concurrent {
	g := NewGen2(x, seed)
	return &Concurrent{X: x, G: g, R: g.R}
}

// Call makes a call for process p; its value is in slot p and it decodes into slot p+8.
func (c *Concurrent) call(p int, e *core.Entry, in core.Bytes) M {
	r := c.R
	rd := core.ReadPlan{Style: []int{core.RFrag, core.RWhole, core.RZero, core.RFragEOF}[r.Intn(4)], Seed: r.Intn(1 << 20), Fail: -1}
	switch k := r.Intn(12); {
	case k < 2:
		return M{"k": "enc", "t": e.Id, "s": p}
	case k < 3:
		return M{"k": "encw", "t": e.Id, "s": p, "wp": core.WritePlan{At: r.Intn(len(in) + 1), Mode: r.Intn(3)}}
	case k < 5:
		return M{"k": "htr", "t": e.Id, "s": p, "via": r.Intn(2)}
	case k < 6 && e.G.K == "struct":
		return M{"k": "sr", "t": e.Id, "s": p, "via": r.Intn(2)}
	case k < 7:
		return M{"k": "size", "t": e.Id, "s": p}
	case k < 9:
		return M{"k": "dry", "t": e.Id, "b": in, "L": L(in), "rd": rd}
	}
	return M{"k": "dec", "t": e.Id, "s": p + 8, "b": in, "L": L(in), "rd": rd}
}

func (c *Concurrent) alone(call M) int {
	if call["k"] == "dec" {
		c.do(M{"k": "new", "s": call["s"], "t": call["t"]})
	}
	n := 0
	c.X.Gate = func() { n++ }
	c.do(clone(call))
	c.X.Gate = nil
	return n
}

func (c *Concurrent) do(ev M) M {
	c.X.Do(ev)
	c.Ev = append(c.Ev, ev)
	return ev
}

func (c *Concurrent) note(ev M) {
	c.mu.Lock()
	c.Ev = append(c.Ev, ev)
	c.mu.Unlock()
}

func clone(m M) M {
	o := M{}
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (c *Concurrent) input(e *core.Entry) core.Bytes {
	if c.R.Intn(4) == 0 {
		return core.GenInput(e.G, c.R, 60)
	}
	return c.G.validBytes(e, 80)
}

func (c *Concurrent) entry(i int) *core.Entry {
	if i%3 == 0 {
		if e := c.G.pick(i, "std"); !e.Is("eth") || i%5 == 0 {
			return e
		}
	}
	for {
		if e := c.G.from("comp"); e.Is("ok") && !e.Is("zero") && !e.Is("mc") && (!e.Is("eth") || c.R.Intn(4) == 0) {
			return e
		}
	}
}

// deep tells whether its trees are deep.
func deep(g *core.G) bool {
	if g.HasLim && g.Lim >= 1<<26 || g.E != nil && deep(g.E) {
		return true
	}
	for _, f := range g.Fs {
		if deep(f.T) {
			return true
		}
	}
	return false
}

// Cold makes definitions anew, and the zero hashes: nothing was done with them yet.
func (x *Exec) Cold(es ...*core.Entry) {
	for _, e := range es {
		delete(x.defs, e.Id)
		x.Def(e.Id)
	}
	htr.InitZeroHashes(x.H.Raw0)
}

type proc struct {
	x       *Exec
	call    M
	per     int // gates per step of the schedule
	run     chan bool
	stop    chan bool
	done    bool
	waiting bool // it was let go, but has not arrived yet (it waits for another process)
}

// Scheduled runs one call per process, interleaved as the schedule says: every step takes a process
// from where it is past its share of its gates.
func (c *Concurrent) Scheduled(i int, lens []int, sched []int) []M {
	c.X.Begin()
	e := c.entry(i)
	var ps []*proc
	for k := range lens {
		s := k + 1
		v := core.GenVal(e.G, c.R, c.G.budget()/2)
		c.do(M{"k": "val", "s": s, "t": e.Id, "gv": v})
	}
	for k, n := range lens {
		call := c.call(k+1, e, c.input(e))
		if k == 1 && i%3 == 0 { // the same operation as the first process, on another value
			first := ps[0].call
			call = clone(first)
			if s := num(first["s"]); s != 0 {
				call["s"] = s + 1
			}
			if first["b"] != nil {
				b := c.input(e)
				call["b"], call["L"] = b, L(b)
			}
		}
		if i%4 == 1 && call["s"] != nil && call["k"] != "dec" { // reading the same value
			call["s"] = 1
		}
		c.alone(call)
		gates := c.alone(call)
		ps = append(ps, &proc{call: call, per: (gates + n) / n})
	}
	if i%2 == 0 {
		c.X.Cold(e)
	}
	for k, p := range ps {
		if p.call["k"] == "dec" {
			c.do(M{"k": "new", "s": p.call["s"], "t": e.Id})
		}
		p.x = c.X.Sub(1, k+1, k+9)
		p.run, p.stop = make(chan bool), make(chan bool)
		p := p
		p.x.Gate = func() { p.stop <- true; <-p.run }
		go func() {
			<-p.run
			res := p.x.Do(clone(p.call))
			p.call = res
			p.stop <- false
		}()
	}
	for k, p := range ps {
		c.Ev = append(c.Ev, M{"k": "beg", "p": k + 1, "call": M{"k": p.call["k"]}})
	}
	arrive := func(k int, in time.Duration) bool {
		p := ps[k]
		select {
		case more := <-p.stop:
			p.waiting = false
			if !more {
				p.done = true
				c.Ev = append(c.Ev, M{"k": "end", "p": k + 1, "res": p.call})
			}
			return true
		case <-time.After(in):
			p.waiting = true
			return false
		}
	}
	step := func(k int) {
		p := ps[k]
		for g := 0; g < p.per && !p.done; g++ {
			if p.waiting {
				if !arrive(k, time.Millisecond) {
					return
				}
				continue
			}
			p.run <- true
			if !arrive(k, 100*time.Millisecond) {
				return
			}
		}
		if !p.done {
			c.Ev = append(c.Ev, M{"k": "gate", "p": k + 1})
		}
	}
	for _, k := range sched {
		step(k - 1)
	}
	start := time.Now()
	for left := true; left; {
		left = false
		for k, p := range ps {
			if !p.done {
				step(k)
				left = true
			}
		}
		if time.Since(start) > 60*time.Second {
			c.Stuck = true
			return nil
		}
	}
	for _, p := range ps {
		c.alone(args(p.call))
	}
	return c.observe()
}

// observe looks at the values that the calls were about.
func (c *Concurrent) observe() []M {
	for s := range c.X.Slots {
		if s > 8 {
			delete(c.X.Slots, s)
		}
	}
	c.do(M{"k": "obs"})
	return c.Ev
}

// args is a call without its results.
func args(ev M) M {
	o := M{}
	for _, k := range []string{"k", "t", "s", "b", "L", "rd", "wp", "via"} {
		if v, ok := ev[k]; ok {
			o[k] = v
		}
	}
	return o
}

// Free lets processes run at will, each making several calls.
func (c *Concurrent) Free(i, procs, calls int) []M {
	c.X.Begin()
	es := []*core.Entry{c.entry(i), c.entry(3*i + 1)}
	cold := i%2 == 1 // nothing is done with the definitions before
	for n := 0; cold && i%3 != 0 && n < 200 && !deep(es[0].G); n++ {
		es[0] = c.entry(n)
	}
	type job struct{ calls []M }
	jobs := make([]job, procs)
	var after []M
	for k := 0; k < procs; k++ {
		e := es[0]
		if k%4 == 3 {
			e = es[1]
		}
		c.do(M{"k": "val", "s": k + 1, "t": e.Id, "gv": core.GenVal(e.G, c.R, c.G.budget()/2)})
		in := c.input(e)
		seen := map[string]bool{}
		for n := 0; n < calls; n++ {
			call := c.call(k+1, e, in)
			if i%4 == 2 && k%4 != 3 && call["s"] != nil && call["k"] != "dec" { // reading the same value
				call["s"] = 1
			}
			jobs[k].calls = append(jobs[k].calls, call)
			if id := fmt.Sprint(call["k"], call["wp"], call["s"]); !seen[id] {
				if cold {
					after = append(after, call)
				} else {
					c.alone(call)
					c.alone(call)
				}
				seen[id] = true
			}
		}
	}
	var wg sync.WaitGroup
	begin := make(chan bool)
	for k := range jobs {
		k := k
		x := c.X.Sub(1, k+1)
		e := es[0]
		if k%4 == 3 {
			e = es[1]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-begin
			for _, call := range jobs[k].calls {
				if call["k"] == "dec" {
					x.Slots[k+9] = NewSlot(e)
				}
				c.note(M{"k": "beg", "p": k + 1, "call": M{"k": call["k"]}})
				c.note(M{"k": "end", "p": k + 1, "res": x.Do(clone(call))})
			}
		}()
	}
	if cold {
		c.X.Cold(es...)
	}
	close(begin)
	wg.Wait()
	for _, call := range after {
		c.alone(call)
	}
	for k := range jobs {
		c.alone(args(jobs[k].calls[0]))
	}
	return c.observe()
}
