// Command codec records sessions against the real code, or executes plans of the specification.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"verif/cat"
	"verif/codec"
	"verif/core"
)

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	n := flag.Int("n", 100, "sessions")
	only := flag.Int("only", -1, "run only this session")
	catp := flag.String("catalog", "", "catalogue")
	out := flag.String("out", "", "trace")
	in := flag.String("plans", "", "plans to execute")
	bytesMax := flag.Int("bytes", 1<<30, "stop after a trace of this many bytes")
	intent := flag.String("intent", "", "file telling which event is being executed")
	secs := flag.Float64("secs", 1e9, "stop after this many seconds")
	roots := flag.String("roots", "", "trees to evaluate")
	flag.Parse()
	if *roots != "" {
		core.EvalRoots(*roots)
		return
	}
	debug.SetPanicOnFault(true)
	start := time.Now()
	x := codec.NewExec(core.LoadCatalog(*catp, cat.Types))
	x.Swaps, x.Inv = cat.Swaps, cat.Inverted
	for id, t := range cat.Outers {
		x.Entry(id).Outer = t
	}
	x.Watch(40 * time.Second)
	x.Raws = *prop == "C20"
	if *intent != "" {
		f, err := os.Create(*intent)
		if err != nil {
			panic(err)
		}
		x.Intent = f
	}
	of, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(of, 1<<20)
	if *in != "" {
		plans(x, *in, w, *only)
	} else {
		written, sessions, events := 0, 0, 0
		for i := 0; i < *n; i++ {
			if *only >= 0 && i != *only {
				continue
			}
			if time.Since(start).Seconds() > *secs {
				break
			}
			x.Cur = fmt.Sprint("session ", i)
			// every session has a generator of its own: any of them can be run alone
			g := codec.NewGen2(x, *seed*1000003+int64(i))
			if x.Intent != nil {
				x.Mark(i)
			}
			x.Collect = 0
			if *prop != "C16" && i%16 == 5 {
				x.Collect = 1 + i/16%2
			}
			evs := g.Session(*prop, i)
			if len(evs) == 0 {
				continue
			}
			d, err := json.Marshal(map[string]interface{}{"id": i, "ev": evs})
			if err != nil {
				panic(err)
			}
			w.Write(d)
			w.WriteByte('\n')
			written += len(d)
			sessions++
			events += len(evs)
			if written > *bytesMax {
				break
			}
		}
		fmt.Printf("{\"sessions\":%d,\"events\":%d,\"bytes\":%d}\n", sessions, events, written)
	}
	w.Flush()
	of.Close()
}

// plans executes the plans that the specification printed and records them as sessions.
func plans(x *codec.Exec, path string, w *bufio.Writer, only int) {
	n, ne, written := 0, 0, 0
	err := core.Behaviours(path, func(d []byte) bool {
		n++
		if only >= 0 && n-1 != only {
			return true
		}
		var s struct {
			Ev []map[string]interface{} `json:"ev"`
		}
		if err := json.Unmarshal(d, &s); err != nil {
			panic(err)
		}
		x.Cur = fmt.Sprint("plan ", n-1)
		if x.Intent != nil {
			x.Mark(n - 1)
		}
		done := x.RunPlan(s.Ev)
		ne += len(done)
		d, err := json.Marshal(map[string]interface{}{"id": n - 1, "ev": done})
		if err != nil {
			panic(err)
		}
		w.Write(d)
		w.WriteByte('\n')
		written += len(d)
		return true
	})
	if err != nil {
		panic(err)
	}
	if only >= 0 {
		n = 1
	}
	fmt.Printf("{\"sessions\":%d,\"events\":%d,\"bytes\":%d}\n", n, ne, written)
}
