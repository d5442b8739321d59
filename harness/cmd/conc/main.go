// Command conc lets several goroutines use the same definitions: along the schedules of
// spec/Schedules.tla, or as they run.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"time"

	"verif/cat"
	"verif/codec"
	"verif/core"
)

func main() {
	seed := flag.Int64("seed", 1, "seed")
	catp := flag.String("catalog", "", "catalogue")
	in := flag.String("replay", "", "schedules")
	every := flag.Int("every", 1, "take every n-th schedule")
	rounds := flag.Int("rounds", 1, "times to go through the schedules")
	free := flag.Int("free", 0, "sessions without a schedule")
	calls := flag.Int("calls", 12, "calls per process in these")
	out := flag.String("out", "", "trace")
	roots := flag.String("roots", "", "trees to evaluate")
	flag.Parse()
	if *roots != "" {
		core.EvalRoots(*roots)
		return
	}
	x := codec.NewExec(core.LoadCatalog(*catp, cat.Types))
	of, err := os.Create(*out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(of, 1<<20)
	sessions, events, gates := 0, 0, 0
	emit := func(evs []map[string]interface{}) {
		d, err := json.Marshal(map[string]interface{}{"id": sessions, "ev": evs})
		if err != nil {
			panic(err)
		}
		w.Write(d)
		w.WriteByte('\n')
		sessions++
		events += len(evs)
		for _, e := range evs {
			if e["k"] == "gate" {
				gates++
			}
		}
	}
	seq := 0
	for r := 0; r < *rounds && *in != ""; r++ {
		err = core.Behaviours(*in, func(d []byte) bool {
			if seq++; seq%*every != 0 {
				return true
			}
			var s struct {
				Len []int `json:"len"`
				S   []int `json:"s"`
			}
			if err := json.Unmarshal(d, &s); err != nil {
				panic(err)
			}
			old := 0
			if seq%2 == 0 {
				old = runtime.GOMAXPROCS(1)
			}
			c := codec.NewConcurrent(x, *seed*1000003+int64(seq))
			evs := c.Scheduled(seq / *every, s.Len, s.S)
			if old > 0 {
				runtime.GOMAXPROCS(old)
			}
			if c.Stuck {
				fmt.Fprintf(os.Stderr, "HANG github.com/protolambda/zssz: the calls of schedule %v wait for each other\n", s.S)
				os.Exit(7)
			}
			emit(evs)
			return true
		})
		if err != nil {
			panic(err)
		}
	}
	for i := 0; i < *free; i++ {
		c := codec.NewConcurrent(x, *seed*1000003+int64(1<<30+i))
		done := make(chan bool)
		go func() { emit(c.Free(i, 8, *calls)); close(done) }()
		select {
		case <-done:
		case <-time.After(90 * time.Second):
			fmt.Fprintln(os.Stderr, "HANG github.com/protolambda/zssz: concurrent calls do not return")
			os.Exit(7)
		}
	}
	w.Flush()
	of.Close()
	fmt.Printf("{\"sessions\":%d,\"events\":%d,\"gates\":%d}\n", sessions, events, gates)
}
