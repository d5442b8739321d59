package codec

import (
	"fmt"
	"hash/fnv"

	"verif/core"
)

// Mark notes the session in the intent file's second half.
func (x *Exec) Mark(i int) {
	x.Sess = i
}

// NewGen2 is NewGen with the type classes computed once.
func NewGen2(x *Exec, seed int64) *Gen {
	if x.quot == nil {
		x.quot = NewGen(x, 0).Quot
	}
	return &Gen{X: x, R: newRand(seed), Quot: x.quot}
}

// RunPlan executes the events of a plan as one session and returns those executed, with results.
//
//	last: 1   decode what the last Encode wrote
//	ifok: 1   only if the last decoding succeeded
func (x *Exec) RunPlan(evs []map[string]interface{}) []map[string]interface{} {
	x.Begin()
	done := []map[string]interface{}{}
	var last core.Bytes
	haveEnc, decOK := false, false
	for _, ev := range evs {
		if num(ev["ifok"]) == 1 && !decOK {
			continue
		}
		if num(ev["last"]) == 1 {
			if !haveEnc {
				continue
			}
			ev["b"], ev["L"] = last, L(last)
		}
		if ev["k"] == "val" {
			h := fnv.New32a()
			fmt.Fprint(h, x.Sess, ev["t"], ev["gv"])
			if n := h.Sum32(); n%2 == 0 {
				ev["spare"] = 1 + int(n/2%1000)
			} else if n%8 == 1 {
				ev["carve"] = 1
			}
		}
		x.Do(ev)
		switch ev["k"] {
		case "enc":
			last, haveEnc = bs(ev, "b"), num(ev["panic"]) == 0
		case "dec", "fuzz":
			decOK = ok(ev)
		}
		done = append(done, ev)
	}
	return done
}
