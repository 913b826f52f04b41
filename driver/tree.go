package verifdrv

import (
	"fmt"
	"testing"

	"github.com/gkampitakis/go-snaps/snaps"
)

// RT is a real test whose outcome does not depend on the snapshots: what the library reports is recorded.
type RT struct {
	*testing.T
	errs, logs []string
}

func (r *RT) Error(a ...any) { r.errs = append(r.errs, fmt.Sprint(a...)) }
func (r *RT) Log(a ...any)   { r.logs = append(r.logs, fmt.Sprint(a...)) }

// Tree runs the node of the plan for top-level function name.
func Tree(t *testing.T, name, base string) {
	for _, op := range plan.Ops {
		if op.Op == "func" && op.Name == name {
			node(t, op, base)
		}
	}
}

func node(tt *testing.T, op Op, base string) {
	if op.Par {
		tt.Parallel()
	}
	t := &RT{T: tt}
	emitSync(Event{"ev": "begin", "t": t.Name()})
	tt.Cleanup(func() {
		callMu.Lock()
		defer callMu.Unlock()
		d, tc, n := Diff()
		emit(Event{"ev": "end", "conc": false, "t": t.Name(), "delta": d, "touched": tc, "newdirs": n, "x": ""})
	})
	for _, c := range op.Children {
		c := c
		switch c.Op {
		case "match":
			c.Name, c.Base = t.Name(), base
			ne, nl := len(t.errs), len(t.logs)
			DoMatch(t, c, func() ([]string, []string) { return t.errs[ne:], t.logs[nl:] })
		case "sub":
			tt.Run(c.Name, func(st *testing.T) { node(st, c, base) })
		case "skip":
			callMu.Lock()
			emit(Event{"ev": "skip", "conc": false, "t": t.Name(), "nskip": 1, "nerr": 0, "delta": []Change{}, "touched": []string{}, "newdirs": []string{}, "x": ""})
			callMu.Unlock()
			switch c.Kind {
			case "Skip":
				snaps.Skip(t, "why")
			case "Skipf":
				snaps.Skipf(t, "why %d", 1)
			default:
				snaps.SkipNow(t)
			}
		case "stdskip": // t.Skip of the testing package
			tt.SkipNow()
		}
	}
}

func emitSync(e Event) {
	callMu.Lock()
	defer callMu.Unlock()
	emit(e)
}
