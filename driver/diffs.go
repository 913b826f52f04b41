package verifdrv

// Comparisons of texts: every text is stored in the slot of a test of its own, later runs compare texts with slots.

import (
	"encoding/base64"
	"fmt"
	"strings"
)

// DiffPlan: texts; Store stores text i in the slot of test T<i>, otherwise every pair compares the slot of its first text
// with its second.
type DiffPlan struct {
	Api   string   `json:"api"`
	Cfg   int      `json:"cfg"`
	Texts []string `json:"texts"`
	Store bool     `json:"store"`
	Pairs [][2]int `json:"pairs"`
	All   bool     `json:"all"`
}

func RunDiffs(p *DiffPlan) {
	c, cs := cfgOf(p.Cfg), plan.Cfgs[p.Cfg]
	one := func(slot, val int) {
		b := dec(p.Texts[val])
		var in any = string(b)
		f := &FakeT{name: fmt.Sprintf("T%d", slot)}
		pan := ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					pan = fmt.Sprint("panic: ", r)
				}
			}()
			Shims["a_test"](func() { Call(f, Op{Api: p.Api}, c, cs, in, []any{in}) })
			f.RunCleanups()
		}()
		if pan != "" {
			f.errs = append(f.errs, pan)
		}
		emit(Event{"ev": "diff", "a": slot, "b": val, "nerr": len(f.errs), "nlog": len(f.logs), "r": base64.StdEncoding.EncodeToString([]byte(strings.Join(f.errs, "")))})
	}
	switch {
	case p.Store:
		for i := range p.Texts {
			one(i, i)
		}
	case p.All:
		for i := range p.Texts {
			for j := range p.Texts {
				one(i, j)
			}
		}
	default:
		for _, x := range p.Pairs {
			one(x[0], x[1])
		}
	}
}
