package verifdrv

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"

	"github.com/gkampitakis/go-snaps/snaps"
)

// ConcPlan: executions of tests that run concurrently, under many schedules.  Every schedule starts from the same files in
// a directory of its own.
type ConcPlan struct {
	Init   map[string]string `json:"init"` // path -> base64 content
	Tasks  []Op              `json:"tasks"`
	Lists  [][]int           `json:"lists"` // schedules given as sequences of tasks (of Conc.tla)
	Random int               `json:"random"`
	Pct    int               `json:"pct"`
	Seed   int64             `json:"seed"`
	Bound  int               `json:"bound"` // preemption bound of the systematic search
	Max    int               `json:"max"`   // schedules of the systematic search at most
}

type SchedResult struct {
	Choices  []int
	Runnable [][]int
	At       []string
	Deadlock bool
	Stuck    bool
}

// Sched runs functions under a controlled schedule; set by the file that is added together with the overlay.
var Sched func(fs []func(), choose func(runnable []int, step int) int) SchedResult

func has(s []int, x int) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

// RunConc emits one event per distinct behaviour: its calls (grouped by task) and the files it left.
func RunConc(p *ConcPlan) {
	root := plan.Root
	n, points := 0, 0
	seen := map[string]Event{}
	order := []string{}
	stuck := 0
	one := func(kind string, choose func([]int, int) int) SchedResult {
		n++
		plan.Root = filepath.Join(root, fmt.Sprintf("s%d", n))
		os.MkdirAll(plan.Root, 0o755)
		for f, b := range p.Init {
			os.MkdirAll(filepath.Dir(plan.Root+f), 0o755)
			os.WriteFile(plan.Root+f, dec(b), 0o644)
		}
		cfgs = make([]*snaps.Config, len(plan.Cfgs))
		known = map[string]fstate{}
		Diff()
		evs := make([][]Event, len(p.Tasks))
		var fs []func()
		for i, op := range p.Tasks {
			fs = append(fs, func() { Exec(op, func(e Event) { evs[i] = append(evs[i], e) }) })
		}
		r := Sched(fs, choose)
		points += len(r.Choices)
		if r.Stuck {
			stuck++
			return r
		}
		out := Event{"ev": "behaviour", "deadlock": r.Deadlock}
		if !r.Deadlock {
			all := []Event{}
			for _, e := range evs {
				all = append(all, e...)
			}
			out["events"] = append(all, settle())
		}
		b, err := json.Marshal(out)
		if err != nil {
			panic(err)
		}
		k := string(b)
		if e, ok := seen[k]; ok {
			e["times"] = e["times"].(int) + 1
		} else {
			out["times"], out["kind"], out["schedule"], out["at"] = 1, kind, r.Choices, r.At
			seen[k] = out
			order = append(order, k)
		}
		if !r.Deadlock {
			os.RemoveAll(plan.Root)
		}
		return r
	}
	enough := func() bool { return stuck > 0 || len(order) > 40 }
	for _, l := range p.Lists {
		if enough() {
			break
		}
		i, cur := 0, -1
		one("specification", func(ok []int, step int) int {
			for ; i < len(l); i++ {
				if has(ok, l[i]) {
					cur = l[i]
					i++
					return cur
				}
			}
			if has(ok, cur) {
				return cur
			}
			return ok[0]
		})
	}
	for s := 0; s < p.Random && !enough(); s++ {
		r := rand.New(rand.NewSource(p.Seed + int64(s)))
		stick := r.Float64()
		cur := -1
		one("random", func(ok []int, step int) int {
			if !has(ok, cur) || r.Float64() > stick {
				cur = ok[r.Intn(len(ok))]
			}
			return cur
		})
	}
	for s := 0; s < p.Pct && !enough(); s++ { // priorities with a few change points
		r := rand.New(rand.NewSource(p.Seed + 7919*int64(s)))
		prio := r.Perm(len(p.Tasks))
		for i := range prio {
			prio[i] += 100
		}
		change := map[int]int{}
		for d := 0; d < 1+r.Intn(4); d++ {
			change[r.Intn(60*len(p.Tasks))] = d
		}
		one("pct", func(ok []int, step int) int {
			best := func() int {
				b := ok[0]
				for _, x := range ok {
					if prio[x] > prio[b] {
						b = x
					}
				}
				return b
			}
			b := best()
			if d, c := change[step]; c {
				prio[b] = d
				b = best()
			}
			return b
		})
	}
	// systematic: every schedule with at most Bound preemptions, depth first
	if p.Max > 0 {
		type node struct {
			ok  []int
			pos int
			pre int // preemptions before this step
			cur int // task that ran before this step
		}
		var stack []node
		alts := func(nd node) []int { // the running task first
			o := []int{}
			if has(nd.ok, nd.cur) {
				o = append(o, nd.cur)
			}
			for _, x := range nd.ok {
				if x != nd.cur {
					o = append(o, x)
				}
			}
			return o
		}
		cost := func(nd node, c int) int {
			if c != nd.cur && has(nd.ok, nd.cur) {
				return 1
			}
			return 0
		}
		full := false
		for k := 0; k < p.Max && !enough(); k++ {
			one("systematic", func(ok []int, step int) int {
				if step < len(stack) {
					nd := stack[step]
					c := alts(nd)[nd.pos]
					if has(ok, c) {
						return c
					}
					return ok[0]
				}
				nd := node{ok: append([]int{}, ok...), cur: -1}
				if step > 0 {
					l := stack[step-1]
					nd.cur = alts(l)[l.pos]
					nd.pre = l.pre + cost(l, nd.cur)
				}
				stack = append(stack, nd)
				return alts(nd)[0]
			})
			for len(stack) > 0 {
				l := &stack[len(stack)-1]
				a := alts(*l)
				for l.pos++; l.pos < len(a) && l.pre+cost(*l, a[l.pos]) > p.Bound; l.pos++ {
				}
				if l.pos < len(a) {
					break
				}
				stack = stack[:len(stack)-1]
			}
			if len(stack) == 0 {
				full = true
				break
			}
		}
		emit(Event{"ev": "systematic", "complete": full})
	}
	plan.Root = root
	sort.Strings(order)
	for _, k := range order {
		emit(seen[k])
	}
	emit(Event{"ev": "explored", "schedules": n, "steps": points, "stuck": stuck})
}
