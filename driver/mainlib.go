package verifdrv

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"testing"

	"github.com/gkampitakis/go-snaps/snaps"
)

// CurT is the real test inside which a script runs.
var CurT *testing.T

// Root runs the script of the plan.
func Root(t *testing.T) {
	CurT = t
	switch {
	case plan.Tree:
	case plan.Conc != nil:
		RunConc(plan.Conc)
	case plan.Diff != nil:
		RunDiffs(plan.Diff)
	default:
		RunScript()
	}
}

// Main is TestMain of the packages that execute plans.
func Main(m *testing.M) {
	b, err := os.ReadFile(os.Getenv("VERIF_PLAN"))
	if err == nil {
		err = json.Unmarshal(b, &plan)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(97)
	}
	cfgs = make([]*snaps.Config, len(plan.Cfgs))
	for i := range cfgs {
		if !plan.Lazy {
			cfgOf(i)
		}
	}
	Diff()
	slotTexts = slotsNow()
	flag.Parse()
	run, count := flag.Lookup("test.run").Value.String(), flag.Lookup("test.count").Value.String()
	if !plan.Tree {
		flag.Set("test.run", "^TestVerifRoot$")
		flag.Set("test.count", "1")
	}
	code := m.Run()
	if code != 0 {
		fmt.Fprintln(os.Stderr, "driver: root test failed")
	}
	flag.Set("test.run", run)
	flag.Set("test.count", count)
	for _, op := range plan.Ops {
		if op.Op == "clean" {
			RunClean(m, op)
		}
	}
	WriteEvents()
	if code != 0 {
		os.Exit(98)
	}
}

// RunClean calls snaps.Clean with stdout captured and records what it did.
func RunClean(m *testing.M, op Op) {
	d, t, n := Diff()
	if len(d)+len(t)+len(n) > 0 {
		fmt.Fprintln(os.Stderr, "driver: disk changed outside calls", d, t, n)
		os.Exit(96)
	}
	r, w, _ := os.Pipe()
	old := os.Stdout
	os.Stdout = w
	outc := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		outc <- string(b)
	}()
	pan := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				pan = fmt.Sprint(r)
			}
		}()
		if op.Opts {
			snaps.Clean(m, snaps.CleanOpts{Sort: op.Sort})
		} else {
			snaps.Clean(m)
		}
	}()
	os.Stdout = old
	w.Close()
	e := ParseSummary(<-outc)
	delta, touched, newdirs := Diff()
	e["ev"], e["sort"], e["delta"], e["touched"], e["newdirs"], e["panic"] = "clean", op.Sort && op.Opts, delta, touched, newdirs, EncBytes(pan)
	emit(e)
}

func WriteEvents() {
	f, err := os.Create(os.Getenv("VERIF_OUT"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(95)
	}
	defer f.Close()
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	if err := enc.Encode(events); err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(94)
	}
}
