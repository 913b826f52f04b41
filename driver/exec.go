// Package verifdrv executes scripts of go-snaps calls against the real library (public API only) and records what each
// call did: the calls made on the testing object it was given, and the change of the whole scenario directory.
package verifdrv

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/gkampitakis/go-snaps/match"
	"github.com/gkampitakis/go-snaps/snaps"
	"github.com/goccy/go-yaml"
	kpretty "github.com/kr/pretty"
	tpretty "github.com/tidwall/pretty"
)

// ---------------------------------------------------------------- plan

type CfgSpec struct {
	Pkg     bool    `json:"pkg"` // package-level functions
	Dir     *string `json:"dir"` // an absolute directory is under the scenario root
	Fn      *string `json:"fn"`
	Ext     *string `json:"ext"`
	Upd     *bool   `json:"upd"`
	Width   *int    `json:"width"`
	Indent  *string `json:"indent"`
	NoSort  bool    `json:"nosort"`
	HasJSON bool    `json:"hasjson"`
}

type Val struct {
	K   string `json:"k"` // str, bytes, go, many, none
	B   string `json:"b"` // base64 content
	N   int    `json:"n"`
	Rep int    `json:"rep"`
	Vs  []Val  `json:"vs"`
}

type Matcher struct {
	Kind  string   `json:"kind"`
	Paths []string `json:"paths"`
	Ph    *Val     `json:"ph"`
	Miss  bool     `json:"miss"` // ErrOnMissingPath(false)
	Typ   string   `json:"typ"`
	Cb    string   `json:"cb"`   // err, const, id
	Segs  [][]Seg  `json:"segs"` // the paths, taken apart (docs)
}

type Seg struct {
	T string `json:"t"`
	S string `json:"s"`
}

type Op struct {
	Op       string    `json:"op"`
	T        string    `json:"t"` // exec id
	Name     string    `json:"name"`
	Api      string    `json:"api"`
	Cfg      int       `json:"cfg"`
	Base     string    `json:"base"`
	V        Val       `json:"v"`
	M        []Matcher `json:"m"`
	Kind     string    `json:"kind"`
	Sort     bool      `json:"sort"`
	Opts     bool      `json:"opts"`
	Want     *Val      `json:"want"` // expected formatted text, when the plan knows it
	Defer    bool      `json:"defer"`
	Chdir    string    `json:"chdir"`
	Par      bool      `json:"par"` // t.Parallel()
	Children []Op      `json:"children"`
	Fam      string    `json:"fam"` // docs: inputs of one family are written alike where nothing masks them
}

// Plan.Tree: the ops are top-level test functions (by name) and the real test runner decides which of them run.
type Plan struct {
	Root string    `json:"root"`
	Cfgs []CfgSpec `json:"cfgs"`
	Ops  []Op      `json:"ops"`
	Full bool      `json:"full"` // log full error texts
	Tree bool      `json:"tree"`
	Lazy bool      `json:"lazy"` // a Config is built right before its first use
	Src  string    `json:"src"`  // directory of the test files, when it is not the root
	Conc *ConcPlan `json:"conc"`
	Docs bool      `json:"docs"` // events for DocsTrace
	Diff *DiffPlan `json:"diff"`
}

// ---------------------------------------------------------------- recording

type Change struct {
	P     string   `json:"p"`
	Del   bool     `json:"del"`
	Lines []string `json:"lines"`
}

type Event map[string]any

var (
	plan   Plan
	evMu   sync.Mutex
	events []Event
	cfgs   []*snaps.Config
)

func safeByte(c byte) bool { return c >= 0x20 && c < 0x7f && c != '%' }

// EncBytes maps a byte string injectively to printable ASCII without '%' except as escape.
func EncBytes(b string) string {
	ok := true
	for i := 0; i < len(b); i++ {
		if !safeByte(b[i]) {
			ok = false
			break
		}
	}
	if ok {
		return b
	}
	var s strings.Builder
	for i := 0; i < len(b); i++ {
		if safeByte(b[i]) {
			s.WriteByte(b[i])
		} else {
			fmt.Fprintf(&s, "%%%02x", b[i])
		}
	}
	return s.String()
}

func special(l string) bool {
	if l == "" || l == "---" {
		return true
	}
	if strings.HasSuffix(l, "-/-/-/") && strings.Trim(l[:len(l)-6], "/") == "" {
		return true
	}
	return l[0] == '[' && l[len(l)-1] == ']'
}

// EncLine is the abstraction of one line: long plain lines become a digest.
func EncLine(l string) string {
	if len(l) > 160 && !special(l) {
		h := sha1.Sum([]byte(l))
		return fmt.Sprintf("%%line:%d:%s", len(l), hex.EncodeToString(h[:]))
	}
	return EncBytes(l)
}

// Lines is the abstraction of a text: its lines, with long runs of plain lines replaced by a digest.  A run is
// delimited by special lines only, so the text of a value and the same text inside a file abstract alike.
func Lines(s string) []string {
	raw := strings.Split(s, "\n")
	out := make([]string, 0, len(raw))
	for i := 0; i < len(raw); {
		if special(raw[i]) {
			out = append(out, EncLine(raw[i]))
			i++
			continue
		}
		j := i
		for j < len(raw) && !special(raw[j]) {
			j++
		}
		if j-i > 40 {
			h := sha1.New()
			for _, l := range raw[i:j] {
				h.Write([]byte(l))
				h.Write([]byte{'\n'})
			}
			out = append(out, fmt.Sprintf("%%run:%d:%s", j-i, hex.EncodeToString(h.Sum(nil))))
		} else {
			for _, l := range raw[i:j] {
				out = append(out, EncLine(l))
			}
		}
		i = j
	}
	return out
}

type fstate struct {
	data  []byte
	mtime time.Time
	ino   any
	dir   bool
}

var (
	sentinel = time.Date(2001, 2, 3, 4, 5, 6, 0, time.UTC)
	known    = map[string]fstate{}
)

func walk() map[string]fstate {
	m := map[string]fstate{}
	filepath.Walk(plan.Root, func(p string, info os.FileInfo, err error) error {
		if err != nil || p == plan.Root {
			return nil
		}
		rel, _ := filepath.Rel(plan.Root, p)
		if strings.HasPrefix(rel, ".verif") || strings.HasSuffix(rel, ".go") && !strings.Contains(rel, "__snapshots__") || rel == "go.mod" || rel == "go.sum" {
			return nil
		}
		if info.Mode()&os.ModeSymlink != 0 {
			if to, err := os.Stat(p); err == nil {
				info = to
			}
		}
		if info.IsDir() {
			m[rel] = fstate{dir: true, mtime: info.ModTime()}
			return nil
		}
		k, ok := known[rel]
		if ok && info.ModTime().Equal(sentinel) && int64(len(k.data)) == info.Size() && k.ino == inode(info) {
			m[rel] = fstate{data: k.data, mtime: sentinel, ino: k.ino}
			return nil
		}
		b, _ := os.ReadFile(p)
		m[rel] = fstate{data: b, mtime: info.ModTime(), ino: inode(info)}
		return nil
	})
	return m
}

// Diff compares the scenario directory with the last look at it.
func Diff() (delta []Change, touched, newdirs []string) {
	delta, touched, newdirs = []Change{}, []string{}, []string{}
	now := walk()
	for p, s := range now {
		o, ok := known[p]
		if s.dir {
			if !ok {
				newdirs = append(newdirs, "/"+EncBytes(p))
			}
			continue
		}
		if !ok || !bytes.Equal(o.data, s.data) {
			delta = append(delta, Change{P: "/" + EncBytes(p), Lines: Lines(string(s.data))})
		}
		if !ok || !s.mtime.Equal(sentinel) || s.ino != o.ino {
			touched = append(touched, "/"+EncBytes(p))
		}
	}
	for p, o := range known {
		if _, ok := now[p]; !ok && !o.dir {
			delta = append(delta, Change{P: "/" + EncBytes(p), Del: true, Lines: []string{}})
			touched = append(touched, "/"+EncBytes(p))
		}
	}
	for p, s := range now {
		if !s.dir && !s.mtime.Equal(sentinel) {
			os.Chtimes(filepath.Join(plan.Root, p), sentinel, sentinel)
			s.mtime = sentinel
			now[p] = s
		}
	}
	known = now
	sort.Slice(delta, func(i, j int) bool { return delta[i].P < delta[j].P })
	sort.Strings(touched)
	sort.Strings(newdirs)
	return
}

func emit(e Event) {
	evMu.Lock()
	events = append(events, e)
	evMu.Unlock()
}

// ---------------------------------------------------------------- the testing object

type FakeT struct {
	mu       sync.Mutex
	name     string
	errs     []string
	logs     []string
	nskip    int
	cleanups []func()
}

func (f *FakeT) Helper()           {}
func (f *FakeT) Name() string      { return f.name }
func (f *FakeT) Skip(a ...any)     { f.mu.Lock(); f.nskip++; f.mu.Unlock() }
func (f *FakeT) SkipNow()          { f.mu.Lock(); f.nskip++; f.mu.Unlock() }
func (f *FakeT) Cleanup(fn func()) { f.mu.Lock(); f.cleanups = append(f.cleanups, fn); f.mu.Unlock() }
func (f *FakeT) Skipf(s string, a ...any) {
	f.mu.Lock()
	f.nskip++
	f.mu.Unlock()
}

func (f *FakeT) Error(a ...any) {
	f.mu.Lock()
	f.errs = append(f.errs, fmt.Sprint(a...))
	f.mu.Unlock()
}

func (f *FakeT) Log(a ...any) {
	f.mu.Lock()
	f.logs = append(f.logs, fmt.Sprint(a...))
	f.mu.Unlock()
}

func (f *FakeT) RunCleanups() {
	for {
		f.mu.Lock()
		n := len(f.cleanups)
		if n == 0 {
			f.mu.Unlock()
			return
		}
		c := f.cleanups[n-1]
		f.cleanups = f.cleanups[:n-1]
		f.mu.Unlock()
		c()
	}
}

type T interface {
	Helper()
	Skip(...any)
	Skipf(string, ...any)
	SkipNow()
	Name() string
	Error(...any)
	Log(...any)
	Cleanup(func())
}

// ---------------------------------------------------------------- values

func dec(b string) []byte {
	x, err := base64.StdEncoding.DecodeString(b)
	if err != nil {
		panic("plan: " + err.Error())
	}
	return x
}

func (v Val) bytes() []byte {
	b := dec(v.B)
	if v.Rep > 1 {
		b = bytes.Repeat(b, v.Rep)
	}
	return b
}

type S1 struct {
	A int
	B string
	C []string
	d float64
}
type S2 struct {
	Name  string            `json:"name" yaml:"name"`
	Email *string           `json:"email,omitempty" yaml:"email,omitempty"`
	Tags  []string          `json:"tags" yaml:"tags"`
	Attr  map[string]any    `json:"attr" yaml:"attr"`
	In    *S2               `json:"in,omitempty" yaml:"in,omitempty"`
	M     map[string]string `json:"m,omitempty" yaml:"m,omitempty"`
}

type bad struct{}

func (bad) MarshalJSON() ([]byte, error) { return nil, errors.New("nope") }

// GoVal is the catalogue of Go values used as inputs.
type K1 struct {
	N int
	S string
}

type st string

func (s st) String() string { return "<" + string(s) + ">" }

func GoVal(n int) any {
	e := "a@b.c"
	switch n {
	case 0:
		return 10
	case 1:
		return "plain"
	case 2:
		return []int{1, 2, 3}
	case 3:
		return map[string]int{"b": 2, "a": 1, "c": 3}
	case 4:
		return S1{1, "two\n---\nthree", []string{"[TestA - 1]", "---", ""}, 4.5}
	case 5:
		return nil
	case 6:
		return true
	case 7:
		return []byte("bytes\n---\n")
	case 8:
		return S2{Name: "n", Email: &e, Tags: []string{"x", "y"}, Attr: map[string]any{"z": 1, "a": []any{1, "2", nil}}}
	case 9:
		return &S2{Name: "outer", In: &S2{Name: "inner", M: map[string]string{"k2": "v", "k1": "w"}}}
	case 10:
		return 3.25
	case 11:
		return errors.New("an error\n[TestA - 1]\n---")
	case 12:
		return map[string]any{"b": []any{1, map[string]any{"y": 1, "x": 2}}, "a": "s", "c": nil, "d": 1.5, "e": true}
	case 13:
		return [][]string{{"a"}, {}, nil}
	case 14:
		return struct{}{}
	case 15:
		return []any{}
	case 16:
		return map[string]any{}
	case 17:
		return make(chan int)
	case 18:
		return bad{}
	case 19:
		return math.Inf(1)
	case 20:
		return "multi\nline\n"
	case 21:
		return map[int]string{10: "ten", 9: "nine"}
	case 22:
		return json.RawMessage(`{"raw":[1,2,{"k":"v"}],"a":"<&>"}`)
	case 23:
		return "<html>&amp;\u2028</html>"
	case 24:
		return []string{"---", "/-/-/-/", ""}
	case 25:
		return json.Number("12.50")
	case 26:
		return time.Duration(1500) * time.Millisecond
	case 27:
		return func() {}
	case 28:
		return fmt.Errorf("wrapped: %w", errors.New("inner"))
	case 29:
		return time.Date(2024, 2, 29, 12, 30, 0, 5, time.UTC)
	case 30:
		return (*S2)(nil)
	case 31:
		return complex(1, -2.5)
	case 32:
		return [3]byte{1, 2, 255}
	case 33:
		return map[K1]*S1{{1, "b"}: {C: []string{"p"}}, {1, "a"}: nil, {0, "z"}: {A: 7}}
	case 34:
		return st("stringer")
	case 35:
		return []error{errors.New("e1"), nil, fmt.Errorf("e2")}
	case 36:
		return math.NaN()
	case 37:
		return []any{'r', uint8(3), int64(-9), float32(.5), "s", nil, true, [2]bool{true}}
	case 38:
		return ""
	case 39:
		return struct {
			error
			N any
		}{errors.New("embedded"), []any{S1{}}}
	case 40:
		return &[]*int{nil}
	default:
		return n
	}
}

func (v Val) value() any {
	switch v.K {
	case "str":
		return string(v.bytes())
	case "bytes":
		return v.bytes()
	case "go":
		return GoVal(v.N)
	case "json": // the Go value this JSON text decodes to
		var x any
		d := json.NewDecoder(bytes.NewReader(v.bytes()))
		d.UseNumber()
		if err := d.Decode(&x); err != nil {
			panic("plan: json value " + err.Error())
		}
		return x
	case "nil":
		return nil
	case "enc": // the JSON text that another value is encoded as
		b, err := json.Marshal(v.Vs[0].value())
		if err != nil {
			return "not json"
		}
		if v.N == 1 {
			return b
		}
		return string(b)
	}
	panic("plan: value kind " + v.K)
}

func (v Val) values() []any {
	switch v.K {
	case "many":
		r := []any{}
		for _, x := range v.Vs {
			r = append(r, x.value())
		}
		return r
	case "none":
		return nil
	}
	return []any{v.value()}
}

// reference formatter of MatchSnapshot / MatchStandaloneSnapshot
// (kr/pretty lines up tabs, so texts with tabs are not stored as they are)
func refText(x any) string { return kpretty.Sprint(x) }

func refJSON(c CfgSpec, b []byte) string {
	o := &tpretty.Options{SortKeys: true, Indent: " "}
	if c.HasJSON {
		o = &tpretty.Options{SortKeys: !c.NoSort}
		if c.Width != nil {
			o.Width = *c.Width
		}
		if c.Indent != nil {
			o.Indent = *c.Indent
		}
	}
	return strings.TrimSuffix(string(tpretty.PrettyOptions(b, o)), "\n")
}

// want returns the formatted text of a call without matchers, and whether the input is valid.
func want(op Op, c CfgSpec) (string, bool) {
	switch op.Api {
	case "S":
		parts := []string{}
		for _, x := range op.V.values() {
			parts = append(parts, refText(x))
		}
		return strings.Join(parts, "\n"), true
	case "SS":
		return refText(op.V.value()), true
	case "J", "SJ":
		x := op.V.value()
		var b []byte
		switch y := x.(type) {
		case string:
			b = []byte(y)
		case []byte:
			b = y
		default:
			m, err := json.Marshal(x)
			if err != nil {
				return "", false
			}
			return refJSON(c, m), true
		}
		if !json.Valid(b) {
			return "", false
		}
		return refJSON(c, b), true
	case "Y":
		x := op.V.value()
		switch y := x.(type) {
		case string:
			return y, true
		case []byte:
			return string(y), true
		default:
			b, err := yaml.MarshalWithOptions(x, yaml.Indent(2), yaml.IndentSequence(true))
			return string(b), err == nil
		}
	}
	panic("plan: api " + op.Api)
}

// ---------------------------------------------------------------- configs and matchers

func absDir(d string) string {
	if strings.HasPrefix(d, "/") { // absolute directories of a plan are under the scenario root
		return plan.Root + d
	}
	return d
}

// options with the same value are one option, as of a program that keeps its options in variables
var options = map[string]func(*snaps.Config){}

func option(kind string, v any, mk func() func(*snaps.Config)) func(*snaps.Config) {
	k := fmt.Sprintf("%s %s %v", plan.Root, kind, v)
	if options[k] == nil {
		options[k] = mk()
	}
	return options[k]
}

func optionsOf(c CfgSpec) []func(*snaps.Config) {
	opts := []func(*snaps.Config){}
	if c.Dir != nil {
		opts = append(opts, option("dir", *c.Dir, func() func(*snaps.Config) { return snaps.Dir(absDir(*c.Dir)) }))
	}
	if c.Fn != nil {
		opts = append(opts, option("fn", *c.Fn, func() func(*snaps.Config) { return snaps.Filename(*c.Fn) }))
	}
	if c.Ext != nil {
		opts = append(opts, option("ext", *c.Ext, func() func(*snaps.Config) { return snaps.Ext(*c.Ext) }))
	}
	if c.Upd != nil {
		opts = append(opts, option("upd", *c.Upd, func() func(*snaps.Config) { return snaps.Update(*c.Upd) }))
	}
	if c.HasJSON {
		j := snaps.JSONConfig{SortKeys: !c.NoSort}
		if c.Width != nil {
			j.Width = *c.Width
		}
		if c.Indent != nil {
			j.Indent = *c.Indent
		}
		opts = append(opts, option("json", j, func() func(*snaps.Config) { return snaps.JSON(j) }))
	}
	return opts
}

func buildCfg(i int) *snaps.Config {
	c := plan.Cfgs[i]
	opts := optionsOf(c)
	// some configs override the options of another one
	if o := plan.Cfgs[(i+1)%len(plan.Cfgs)]; i%2 == 1 && !c.Pkg && !o.Pkg &&
		(o.Dir == nil || c.Dir != nil) && (o.Fn == nil || c.Fn != nil) && (o.Ext == nil || c.Ext != nil) && (o.Upd == nil || c.Upd != nil) && (!o.HasJSON || c.HasJSON) {
		opts = append(optionsOf(o), opts...)
	}
	return snaps.WithConfig(opts...)
}

type both interface {
	match.JSONMatcher
	match.YAMLMatcher
}

func callback(m Matcher, i int) match.CustomCallback {
	f := result(m)
	if !plan.Docs {
		return f
	}
	return func(v any) (any, error) {
		arg, _ := goNode(cbApi, v)
		r, err := f(v)
		res := Node{M: []Member{}}
		bad := err != nil
		if !bad {
			var ok bool
			if res, ok = goNode(cbApi, r); !ok {
				bad = true
			}
		}
		cbLog = append(cbLog, cbCall{i, arg, res, bad})
		return r, err
	}
}

func result(m Matcher) match.CustomCallback {
	return func(v any) (any, error) {
		switch m.Cb {
		case "err":
			return nil, errors.New("custom-callback-error")
		case "errval":
			return v, errors.New("custom-callback-error")
		case "erremb":
			return "partial", fmt.Errorf("custom: %w", os.ErrNotExist)
		case "id":
			return v, nil
		case "wrap":
			return map[string]any{"was": v, "n": []any{1, "x"}}, nil
		case "fold", "trim":
			s, ok := v.(string)
			if !ok {
				return []any{v}, nil
			}
			if m.Cb == "fold" {
				return strings.ToUpper(s), nil
			}
			return strings.TrimSpace(s), nil
		case "fmt":
			return fmt.Sprintf("cb<%T>", v), nil
		default:
			if m.Ph == nil {
				return "cb", nil
			}
			return m.Ph.value(), nil
		}
	}
}

func typed[X any](m Matcher) both {
	return match.Type[X](m.Paths...).ErrOnMissingPath(!m.Miss)
}

// a matcher can be kept in a variable and used in many calls
var (
	kept   = map[string]both{}
	keptMu sync.Mutex
	uses   int
)

func buildMatcher(m Matcher, i int) both {
	keptMu.Lock()
	defer keptMu.Unlock()
	b, _ := json.Marshal(m)
	k := fmt.Sprintf("%d %s", i, b)
	if uses++; kept[k] == nil || uses%3 == 0 {
		kept[k] = newMatcher(m, i)
	}
	return kept[k]
}

func newMatcher(m Matcher, i int) both {
	switch m.Kind {
	case "any":
		a := match.Any(m.Paths...).ErrOnMissingPath(!m.Miss)
		if m.Ph != nil {
			a = a.Placeholder(m.Ph.value())
		}
		return a
	case "custom":
		return match.Custom(m.Paths[0], callback(m, i)).ErrOnMissingPath(!m.Miss)
	case "type":
		switch m.Typ {
		case "string":
			return typed[string](m)
		case "float64":
			return typed[float64](m)
		case "bool":
			return typed[bool](m)
		case "map":
			return typed[map[string]any](m)
		case "slice":
			return typed[[]any](m)
		case "uint64":
			return typed[uint64](m)
		case "int":
			return typed[int](m)
		case "any":
			return typed[any](m)
		}
	}
	panic("plan: matcher " + m.Kind + " " + m.Typ)
}

// Call performs one Match* call.
func Call(t T, op Op, c *snaps.Config, cs CfgSpec, in any, ins []any) {
	switch op.Api {
	case "S":
		if cs.Pkg {
			snaps.MatchSnapshot(t, ins...)
		} else {
			c.MatchSnapshot(t, ins...)
		}
	case "SS":
		if cs.Pkg {
			snaps.MatchStandaloneSnapshot(t, in)
		} else {
			c.MatchStandaloneSnapshot(t, in)
		}
	case "J", "SJ":
		ms := []match.JSONMatcher{}
		for i, m := range op.M {
			ms = append(ms, buildMatcher(m, i))
		}
		switch {
		case op.Api == "J" && cs.Pkg:
			snaps.MatchJSON(t, in, ms...)
		case op.Api == "J":
			c.MatchJSON(t, in, ms...)
		case cs.Pkg:
			snaps.MatchStandaloneJSON(t, in, ms...)
		default:
			c.MatchStandaloneJSON(t, in, ms...)
		}
	case "Y":
		ms := []match.YAMLMatcher{}
		for i, m := range op.M {
			ms = append(ms, buildMatcher(m, i))
		}
		if cs.Pkg {
			snaps.MatchYAML(t, in, ms...)
		} else {
			c.MatchYAML(t, in, ms...)
		}
	default:
		panic("plan: api " + op.Api)
	}
}

var esc = regexp.MustCompile("\x1b\\[[0-9;]*m")

func classify(errs, logs []string) (nerr, nadd, nupd, nskip, nother int) {
	nerr = len(errs)
	for _, l := range logs {
		switch x := esc.ReplaceAllString(l, ""); {
		case strings.Contains(x, "Snapshot added"):
			nadd++
		case strings.Contains(x, "Snapshot updated"):
			nupd++
		case strings.Contains(x, "Snapshot skipped"):
			nskip++
		default:
			nother++
		}
	}
	return
}

func clip(s string) string {
	if len(s) > 300 && !plan.Full {
		s = s[:300]
	}
	return EncBytes(s)
}

// shims registered by the *_test.go files: the innermost *_test.go frame decides the snapshot's default file
var Shims = map[string]func(func()){}

// Direct: shims that make the call themselves, in a test file
var Direct = map[string]func(t T, api string, c *snaps.Config, pkg bool, in any, ins []any){}

var reFoot = regexp.MustCompile(`(?m)^at (.+):(\d+)$`)

// foot is the file a failure report points to
func foot(errs []string) string {
	if len(errs) == 0 {
		return ""
	}
	m := reFoot.FindAllStringSubmatch(esc.ReplaceAllString(errs[0], ""), -1)
	if len(m) == 0 {
		return ""
	}
	p := m[len(m)-1][1]
	if !filepath.IsAbs(p) {
		p = filepath.Join(plan.Root, plan.Src, p)
	}
	return EncBytes(virtual(p))
}

var callMu sync.Mutex

var cfgMu sync.Mutex

func cfgOf(i int) *snaps.Config {
	cfgMu.Lock()
	defer cfgMu.Unlock()
	if cfgs[i] == nil {
		cfgs[i] = buildCfg(i)
	}
	return cfgs[i]
}

// perform makes one call on t inside the shim of op.Base and describes it, but for its effect on the disk.
func perform(t T, op Op, rec func() (errs, logs []string)) Event {
	cs := plan.Cfgs[op.Cfg]
	c := cfgOf(op.Cfg)
	ins := op.V.values()
	var in any
	if len(ins) == 1 {
		in = ins[0]
	}
	var before []byte
	if b, ok := in.([]byte); ok {
		before = append([]byte{}, b...)
	}
	pan := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				pan = fmt.Sprint(r)
			}
		}()
		if d := Direct[op.Base]; d != nil {
			d(t, op.Api, c, cs.Pkg, in, ins)
			return
		}
		sh := Shims[op.Base]
		if sh == nil {
			panic("plan: base " + op.Base)
		}
		sh(func() { Call(t, op, c, cs, in, ins) })
	}()
	bufok := true
	if b, ok := in.([]byte); ok {
		bufok = bytes.Equal(b, before)
	}
	errs, logs := rec()
	nerr, nadd, nupd, _, nother := classify(errs, logs)
	txt, valid := "", true
	kind := "val"
	if op.V.K == "none" || (op.V.K == "many" && len(op.V.Vs) == 0) {
		kind = "noop"
	} else if op.Want != nil {
		if op.Want.K == "bad" {
			kind, valid = "bad", false
		} else {
			txt = string(op.Want.bytes())
			if op.Want.K == "json" {
				txt = refJSON(cs, []byte(txt))
			}
		}
	} else {
		txt, valid = want(op, cs)
		if !valid {
			kind = "bad"
		}
	}
	names := true
	if op.Kind == "names" && len(errs) > 0 {
		for _, n := range op.Children { // each child carries a fragment the report must contain
			if !strings.Contains(errs[0], n.Name) {
				names = false
			}
		}
	}
	e0 := ""
	if len(errs) > 0 {
		e0 = clip(errs[0])
	}
	return Event{
		"ev": "match", "t": op.Name, "api": op.Api, "cfg": op.Cfg, "base": strings.Split(op.Base, ":")[0], "kind": kind, "val": Lines(txt),
		"nerr": nerr, "nadd": nadd, "nupd": nupd, "nother": nother, "err": e0, "panic": EncBytes(pan),
		"delta": []Change{}, "touched": []string{}, "newdirs": []string{}, "bufok": bufok, "names": names, "x": op.T, "conc": true, "foot": foot(errs),
	}
}

// DoMatch performs a call with nothing else going on and records it with its effect on the disk.
func DoMatch(t T, op Op, rec func() (errs, logs []string)) {
	callMu.Lock()
	defer callMu.Unlock()
	cbLog, cbApi = nil, op.Api
	var errs []string
	e := perform(t, op, func() ([]string, []string) {
		es, ls := rec()
		errs = es
		return es, ls
	})
	e["delta"], e["touched"], e["newdirs"] = Diff()
	e["conc"] = false
	if plan.Docs {
		docFields(e, op, plan.Cfgs[op.Cfg], errs)
	}
	emit(e)
}

func quiet(e Event) Event {
	e["delta"], e["touched"], e["newdirs"] = []Change{}, []string{}, []string{}
	e["conc"] = true
	return e
}

func doSkip(f *FakeT, op Op) Event {
	ne, nl := len(f.errs), len(f.logs)
	sk := func() {
		switch op.Kind {
		case "Skip":
			snaps.Skip(f, "why")
		case "Skipf":
			snaps.Skipf(f, "why %d", 1)
		default:
			snaps.SkipNow(f)
		}
	}
	if sh := Shims[op.Base]; sh != nil {
		sh(sk)
	} else {
		sk()
	}
	nerr, _, _, _, _ := classify(f.errs[ne:], f.logs[nl:])
	e := Event{"ev": "skip", "t": f.name, "nskip": f.nskip, "nerr": nerr, "x": op.T}
	f.nskip = 0
	return e
}

// Exec runs one test execution in the calling goroutine, others may be running.
func Exec(op Op, out func(Event)) {
	f := &FakeT{name: op.Name}
	for _, c := range op.Children {
		c.Name = f.name
		switch c.Op {
		case "match":
			ne, nl := len(f.errs), len(f.logs)
			out(perform(f, c, func() ([]string, []string) { return f.errs[ne:], f.logs[nl:] }))
		case "skip":
			out(quiet(doSkip(f, c)))
		}
	}
	f.RunCleanups()
	out(quiet(Event{"ev": "end", "t": f.name, "x": op.T}))
}

func settle() Event {
	e := Event{"ev": "settle"}
	e["delta"], e["touched"], e["newdirs"] = Diff()
	return e
}

// RunScript executes a linear script with fake testing objects.
func RunScript() {
	ts := map[string]*FakeT{}
	for _, op := range plan.Ops {
		op := op
		if op.Chdir != "" {
			os.Chdir(absDir(op.Chdir))
		}
		switch op.Op {
		case "begin":
			ts[op.T] = &FakeT{name: op.Name}
		case "match":
			f := ts[op.T]
			op.Name = f.name
			do := func() {
				ne, nl := len(f.errs), len(f.logs)
				DoMatch(f, op, func() ([]string, []string) { return f.errs[ne:], f.logs[nl:] })
			}
			if op.Defer {
				f.Cleanup(do)
			} else {
				do()
			}
		case "end":
			f := ts[op.T]
			f.RunCleanups()
			d, t, n := Diff()
			emit(Event{"ev": "end", "conc": false, "t": f.name, "delta": d, "touched": t, "newdirs": n, "x": op.T})
		case "skip":
			e := doSkip(ts[op.T], op)
			e["delta"], e["touched"], e["newdirs"] = Diff()
			e["conc"] = false
			emit(e)
		case "group": // executions that run concurrently
			var wg sync.WaitGroup
			gate := make(chan struct{})
			for _, x := range op.Children {
				x := x
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-gate
					Exec(x, emit)
				}()
			}
			close(gate)
			wg.Wait()
			emit(settle())
		case "clean":
			// handled by the main function after the run
		default:
			panic("plan: op " + op.Op)
		}
	}
}

// ---------------------------------------------------------------- clean

var (
	reEvent = regexp.MustCompile(`^\S+ (\d+) snapshots? (passed|failed|added|updated|skipped)$`)
	reList  = regexp.MustCompile(`^\S+ (\d+) snapshot (files?|tests?) (obsolete|removed)$`)
)

// virtual names a path relative to the scenario root, written as if the root were "/".
func virtual(p string) string {
	if !filepath.IsAbs(p) {
		wd, _ := os.Getwd()
		p = filepath.Join(wd, p)
	}
	if rel, err := filepath.Rel(plan.Root, p); err == nil && !strings.HasPrefix(rel, "..") {
		return "/" + rel
	}
	return "OUTSIDE:" + p
}

// ParseSummary reads the text printed by Clean.
func ParseSummary(out string) Event {
	sum := map[string]int{"passed": 0, "failed": 0, "added": 0, "updated": 0, "skipped": 0}
	files, tests := []string{}, []string{}
	nf, nt, verb, cur := 0, 0, "", ""
	shown, stray := false, []string{}
	for _, l := range strings.Split(esc.ReplaceAllString(out, ""), "\n") {
		l = strings.TrimRight(l, " ")
		if l == "Snapshot Summary" {
			shown = true
			continue
		}
		if m := reEvent.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			sum[m[2]] += n
			continue
		}
		if m := reList.FindStringSubmatch(l); m != nil {
			n, _ := strconv.Atoi(m[1])
			cur = m[2][:4]
			if verb == "" || verb == m[3] {
				verb = m[3]
			} else {
				verb = "mixed"
			}
			if cur == "file" {
				nf += n
			} else {
				nt += n
			}
			continue
		}
		if i := strings.Index(l, "• "); i >= 0 && cur != "" {
			item := l[i+len("• "):]
			if cur == "file" {
				files = append(files, EncBytes(virtual(item)))
			} else {
				tests = append(tests, EncBytes(item))
			}
			continue
		}
		if strings.TrimSpace(l) != "" && !strings.HasPrefix(strings.TrimSpace(l), "To remove") {
			stray = append(stray, clip(l))
		}
	}
	sort.Strings(files)
	sort.Strings(tests)
	return Event{"sum": sum, "files": files, "tests": tests, "nfiles": nf, "ntests": nt, "verb": verb, "shown": shown, "stray": stray}
}
