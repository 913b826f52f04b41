package verifdrv

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/goccy/go-yaml"
)

// Node is a document as Docs.tla sees it.
type Node struct {
	K string   `json:"k"`
	V string   `json:"v"`
	R string   `json:"r"`
	G string   `json:"g"`
	M []Member `json:"m"`
}

type Member struct {
	N  string `json:"n"`
	RN string `json:"rn"`
	C  Node   `json:"c"`
}

// normal form of a decimal literal
func normNum(s string) string {
	l := strings.ToLower(s)
	neg := strings.HasPrefix(l, "-")
	l = strings.TrimLeft(l, "+-")
	exp := big.NewInt(0)
	if i := strings.IndexByte(l, 'e'); i >= 0 {
		if _, ok := exp.SetString(strings.TrimPrefix(l[i+1:], "+"), 10); !ok {
			return s
		}
		l = l[:i]
	}
	if i := strings.IndexByte(l, '.'); i >= 0 {
		exp.Sub(exp, big.NewInt(int64(len(l)-i-1)))
		l = l[:i] + l[i+1:]
	}
	l = strings.TrimLeft(l, "0")
	t := strings.TrimRight(l, "0")
	if t == "" {
		return "0"
	}
	exp.Add(exp, big.NewInt(int64(len(l)-len(t))))
	if neg {
		t = "-" + t
	}
	return t + "e" + exp.String()
}

// jsonNode parses one JSON document, keeping the literals of its scalars.
func jsonNode(b []byte) (n Node, err error) {
	if !json.Valid(b) {
		return Node{}, errors.New("invalid json")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	tok := func() (json.Token, string, error) {
		from := d.InputOffset()
		t, err := d.Token()
		return t, strings.Trim(string(b[from:d.InputOffset()]), " \t\r\n,:"), err
	}
	var value func(t json.Token, raw string) (Node, error)
	value = func(t json.Token, raw string) (Node, error) {
		n := Node{M: []Member{}, R: EncBytes(raw)}
		switch x := t.(type) {
		case json.Delim:
			n.R = ""
			if x == '{' {
				n.K, n.G = "obj", "map[string]interface {}"
				for d.More() {
					k, rk, err := tok()
					if err != nil {
						return n, err
					}
					t, raw, err := tok()
					if err != nil {
						return n, err
					}
					c, err := value(t, raw)
					if err != nil {
						return n, err
					}
					n.M = append(n.M, Member{EncBytes(k.(string)), EncBytes(rk), c})
				}
			} else {
				n.K, n.G = "arr", "[]interface {}"
				for d.More() {
					t, raw, err := tok()
					if err != nil {
						return n, err
					}
					c, err := value(t, raw)
					if err != nil {
						return n, err
					}
					n.M = append(n.M, Member{C: c})
				}
			}
			_, err := d.Token()
			return n, err
		case string:
			n.K, n.V, n.G = "str", EncBytes(x), "string"
		case json.Number:
			n.K, n.V, n.G = "num", normNum(string(x)), "float64"
		case bool:
			n.K, n.V, n.G = "lit", fmt.Sprint(x), "bool"
		case nil:
			n.K, n.V, n.G = "lit", "null", "<nil>"
		}
		return n, nil
	}
	t, raw, err := tok()
	if err != nil {
		return n, err
	}
	return value(t, raw)
}

func yamlValue(x any) Node {
	n := Node{M: []Member{}}
	switch y := x.(type) {
	case yaml.MapSlice:
		n.K, n.G = "obj", "map[string]interface {}"
		for _, it := range y {
			k := fmt.Sprint(it.Key)
			if _, ok := it.Key.(string); !ok {
				k = fmt.Sprintf("%T:%v", it.Key, it.Key)
			}
			n.M = append(n.M, Member{EncBytes(k), EncBytes(k), yamlValue(it.Value)})
		}
	case map[string]any:
		n.K, n.G = "obj", "map[string]interface {}"
		ks := []string{}
		for k := range y {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n.M = append(n.M, Member{EncBytes(k), EncBytes(k), yamlValue(y[k])})
		}
	case []any:
		n.K, n.G = "arr", "[]interface {}"
		for _, e := range y {
			n.M = append(n.M, Member{C: yamlValue(e)})
		}
	case string:
		n.K, n.V, n.G = "str", EncBytes(y), "string"
	case nil:
		n.K, n.V, n.G = "lit", "null", "<nil>"
	case bool:
		n.K, n.V, n.G = "lit", fmt.Sprint(y), "bool"
	case float64:
		n.K, n.V, n.G = "num", "f"+normNum(strconv.FormatFloat(y, 'g', -1, 64)), "float64"
	default:
		n.K, n.V, n.G = "num", normNum(fmt.Sprint(y)), fmt.Sprintf("%T", y)
	}
	n.R = n.V
	return n
}

// yamlNodes parses the documents of a YAML text.
func yamlNodes(b []byte) (out []Node, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	out = []Node{}
	d := yaml.NewDecoder(bytes.NewReader(b), yaml.UseOrderedMap())
	for {
		var x any
		err := d.Decode(&x)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		out = append(out, yamlValue(x))
	}
}

func nodesOf(api string, b []byte) ([]Node, error) {
	if api == "Y" {
		return yamlNodes(b)
	}
	n, err := jsonNode(b)
	if err != nil {
		return nil, err
	}
	return []Node{n}, nil
}

// goNode is a Go value as the encoder of the format writes it.
func goNode(api string, x any) (Node, bool) {
	var b []byte
	var err error
	if s, ok := x.(string); ok && api == "Y" {
		return yamlValue(s), true
	}
	if api == "Y" {
		b, err = yaml.MarshalWithOptions([]any{x}, yaml.JSON())
	} else {
		b, err = json.Marshal(x)
	}
	if err != nil {
		return Node{M: []Member{}}, false
	}
	ns, err := nodesOf(api, b)
	if err != nil || len(ns) != 1 {
		return Node{M: []Member{}}, false
	}
	if api == "Y" {
		return own(ns[0].M[0].C), true
	}
	return own(ns[0]), true
}

// own: how a fraction that comes from a Go value is written is up to go-snaps (1e-7 or 0.0000001)
func own(n Node) Node {
	if n.K == "num" && strings.ContainsAny(n.R, ".eE") {
		n.R = "go " + n.V
	}
	for i := range n.M {
		n.M[i].C = own(n.M[i].C)
	}
	return n
}

// callbacks made during a call
type cbCall struct {
	M   int  `json:"-"`
	Arg Node `json:"arg"`
	Res Node `json:"res"`
	Err bool `json:"err"`
}

var (
	cbLog []cbCall
	cbApi string
)

type docPath struct {
	P string    `json:"p"`
	S []docStep `json:"s"`
}

type docStep struct {
	T string `json:"t"`
	S string `json:"s"`
	I int    `json:"i"`
}

func steps(m Matcher, i int) docPath {
	p := docPath{P: EncBytes(m.Paths[i]), S: []docStep{}}
	for _, s := range m.Segs[i] {
		st := docStep{T: s.T, S: EncBytes(s.S), I: 1 << 20}
		if n, err := strconv.Atoi(s.S); err == nil && s.T != "key" && n >= 0 && strconv.Itoa(n) == s.S {
			st.I = n
		}
		p.S = append(p.S, st)
	}
	return p
}

var typeNames = map[string]string{"string": "string", "float64": "float64", "bool": "bool", "map": "map[string]interface {}", "slice": "[]interface {}", "uint64": "uint64", "int": "int", "any": "interface {}"}

func named(errs []string, kind, path string) bool {
	re := regexp.MustCompile(`(?i)\b` + kind + `\b`)
	for _, e := range errs {
		for _, l := range strings.Split(esc.ReplaceAllString(e, ""), "\n") {
			if !re.MatchString(l) {
				continue
			}
			for i := 0; ; {
				j := strings.Index(l[i:], path)
				if j < 0 {
					break
				}
				a, b := i+j, i+j+len(path)
				free := func(c byte) bool {
					return !(c == '.' || c == '\\' || c == '_' || c == '$' || c == '[' || c == '-' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80)
				}
				if (a == 0 || free(l[a-1])) && (b == len(l) || free(l[b]) || l[b] == '.' && (b+1 == len(l) || l[b+1] == ' ')) {
					return true
				}
				i = a + 1
			}
		}
	}
	return false
}

// docFields adds to the event of a call what DocsTrace needs.
func docFields(e Event, op Op, cs CfgSpec, errs []string) {
	var in []byte
	valid := true
	raw := true
	switch x := op.V.value().(type) {
	case string:
		in = []byte(x)
	case []byte:
		in = op.V.value().([]byte)
	default:
		raw = false
		var err error
		if op.Api == "Y" {
			in, err = yaml.MarshalWithOptions(x, yaml.Indent(2), yaml.IndentSequence(true))
		} else {
			in, err = json.Marshal(x)
		}
		valid = err == nil
	}
	var ds []Node
	if valid {
		var err error
		ds, err = nodesOf(op.Api, in)
		valid = err == nil
		if op.Api == "Y" && raw {
			var x any
			valid = yaml.Unmarshal(in, &x) == nil && valid
		}
	}
	if !valid {
		ds = []Node{}
	}
	ms := []map[string]any{}
	nm := [][2]string{}
	applies := false
	for i, m := range op.M {
		ps := []docPath{}
		for j := range m.Paths {
			ps = append(ps, steps(m, j))
			if named(errs, m.Kind, m.Paths[j]) {
				nm = append(nm, [2]string{m.Kind, EncBytes(m.Paths[j])})
			}
			for _, d := range ds {
				applies = applies || find(d, ps[j].S)
			}
		}
		ph, phok := Node{M: []Member{}}, true
		if m.Kind == "any" {
			var v any = "<Any value>"
			if m.Ph != nil {
				v = m.Ph.value()
			}
			ph, phok = goNode(op.Api, v)
		}
		cb := []cbCall{}
		for _, c := range cbLog {
			if c.M == i {
				cb = append(cb, c)
			}
		}
		ms = append(ms, map[string]any{"kind": m.Kind, "paths": ps, "miss": m.Miss, "typ": typeNames[m.Typ], "ph": ph, "phok": phok, "cb": cb})
	}
	e["valid"], e["ds"], e["ms"], e["named"] = valid, ds, ms, nm
	e["ord"] = op.Api == "Y" || cs.HasJSON && cs.NoSort
	e["fam"], e["verb"] = "", false
	e["text"] = Lines(string(in))
	if op.Api == "Y" {
		e["fam"] = op.Fam
		if !applies {
			e["fam"] = "text " + strings.Join(Lines(string(in)), "%0a")
			e["verb"] = raw
		}
	}
	f := []any{cs.HasJSON, cs.NoSort}
	if cs.Width != nil {
		f = append(f, *cs.Width)
	}
	if cs.Indent != nil {
		f = append(f, *cs.Indent)
	}
	e["fmt"] = EncBytes(fmt.Sprintf("%q", f))
	e["us"] = EncBytes(strings.ReplaceAll(op.Name, "/", "_"))
	e["slots"] = slotChanges(op.Api)
	delete(e, "val")
	delete(e, "delta")
	delete(e, "kind")
}

func find(n Node, s []docStep) bool {
	if len(s) == 0 {
		return true
	}
	switch {
	case s[0].T == "odd":
		return false
	case s[0].T == "all":
		for _, m := range n.M {
			if n.K == "arr" && find(m.C, s[1:]) {
				return true
			}
		}
	case n.K == "obj" && s[0].T != "idx":
		for _, m := range n.M {
			if m.N == s[0].S {
				return find(m.C, s[1:])
			}
		}
	case n.K == "arr" && s[0].T != "key" && s[0].I < len(n.M):
		return find(n.M[s[0].I].C, s[1:])
	}
	return false
}

type slotChange struct {
	Key  string   `json:"key"`
	Del  bool     `json:"del"`
	Ok   bool     `json:"ok"`
	Ds   []Node   `json:"ds"`
	Text []string `json:"text"`
}

var (
	slotTexts = map[string]string{}
	reHead    = regexp.MustCompile(`^\[.+ - \d+\]$`)
)

// slotsNow: every slot on the disk with its text
func slotsNow() map[string]string {
	out := map[string]string{}
	for p, s := range known {
		if s.dir {
			continue
		}
		if filepath.Base(p) != "a_test.snap" {
			out["/"+p] = string(s.data)
			continue
		}
		ls := strings.Split(string(s.data), "\n")
		for i := 0; i < len(ls); i++ {
			if !reHead.MatchString(ls[i]) {
				if ls[i] != "" {
					out["stray "+ls[i]] = ""
				}
				continue
			}
			j := i + 1
			body := []string{}
			for j < len(ls) && ls[j] != "---" {
				l := ls[j]
				if l == "/-/-/-/" {
					l = "---"
				} else if strings.HasSuffix(l, "-/-/-/") && len(l) > 6 && strings.Trim(l[:len(l)-6], "/") == "" {
					l = l[1:]
				}
				body = append(body, l)
				j++
			}
			k := ls[i]
			for _, dup := out[k]; dup; _, dup = out[k] {
				k += " again"
			}
			out[k] = strings.Join(body, "\n")
			i = j
		}
	}
	return out
}

func slotChanges(api string) []slotChange {
	now := slotsNow()
	out := []slotChange{}
	for k, t := range now {
		if o, ok := slotTexts[k]; ok && o == t {
			continue
		}
		ns, err := nodesOf(api, []byte(t))
		if err != nil {
			ns = []Node{}
		}
		out = append(out, slotChange{Key: EncBytes(k), Ok: err == nil, Ds: ns, Text: Lines(t)})
	}
	for k := range slotTexts {
		if _, ok := now[k]; !ok {
			out = append(out, slotChange{Key: EncBytes(k), Del: true, Ds: []Node{}, Text: []string{}})
		}
	}
	slotTexts = now
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}
