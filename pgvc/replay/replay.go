// Package replay runs the generated validators, compiled by the Go compiler,
// on concrete messages and compares what they do with the specification.
package replay

import (
	"bytes"
	_ "embed"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"

	"pgvc/gen"
	"pgvc/model"
	"pgvc/spec"
)

//go:embed harness.go.txt
var harness string

// R replays messages of a world.
type R struct {
	W     *gen.World
	bin   string
	specs map[*protogen.Message]*spec.Msg
	build func(*protogen.Message) *spec.Msg // another specification
	valid func(*protogen.Message) bool
}

// New builds the harness in the world.
func New(w *gen.World) (*R, error) {
	imp := ""
	for _, p := range w.Packages() {
		imp += fmt.Sprintf("\t_ %q\n", p)
	}
	d := filepath.Join(w.Dir, "replaymain")
	if err := os.MkdirAll(d, 0o755); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(d, "main.go"), []byte(strings.Replace(harness, "//IMPORTS\n", imp, 1)), 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(w.Dir, "replay.bin")
	if _, se, err := w.E.Go(w.Dir, "build", "-mod=mod", "-o", bin, "./replaymain"); err != nil {
		return nil, fmt.Errorf("replay harness: %v\n%s", err, se)
	}
	return &R{W: w, bin: bin, specs: map[*protogen.Message]*spec.Msg{}}, nil
}

// Spec is the specification of a message.
func (r *R) Spec(m *protogen.Message) *spec.Msg {
	if s, ok := r.specs[m]; ok {
		return s
	}
	s := r.specOf(m)
	r.specs[m] = s
	return s
}

// Valid is the specification's verdict on an embedded message.
func (r *R) Valid(now *big.Int) func(*model.Inst) bool {
	var f func(i *model.Inst) bool
	f = func(i *model.Inst) bool {
		if i == nil || i.Nil || i.MD == nil {
			return true
		}
		for _, m := range r.W.GoMsg {
			if m.Desc.FullName() == i.MD.FullName() {
				if !r.isValidated(m) {
					return true
				}
				h, err := r.Spec(m).Concrete(i, now, f)
				return err == nil && len(h) == 0
			}
		}
		return true
	}
	return f
}

// E is an error as its accessors describe it.
type E struct {
	F, R, T, N S
	K          bool
	C          S
	HasC       bool
	OK         bool
}

// Res is what validation did.
type Res struct {
	Panic  string
	Hang   bool
	T0, T1 string
	V      *E
	VNil   bool
	A      []E
	ANil   bool
	Multi  bool
	AT     S
}

// S is a text with arbitrary bytes.
type S string

func (s *S) UnmarshalJSON(b []byte) error {
	var x []byte
	if err := json.Unmarshal(b, &x); err != nil {
		return err
	}
	*s = S(x)
	return nil
}

func enc(fd model.FD, v any) any {
	switch x := v.(type) {
	case *model.Inst:
		return encInst(x)
	case bool:
		return x
	case *big.Int:
		return x.String()
	case string:
		return base64.StdEncoding.EncodeToString([]byte(x))
	case float32:
		return fmt.Sprint(math.Float32bits(x))
	case float64:
		return fmt.Sprint(math.Float64bits(x))
	}
	panic(fmt.Sprintf("enc %T", v))
}

func encInst(i *model.Inst) any {
	if i.Nil {
		return map[string]any{"nil": true}
	}
	f := map[string]any{}
	for n, v := range i.F {
		fd := i.MD.Fields().ByName(n)
		switch x := v.(type) {
		case []any:
			l := []any{}
			for _, e := range x {
				l = append(l, enc(fd, e))
			}
			f[string(n)] = l
		case []model.KV:
			l := []any{}
			for _, kv := range x {
				l = append(l, []any{enc(fd.MapKey(), kv.K), enc(fd.MapValue(), kv.V)})
			}
			f[string(n)] = l
		default:
			f[string(n)] = enc(fd, x)
		}
	}
	return map[string]any{"f": f}
}

// Show writes an instance for people.
func Show(v any) any {
	switch x := v.(type) {
	case *model.Inst:
		if x.Nil {
			return nil
		}
		f := map[string]any{}
		for n, v := range x.F {
			f[string(n)] = Show(v)
		}
		return f
	case []any:
		l := []any{}
		for _, e := range x {
			l = append(l, Show(e))
		}
		return l
	case []model.KV:
		l := []any{}
		for _, kv := range x {
			l = append(l, []any{Show(kv.K), Show(kv.V)})
		}
		return l
	case string:
		return fmt.Sprintf("%q", x)
	case *big.Int:
		return x.String()
	case float32, float64:
		return fmt.Sprint(x)
	}
	return v
}

// Job is one message to validate.
type Job struct {
	M *protogen.Message
	I *model.Inst
}

// Run validates the messages with the real generated code.
func (r *R) Run(jobs []Job) ([]Res, error) {
	var in bytes.Buffer
	e := json.NewEncoder(&in)
	for _, j := range jobs {
		if err := e.Encode(map[string]any{"m": string(j.M.Desc.FullName()), "i": encInst(j.I)}); err != nil {
			return nil, err
		}
	}
	c := exec.Command("timeout", "-k", "5", "300", r.bin)
	c.Stdin = &in
	var out, se bytes.Buffer
	c.Stdout, c.Stderr = &out, &se
	c.Env = append(os.Environ(), "GOLANG_PROTOBUF_REGISTRATION_CONFLICT=warn", "GOMEMLIMIT=4GiB")
	err := c.Run()
	var rs []Res
	dec := json.NewDecoder(&out)
	for dec.More() {
		var x Res
		if derr := dec.Decode(&x); derr != nil {
			break
		}
		rs = append(rs, x)
	}
	if err != nil && len(rs) == 0 {
		return nil, fmt.Errorf("replay: %v\n%s", err, tail(se.String(), 2000))
	}
	if len(rs) < len(jobs) {
		return rs, fmt.Errorf("replay stopped after %d of %d messages: %v\n%s", len(rs), len(jobs), err, tail(se.String(), 2000))
	}
	return rs, nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// Mismatch is a difference between the code and the specification.
type Mismatch struct {
	Kind  string // accept, agree, order, count, attr, safety
	Field string
	Text  string
	Inst  any
	Enc   any
	Msg   string
	Got   Res
	Want  []string
}

func fieldOf(s string) string {
	if i := strings.IndexByte(s, '['); i >= 0 {
		return s[:i]
	}
	return s
}

func idxText(v any) string {
	if b, ok := v.(*big.Int); ok {
		return b.String()
	}
	return fmt.Sprint(v)
}

type want struct {
	place string
	key   bool
	cause string
	rule  string
	field string
}

func wants(hs []spec.Hit) []want {
	var out []want
	for _, h := range hs {
		w := want{field: h.V.Field, place: h.V.Field, key: h.V.Key, cause: h.V.Cause, rule: h.V.Rule}
		if h.I >= 0 {
			w.place = fmt.Sprintf("%s[%s]", h.V.Field, idxText(h.Idx))
		}
		out = append(out, w)
	}
	return out
}

func sig(ws []want) string {
	var s []string
	for _, w := range ws {
		s = append(s, fmt.Sprintf("%s|%v|%s", w.place, w.key, w.rule))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// Compare runs the jobs and lists every difference.
func (r *R) Compare(jobs []Job) ([]Mismatch, error) {
	rs, err := r.Run(jobs)
	var out []Mismatch
	if err != nil && len(rs) == 0 {
		return nil, err
	}
	if err != nil {
		j := jobs[len(rs)]
		out = append(out, Mismatch{Kind: "safety", Msg: j.M.GoIdent.GoName, Inst: Show(j.I), Enc: encInst(j.I), Text: err.Error()})
		jobs = jobs[:len(rs)]
	}
	for k, j := range jobs {
		out = append(out, r.compare(j, rs[k])...)
	}
	return out, nil
}

func (r *R) compare(j Job, g Res) (out []Mismatch) {
	add := func(kind, field, text string, ws []want) {
		m := Mismatch{Kind: kind, Field: field, Text: text, Inst: Show(j.I), Enc: encInst(j.I), Msg: j.M.GoIdent.GoName, Got: g}
		for _, w := range ws {
			m.Want = append(m.Want, fmt.Sprintf("%s (%s, key=%v)", w.place, w.rule, w.key))
		}
		out = append(out, m)
	}
	if g.Hang {
		add("safety", "", "validation did not return within 10s", nil)
		return
	}
	if g.Panic != "" {
		add("safety", "", "panic: "+g.Panic, nil)
		return
	}
	t0, _ := new(big.Int).SetString(g.T0, 10)
	t1, _ := new(big.Int).SetString(g.T1, 10)
	s := r.Spec(j.M)
	h0, e0 := s.Concrete(j.I, t0, r.Valid(t0))
	h1, e1 := s.Concrete(j.I, t1, r.Valid(t1))
	if e0 != nil || e1 != nil {
		return
	}
	ws := wants(h0)
	if sig(ws) != sig(wants(h1)) {
		return
	}
	if g.ANil && !g.VNil || g.VNil && !g.ANil {
		add("agree", "", fmt.Sprintf("Validate nil=%v, ValidateAll nil=%v", g.VNil, g.ANil), ws)
	}
	if !g.ANil && (!g.Multi || len(g.A) == 0) {
		add("agree", "", "ValidateAll returned an error that is not a multi-error with its list and joined text", ws)
	}
	// acceptance, by place (field and bracketed index)
	cnt := map[string]int{}
	field := map[string]string{}
	for _, w := range ws {
		cnt[w.place]++
		field[w.place] = w.field
	}
	got := map[string]int{}
	for _, e := range g.A {
		got[string(e.F)]++
		if !e.OK {
			add("attr", string(e.F), "an error without accessors: "+string(e.T), ws)
		}
	}
	bad := map[string]bool{}
	for p := range cnt {
		if got[p] == 0 {
			add("accept", field[p], "ValidateAll does not report "+p, ws)
			bad[field[p]] = true
		}
	}
	for p := range got {
		if cnt[p] == 0 {
			add("accept", fieldOf(p), "ValidateAll reports "+p+" though no constraint is broken there", ws)
			bad[fieldOf(p)] = true
		} else if got[p] != cnt[p] {
			add("count", field[p], fmt.Sprintf("ValidateAll lists %d errors at %s for %d broken constraints", got[p], p, cnt[p]), ws)
		}
	}
	if g.VNil && len(ws) > 0 {
		add("accept", ws[0].field, "Validate returns nil though "+ws[0].place+" breaks "+ws[0].rule, ws)
		bad[ws[0].field] = true
	}
	if g.V != nil {
		vf := string(g.V.F)
		if cnt[vf] == 0 {
			add("accept", fieldOf(vf), "Validate reports "+vf+" though no constraint is broken there", ws)
			bad[fieldOf(vf)] = true
		}
		if !multiMap(j.I) && len(g.A) > 0 {
			a := g.A[0]
			if a.F != g.V.F || a.K != g.V.K || a.R != g.V.R {
				add("order", fieldOf(vf), fmt.Sprintf("Validate reports %s (%s), ValidateAll lists %s (%s) first", g.V.F, g.V.R, a.F, a.R), ws)
			}
		}
	}
	es := append([]E{}, g.A...)
	if g.V != nil {
		es = append(es, *g.V)
	}
	for _, e := range es {
		if !e.OK {
			continue
		}
		ef := string(e.F)
		f := fieldOf(ef)
		if e.R == "" {
			add("attr", f, "empty reason", ws)
		}
		for what, t := range map[string]string{"the message name": j.M.GoIdent.GoName, "the field": ef, "the reason": string(e.R), "the cause": string(e.C)} {
			if !strings.Contains(string(e.T), t) {
				add("attr", f, fmt.Sprintf("Error() %q lacks %s %q", e.T, what, t), ws)
			}
		}
		if cnt[ef] == 0 {
			// names a place where nothing is broken
			if !bad[f] || true {
				add("attr", f, "an error names "+ef+" where no constraint is broken", ws)
			}
			continue
		}
		key, cause := false, false
		for _, w := range ws {
			if w.place != ef {
				continue
			}
			if w.key == e.K {
				key = true
				if w.cause == "format" || (w.cause == "embedded") == e.HasC {
					cause = true
				}
			}
		}
		if !key {
			add("attr", f, fmt.Sprintf("key flag %v at %s (%s)", e.K, e.F, e.R), ws)
		} else if !cause {
			add("attr", f, fmt.Sprintf("cause present=%v at %s (%s)", e.HasC, e.F, e.R), ws)
		}
	}
	return
}

func multiMap(i *model.Inst) bool {
	for _, v := range i.F {
		switch x := v.(type) {
		case []model.KV:
			if len(x) > 1 {
				return true
			}
		case *model.Inst:
			if multiMap(x) {
				return true
			}
		case []any:
			for _, e := range x {
				if m, ok := e.(*model.Inst); ok && multiMap(m) {
					return true
				}
			}
		}
	}
	return false
}

// Raw runs one encoded message and returns what the validator printed.
func (r *R) Raw(msg string, inst json.RawMessage) (string, error) {
	b, _ := json.Marshal(map[string]any{"m": msg, "i": inst})
	c := exec.Command("timeout", "60", r.bin)
	c.Stdin = bytes.NewReader(b)
	c.Env = append(os.Environ(), "GOLANG_PROTOBUF_REGISTRATION_CONFLICT=warn")
	out, err := c.Output()
	var x Res
	if json.Unmarshal(out, &x) == nil {
		b, _ = json.MarshalIndent(x, "", " ")
		return string(b), err
	}
	return string(out), err
}
