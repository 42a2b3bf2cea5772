package check

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/compiler/protogen"

	"pgvc/corpus"
	"pgvc/gen"
	"pgvc/govc"
	"pgvc/plug"
	"pgvc/replay"
	"pgvc/smt"
	"pgvc/spec"
)

// goSel says which obligations on generated Go code decide a property.
type goSel struct {
	groups []string
	kinds  string // space separated
}

var goProps = map[string]goSel{
	"C04": {[]string{"numeric"}, "accept"},
	"C05": {[]string{"string"}, "accept"},
	"C06": {[]string{"known"}, "accept"},
	"C07": {[]string{"bytes"}, "accept"},
	"C08": {[]string{"boolenum"}, "accept"},
	"C09": {[]string{"repeated"}, "accept count"},
	"C10": {[]string{"map"}, "accept count"},
	"C11": {[]string{"message"}, "accept"},
	"C12": {[]string{"oneof"}, "accept"},
	"C13": {[]string{"wrapper"}, "accept"},
	"C14": {[]string{"wkt"}, "accept"},
}

var allGroups = []string{"numeric", "string", "known", "bytes", "boolenum", "repeated", "map", "message", "oneof", "wrapper", "wkt"}

func init() {
	for id, s := range goProps {
		s.groups = append(append([]string{}, s.groups...), "placed"+id, "mix")
		goProps[id] = s
	}
	allGroups := append(append([]string{}, allGroups...), "compile", "mix")
	goProps["C15"] = goSel{allGroups, "agree order count"}
	goProps["C16"] = goSel{allGroups, "attr"}
	goProps["C17"] = goSel{allGroups, "safety"}
	goProps["C18"] = goSel{[]string{"heads", "compile", "mix"}, "accept"}
	for id, s := range goProps {
		s := s
		Checks[id] = func(c *Ctx) error { return goCheck(c, s) }
	}
}

func goCheck(c *Ctx, s goSel) error {
	c.Trust("the Go type checker and the lowering of typed Go syntax to the verifier's language (pgvc/gofe)",
		"the verification condition generator (pgvc/sym, pgvc/govc) and the axioms of its theory of strings (pgvc/model)",
		"the specification written from the documentation (pgvc/spec)",
		"z3 4.8.12, cvc5 1.1.2",
		"protoc and protoc-gen-go: descriptors and message types",
		"Go machine integers are bounded by their types; operations that could leave the range are obligations or wrapped")
	c.Assume["rule sets: proved for every message value, for each generated validator of the corpus; rule sets outside the corpus are not covered"] = true
	c.Assume["sharing: the message is not changed by another goroutine during validation"] = true
	c.Assume["a oneof interface holds nil or a non-nil member wrapper"] = true
	kinds := map[string]bool{}
	for _, k := range strings.Fields(s.kinds) {
		kinds[k] = true
	}
	progs := 0
	for _, g := range s.groups {
		n, err := goGroup(c, g, kinds)
		if err != nil {
			return fmt.Errorf("%s: %w", g, err)
		}
		progs += n
	}
	if err := goFns(c); err != nil {
		return err
	}
	c.Cov["programs"] = progs
	c.Cov["disagreements_checked"] = c.CrossRuns
	c.Cov["explanation"] = "programs: generated validators whose obligations were sent to the solvers; disagreements_checked: concrete messages on which the real validator was compared with the specification"
	return nil
}

// goFns decides the contracts of the functions the templates call.
func goFns(c *Ctx) error {
	p, err := plug.New(c.Env)
	if err != nil {
		return err
	}
	p.VerifyFns(c.Env)
	found := false
	for _, v := range c.Viols {
		found = found || !v.NoInput && !c.isKnown(v.Key)
	}
	return plugProve(c, p, found, "(the corpus only)")
}

// budget bounds the time the solvers get in one check.
const budget = 700 * time.Second

func source(w *gen.World, m *protogen.Message) string {
	for _, f := range w.Files {
		if f.Name+".proto" == m.Desc.ParentFile().Path() {
			if i := strings.Index(f.Body, "message "+string(m.Desc.Name())+" {"); i >= 0 {
				b := f.Body[i:]
				d := 0
				for k, ch := range b {
					if ch == '{' {
						d++
					}
					if ch == '}' {
						if d--; d == 0 {
							return b[:k+1]
						}
					}
				}
			}
		}
	}
	return ""
}

// fieldRule finds the declaration of a field in the message source.
func fieldRule(w *gen.World, m *protogen.Message, goName string) string {
	for _, f := range m.Fields {
		if f.GoName == goName {
			for _, l := range strings.Split(source(w, m), "\n") {
				if strings.Contains(l, " "+string(f.Desc.Name())+" = ") {
					return strings.TrimSpace(l)
				}
			}
		}
	}
	return goName
}

// groupFiles are the files of a group; "mix" is random.
func groupFiles(c *Ctx, group string) ([]gen.File, error) {
	if group != "mix" {
		return corpus.Groups[group](c.Deep()), nil
	}
	p, err := plug.New(c.Env)
	if err != nil {
		return nil, err
	}
	n := 150
	if c.Prop == "C06" { // its candidates are many
		n = 80
	}
	if c.Deep() {
		n *= 6
	}
	return p.Mix(c.Prop, c.Seed, n)
}

func goGroup(c *Ctx, group string, kinds map[string]bool) (int, error) {
	files, err := groupFiles(c, group)
	if err != nil {
		return 0, err
	}
	w, err := c.Env.Stage("w"+group, files)
	if err != nil {
		return 0, err
	}
	if err := w.GenGo(); err != nil {
		return 0, err
	}
	gen.Logf("%s: generated %d files, %d refused, %d uncompilable", group, len(w.Files), len(w.Refused), len(w.Uncomp))
	for _, f := range w.Files {
		for what, m := range map[string]map[string]string{"refuses": w.Refused, "generates uncompilable code for": w.Uncomp} {
			if m[f.Name] != "" {
				c.Violation(Viol{Key: strings.Fields(what)[0] + ":" + group + "/" + f.Name, Text: fmt.Sprintf("the plugin %s %s.proto, a valid file: %s", what, f.Name, trunc(m[f.Name], 300)), Data: map[string]any{"proto": f.Body, "message": m[f.Name]}})
			}
		}
	}
	us, err := govc.Units(w)
	if err != nil {
		return 0, err
	}
	h := govc.NewHooks(w)
	var rs []*govc.MsgRun
	var msgs []*protogen.Message
	for _, f := range w.Gen.Files {
		if !f.Generate || w.Refused[strings.TrimSuffix(f.Desc.Path(), ".proto")] != "" || w.Uncomp[strings.TrimSuffix(f.Desc.Path(), ".proto")] != "" {
			continue
		}
		for _, m := range govc.Messages(f) {
			rs = append(rs, govc.Verify(w, h, us[string(m.GoIdent.GoImportPath)], m))
			msgs = append(msgs, m)
		}
	}
	n := 0
	for _, r := range rs {
		for _, f := range r.Funcs {
			c.Funcs[f] = true
		}
		c.Loops += r.Loops
		for _, o := range r.Obligs {
			if kinds[o.Kind] {
				n++
				c.Kinds[o.Kind]++
			}
		}
	}
	gen.Logf("%s: %d messages, %d obligations", group, len(rs), n)
	rp, err := replay.New(w)
	if err != nil {
		return 0, err
	}
	now := big.NewInt(time.Now().UnixNano())
	// cross-check of the contracts, and the stand-in for what is unsupported
	var jobs []replay.Job
	for _, m := range msgs {
		if spec.Validated(w, m) {
			jobs = append(jobs, rp.Jobs(m, "", now)...)
		}
	}
	c.CrossRuns += len(jobs)
	ms, err := rp.Compare(jobs)
	if err != nil {
		return 0, err
	}
	gen.Logf("%s: cross-check of %d instances: %d differences", group, len(jobs), len(ms))
	wrong := map[string]bool{}
	for _, m := range ms {
		if !kinds[m.Kind] {
			continue
		}
		gm := byGo(msgs, m.Msg)
		v := Viol{Key: group + "/" + m.Msg + "/" + m.Field, Data: map[string]any{"group": group, "seed": c.Seed, "message": string(gm.Desc.FullName()), "proto": source(w, gm), "kind": m.Kind, "tier": c.Tier}}
		describe(&v, m)
		v.Text += " [" + fieldRule(w, gm, m.Field) + "]"
		c.Violation(v)
		if !c.isKnown(v.Key) {
			wrong[m.Msg] = true
		}
	}
	// When inputs already refute some contracts, only the obligations of those
	// messages are sent to the solvers (to name the failed one); the others
	// count as skipped.
	sel := func(o *govc.Oblig) bool { return kinds[o.Kind] && (len(wrong) == 0 || wrong[o.Msg]) }
	deadline := c.Start.Add(budget)
	max := 12
	if len(wrong) > 0 {
		c.Refuted++
		deadline = time.Now().Add(20 * time.Second)
		max = 6
		smt.TimeoutMS = 2500
	}
	if c.Refuted > 1 || c.Refuted == 1 && len(wrong) == 0 {
		// already refuted in an earlier group
		deadline = c.Start
	}
	done, failed, skipped := govc.Discharge(rs, sel, max, deadline)
	if c.Refuted > 0 {
		skipped = n - len(done)
	} else if skipped > 0 && len(failed) == 0 {
		c.Violation(Viol{Key: group + "/budget", NoInput: true, Text: fmt.Sprintf("%d obligations of group %s were not decided within %v", skipped, group, budget), Data: map[string]any{"group": group, "skipped": skipped}})
	}
	c.Oblig += n
	c.Done += len(done) - len(failed)
	c.Skipped += skipped
	for _, u := range h.UsedList() {
		c.Trust("assumed contract: " + u)
	}
	for i := 0; i < len(done) && len(c.Samples) < 6; i += 1 + len(done)/3 {
		c.Samples = append(c.Samples, done[i].ID())
	}
	gen.Logf("%s: %d discharged, %d failed, %d skipped", group, len(done)-len(failed), len(failed), skipped)

	// what failed
	confirmed := map[string]bool{}
	for _, o := range failed {
		key := group + "/" + o.Msg + "/" + o.Field
		if confirmed[key] {
			continue
		}
		confirmed[key] = true
		m := o.Run.M
		data := map[string]any{"group": group, "seed": c.Seed, "message": string(m.Desc.FullName()), "proto": source(w, m), "obligation": o.ID(), "kind": o.Kind, "at": o.At, "tier": c.Tier}
		if o.Res != nil {
			data["verifier"] = map[string]any{"status": o.Res.Status, "solver": o.Res.Solver, "goal": trunc(o.Res.Why, 2000), "script": trunc(o.Res.Script, 20000)}
		}
		v := Viol{Key: key, Text: fmt.Sprintf("%s: obligation not discharged: %s [%s]", o.Kind, o.ID(), fieldRule(w, m, o.Field)), Data: data, NoInput: true}
		if ms := confirm(rp, m, o.Field, now, kinds); len(ms) > 0 {
			describe(&v, ms[0])
		} else if o.Field != "" {
			if ms := confirm(rp, m, "", now, kinds); len(ms) > 0 {
				describe(&v, ms[0])
			}
		}
		c.Violation(v)
	}
	// outside the subset: a bounded stand-in
	for _, r := range rs {
		if r.Unsup == "" {
			continue
		}
		c.Bounded = append(c.Bounded, fmt.Sprintf("%s (bounded: replay only): %s", r.Go, r.Unsup))
	}
	return len(rs), nil
}

func byGo(ms []*protogen.Message, n string) *protogen.Message {
	for _, m := range ms {
		if m.GoIdent.GoName == n {
			return m
		}
	}
	return ms[0]
}

func confirm(rp *replay.R, m *protogen.Message, field string, now *big.Int, kinds map[string]bool) []replay.Mismatch {
	if !spec.Validated(rp.W, m) {
		return nil
	}
	ms, err := rp.Compare(rp.Jobs(m, field, now))
	if err != nil {
		return nil
	}
	var out []replay.Mismatch
	for _, x := range ms {
		if kinds[x.Kind] {
			out = append(out, x)
		}
	}
	sort.SliceStable(out, func(i, j int) bool { return size(out[i].Inst) < size(out[j].Inst) })
	return out
}

func size(v any) int { b, _ := json.Marshal(v); return len(b) }

func describe(v *Viol, m replay.Mismatch) {
	b, _ := json.Marshal(m.Inst)
	v.NoInput = false
	v.Text = fmt.Sprintf("%s: %s: %s on %s", m.Kind, m.Msg, m.Text, trunc(string(b), 300))
	v.Data["instance"] = m.Inst
	v.Data["encoded"] = m.Enc
	v.Data["observed"] = m.Got
	v.Data["expected_reports"] = m.Want
	v.Data["difference"] = m.Text
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// Replay runs a reported input against the current code.
func Replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var d struct {
		Group, Message, What, Tier string
		Property                   string
		Seed                       int64
		Proto                      string
		Encoded                    json.RawMessage
		Plug, Type, Rules, Param   string
		CC                         string
		Disabled                   bool
		Files                      []gen.File
		Expected                   bool `json:"expected_refused"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println(d.What)
	fmt.Println(d.Proto)
	if d.Plug == "outputs" {
		return replayOutputs(d.What)
	}
	if d.Plug == "header" {
		var line string
		json.Unmarshal(d.Encoded, &line)
		return replayHeader(line)
	}
	if d.Plug != "" {
		return replayPlug(d.Plug, d.Type, d.Rules, d.Disabled, plug.RunCase{Files: d.Files, Param: d.Param, Want: d.Expected})
	}
	if d.CC != "" {
		var line string
		json.Unmarshal(d.Encoded, &line)
		return replayCC(d.Property, d.CC, d.Tier, d.Seed, line)
	}
	if d.Group == "" || len(d.Encoded) == 0 {
		fmt.Println("no input recorded: the file names the failed obligation and the verifier's output")
		return 0
	}
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer e.Close()
	files, err := groupFiles(&Ctx{Prop: d.Property, Tier: d.Tier, Seed: d.Seed, Env: e}, d.Group)
	var w *gen.World
	if err == nil {
		w, err = e.Stage("w"+d.Group, files)
	}
	if err == nil {
		err = w.GenGo()
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	rp, err := replay.New(w)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	out, err := rp.Raw(d.Message, d.Encoded)
	fmt.Println(out, err)
	return 0
}
