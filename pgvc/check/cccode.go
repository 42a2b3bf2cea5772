package check

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/compiler/protogen"

	"pgvc/ccvc"
	"pgvc/corpus"
	"pgvc/gen"
	"pgvc/govc"
	"pgvc/plug"
	"pgvc/replay"
	"pgvc/smt"
)

// ccProps are the groups whose generated C++ code decides a property.
var ccProps = map[string][]string{
	"C19": {"numeric", "string", "known", "bytes", "boolenum", "mix"},
	"C20": {"repeated", "map", "message", "oneof", "wrapper", "wkt", "mix"},
}

// ccDeep are the further groups of the thorough tier.
var ccDeep = map[string][]string{
	"C19": {"placedC05", "placedC07"},
	"C20": {"placedC09", "placedC11", "placedC12"},
}

func init() {
	for id, gs := range ccProps {
		gs, deep := gs, ccDeep[id]
		Checks[id] = func(c *Ctx) error {
			if c.Deep() {
				gs = append(append([]string{}, gs...), deep...)
			}
			return ccCheck(c, gs)
		}
	}
}

func ccCheck(c *Ctx, groups []string) error {
	c.Trust("clang 18 -ast-dump: types, overloads, conversions; the lowering of its syntax tree to the verifier's language (pgvc/ccfe)",
		"the verification condition generator (pgvc/sym, pgvc/ccvc) and the axioms of its theory of strings (pgvc/model)",
		"the specification written from the documentation (pgvc/spec)",
		"z3 4.8.12, cvc5 1.1.2",
		"protoc: descriptors and message classes",
		"C++ integers are bounded by their types; operations that could leave the range are obligations or wrapped")
	c.Assume["rule sets: proved for every message value, for each generated validator of the corpus; rule sets outside the corpus are not covered, nor are the rules README lists as not implemented in C++"] = true
	c.Assume["sharing: the message is not changed by another thread during validation"] = true
	c.Assume["string fields hold valid UTF-8, as do bytes matched with a pattern"] = true
	n := 0
	for _, g := range groups {
		k, err := ccGroup(c, g)
		if err != nil {
			return fmt.Errorf("%s: %w", g, err)
		}
		n += k
	}
	if err := goFns(c); err != nil {
		return err
	}
	c.Cov["programs"] = n
	c.Cov["disagreements_checked"] = c.CrossRuns
	c.Cov["explanation"] = "programs: generated C++ validators whose obligations were sent to the solvers; disagreements_checked: concrete messages on which the compiled validator was compared with the specification"
	return nil
}

// ccWorld stages a group for C++.
func ccWorld(c *Ctx, group string) (*gen.World, *gen.CC, error) {
	var files []gen.File
	if group == "mix" {
		p, err := plug.New(c.Env)
		if err != nil {
			return nil, nil, err
		}
		n := 150
		if c.Deep() {
			n = 900
		}
		if files, err = p.Mix(c.Prop, c.Seed, n); err != nil {
			return nil, nil, err
		}
	} else {
		files = corpus.Groups[group](c.Deep())
	}
	w, err := c.Env.Stage("c"+group, files)
	if err != nil {
		return nil, nil, err
	}
	if _, err := corpus.CCFilter(w); err != nil {
		return nil, nil, err
	}
	cc, err := w.GenCC()
	return w, cc, err
}

func ccMsgs(w *gen.World, cc *gen.CC) (out []*protogen.Message) {
	ok := map[string]bool{}
	for _, f := range cc.Files() {
		ok[f.Name] = true
	}
	for _, f := range w.Gen.Files {
		if f.Generate && ok[strings.TrimSuffix(f.Desc.Path(), ".proto")] {
			out = append(out, govc.Messages(f)...)
		}
	}
	return
}

func ccGroup(c *Ctx, group string) (int, error) {
	w, cc, err := ccWorld(c, group)
	if err != nil {
		return 0, err
	}
	us, err := ccvc.Units(cc)
	if err != nil {
		return 0, err
	}
	gen.Logf("%s: generated %d files, %d refused, %d uncompilable", group, len(w.Files), len(cc.Refused), len(cc.Uncomp))
	for _, f := range w.Files {
		for what, m := range map[string]map[string]string{"refuses": cc.Refused, "generates uncompilable C++ code for": cc.Uncomp} {
			if m[f.Name] != "" {
				c.Violation(Viol{Key: strings.Fields(what)[0] + ":" + group + "/" + f.Name, Text: fmt.Sprintf("the plugin %s %s.proto, a valid file: %s", what, f.Name, trunc(m[f.Name], 300)), Data: map[string]any{"proto": f.Body, "message": m[f.Name]}})
			}
		}
	}
	h := ccvc.NewHooks(w, cc, us)
	msgs := ccMsgs(w, cc)
	var rs []*govc.MsgRun
	n := 0
	for _, m := range msgs {
		r := ccvc.Verify(h, us[strings.TrimSuffix(m.Desc.ParentFile().Path(), ".proto")], m)
		rs = append(rs, r)
		for _, f := range r.Funcs {
			c.Funcs[f] = true
		}
		c.Loops += r.Loops
		n += len(r.Obligs)
		for _, o := range r.Obligs {
			c.Kinds[o.Kind]++
		}
	}
	gen.Logf("%s: %d messages, %d obligations", group, len(rs), n)
	rp, err := replay.NewCC(w, cc, msgs, h.ClassOf, h.Valid, ccvc.Names)
	if err != nil {
		return 0, err
	}
	now := big.NewInt(time.Now().UnixNano())
	run := func(ms []*protogen.Message, field string) ([]replay.Mismatch, error) {
		var jobs []replay.Job
		for _, m := range ms {
			jobs = append(jobs, rp.R.Jobs(m, field, now)...)
		}
		mm, k, err := rp.Compare(jobs, now, ccvc.HasWord)
		c.CrossRuns += k
		return mm, err
	}
	mm, err := run(msgs, "")
	if err != nil {
		return 0, err
	}
	gen.Logf("%s: cross-check: %d differences", group, len(mm))
	sort.SliceStable(mm, func(i, j int) bool { return size(mm[i].Inst) < size(mm[j].Inst) })
	wrong := map[string]bool{}
	viol := func(m replay.Mismatch) Viol {
		gm := byGo(msgs, m.Msg)
		v := Viol{Key: group + "/" + m.Msg + "/" + m.Field, Data: map[string]any{"cc": group, "seed": c.Seed, "message": string(gm.Desc.FullName()), "proto": source(w, gm), "kind": m.Kind, "tier": c.Tier}}
		describe(&v, m)
		delete(v.Data, "observed")
		v.Text += " [" + fieldRule(w, gm, m.Field) + "]"
		return v
	}
	for _, m := range mm {
		v := viol(m)
		c.Violation(v)
		if !c.isKnown(v.Key) {
			wrong[m.Msg] = true
		}
	}
	sel := func(o *govc.Oblig) bool { return len(wrong) == 0 || wrong[o.Msg] }
	deadline := c.Start.Add(budget)
	max := 12
	if len(wrong) > 0 {
		c.Refuted++
		deadline = time.Now().Add(20 * time.Second)
		max = 6
		smt.TimeoutMS = 2500
	}
	if c.Refuted > 1 || c.Refuted == 1 && len(wrong) == 0 {
		deadline = c.Start
	}
	done, failed, skipped := govc.Discharge(rs, sel, max, deadline)
	if c.Refuted > 0 {
		skipped = n - len(done)
	} else if skipped > 0 && len(failed) == 0 {
		c.Violation(Viol{Key: group + "/budget", NoInput: true, Text: fmt.Sprintf("%d obligations of group %s were not decided within %v", skipped, group, budget), Data: map[string]any{"skipped": skipped}})
	}
	c.Oblig += n
	c.Done += len(done) - len(failed)
	c.Skipped += skipped
	for _, u := range h.UsedList() {
		c.Trust("assumed contract: " + u)
	}
	for i := 0; i < len(done) && len(c.Samples) < 6; i += 1 + len(done)/3 {
		c.Samples = append(c.Samples, done[i].ID())
	}
	gen.Logf("%s: %d discharged, %d failed, %d skipped", group, len(done)-len(failed), len(failed), skipped)
	confirmed := map[string]bool{}
	for _, o := range failed {
		key := group + "/" + o.Msg + "/" + o.Field
		if confirmed[key] {
			continue
		}
		confirmed[key] = true
		m := o.Run.M
		data := map[string]any{"message": string(m.Desc.FullName()), "proto": source(w, m), "obligation": o.ID(), "kind": o.Kind, "at": o.At, "tier": c.Tier}
		if o.Res != nil {
			data["verifier"] = map[string]any{"status": o.Res.Status, "solver": o.Res.Solver, "goal": trunc(o.Res.Why, 2000), "script": trunc(o.Res.Script, 20000)}
		}
		c.Violation(Viol{Key: key, Text: fmt.Sprintf("%s: obligation not discharged: %s [%s]", o.Kind, o.ID(), fieldRule(w, m, o.Field)), Data: data, NoInput: true})
	}
	for _, r := range rs {
		if r.Unsup != "" {
			c.Bounded = append(c.Bounded, fmt.Sprintf("%s (bounded: replay only): %s", r.Go, r.Unsup))
		}
	}
	os.RemoveAll(cc.Dir)
	return len(rs), nil
}

// replayCC runs a recorded line on the current code.
func replayCC(prop, group, tier string, seed int64, line string) int {
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer e.Close()
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Env: e}
	w, cc, err := ccWorld(c, group)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	us, err := ccvc.Units(cc)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	h := ccvc.NewHooks(w, cc, us)
	rp, err := replay.NewCC(w, cc, ccMsgs(w, cc), h.ClassOf, h.Valid, ccvc.Names)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println(rp.Raw(line))
	return 0
}
