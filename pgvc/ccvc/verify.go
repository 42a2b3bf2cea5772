package ccvc

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"

	"pgvc/ccfe"
	"pgvc/gen"
	"pgvc/govc"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/spec"
	"pgvc/sym"
)

// Units parses and lowers the generated sources, by file name; files that do
// not compile are noted in cc.
func Units(cc *gen.CC) (map[string]*ccfe.Unit, error) {
	fs := cc.Files()
	us := make([]*ccfe.Unit, len(fs))
	es := make([]error, len(fs))
	gen.Par(len(fs), func(i int) {
		root, err := ccfe.Parse(cc.Dir, cc.PCH, cc.Src(fs[i]), cc.Inc())
		if err != nil {
			es[i] = err
			return
		}
		us[i] = ccfe.Lower(root, cc.Src(fs[i]))
	})
	out := map[string]*ccfe.Unit{}
	for i, f := range fs {
		if es[i] != nil {
			if us[i] == nil && strings.Contains(es[i].Error(), "error: ") {
				cc.Uncomp[f.Name] = es[i].Error()
				continue
			}
			return nil, fmt.Errorf("%s: %v", f.Name, es[i])
		}
		out[f.Name] = us[i]
	}
	return out, nil
}

// HasWord says w occurs in s as a word.
func HasWord(s, w string) bool {
	word := func(c byte) bool {
		return c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
	}
	for i := 0; i+len(w) <= len(s); i++ {
		if s[i:i+len(w)] == w && (i == 0 || !word(s[i-1])) && (i+len(w) == len(s) || !word(s[i+len(w)])) {
			return true
		}
	}
	return false
}

// Names are the texts a field may be named by.
func Names(m *protogen.Message, field string) []string {
	out := []string{field}
	for _, f := range m.Fields {
		if f.GoName == field {
			out = append(out, string(f.Desc.Name()))
		}
	}
	for _, o := range m.Oneofs {
		if o.GoName == field {
			out = append(out, string(o.Desc.Name()))
		}
	}
	return out
}

// Verify states the obligations on the C++ validation of a message.
func Verify(h *Hooks, u *ccfe.Unit, m *protogen.Message) (r *govc.MsgRun) {
	w := h.W
	cls := cppName(m.Desc)
	r = &govc.MsgRun{W: w, M: m, Go: goName(m)}
	self := smt.Var("self!"+m.GoIdent.GoName, smt.Ref)
	r.Spec = spec.BuildCC(w, m, self, h.Valid)
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(sym.Unsup); ok {
				r.Unsup = s.Error()
				return
			}
			panic(p)
		}
	}()
	add := func(o *govc.Oblig) {
		o.Msg = m.GoIdent.GoName
		o.Run = r
		r.Obligs = append(r.Obligs, o)
	}
	f := u.Validate[cls]
	target, reg := u.Registered[cls]
	if r.Spec.Ignored {
		add(&govc.Oblig{Kind: "accept", Name: "an ignored message has no validation", Goal: smt.B(f == nil && !reg)})
		return r
	}
	if f == nil {
		add(&govc.Oblig{Kind: "accept", Name: "a validation function exists", Goal: smt.False})
		return r
	}
	if r.Spec.Disabled {
		add(&govc.Oblig{Kind: "accept", Name: "a disabled message is registered with nothing but its own validation", Goal: smt.B(!reg || target == cls)})
	} else {
		add(&govc.Oblig{Kind: "accept", Name: "the message's own validation is registered for it", Goal: smt.B(reg && target == cls && h.Reg[cls] == cls)})
	}
	x := sym.NewX(u.Unit, h)
	x.Facts = append(x.Facts, smt.Not(model.IsNil(self)))
	st := sym.NewState()
	st.Env["err*"] = sym.StrV(smt.Var("err!", smt.Str))
	v := x.Inline(st, f, f.Name, nil, []Val{sym.MsgV{Ref: self, Go: r.Go}, sym.PtrV{ID: "err*"}})
	r.Funcs = append(r.Funcs, cls+" Validate")
	r.Loops = x.Loops
	hyp := x.Facts
	seen := map[[2]*Term]bool{}
	for _, o := range x.Safety {
		k := [2]*Term{o.Hyp, o.Goal}
		if seen[k] || o.What == "" {
			continue
		}
		seen[k] = true
		add(&govc.Oblig{Kind: "safety", Name: o.What + " at " + filepath.Base(o.At), Hyps: append([]*Term{o.Hyp}, hyp...), Goal: o.Goal, At: o.At})
	}
	for _, o := range x.LoopObligs {
		add(&govc.Oblig{Kind: "accept", Name: "loop invariant: " + o.What, Hyps: append([]*Term{o.Hyp}, hyp...), Goal: o.Goal, At: o.At})
	}
	for _, e := range st.Exits {
		if e.Kind == sym.Thr {
			add(&govc.Oblig{Kind: "accept", Name: "no exception at " + filepath.Base(e.At), Hyps: append([]*Term{e.G}, hyp...), Goal: smt.False, At: e.At})
		}
	}
	type path struct {
		g    *Term
		text Val
	}
	var yes []*Term
	var no []path
	var walk func(g *Term, v Val)
	walk = func(g *Term, v Val) {
		if g.IsFalse() {
			return
		}
		switch a := v.(type) {
		case sym.UnionV:
			for _, b := range a {
				walk(smt.And(g, b.G), b.V)
			}
		case sym.NilV:
			yes = append(yes, g)
		case sym.StructV:
			if a.Ty == "rejected" {
				no = append(no, path{g, a.F["text"]})
				return
			}
			panic(sym.Unsup{At: cls, Why: "verdict " + sym.Str(v)})
		default:
			panic(sym.Unsup{At: cls, Why: "verdict " + sym.Str(v)})
		}
	}
	walk(smt.True, v)
	// acceptance means every constraint holds
	for i, g := range yes {
		for _, s := range r.Spec.Viols {
			hs := []*Term{g, s.Cond}
			if s.Loop != nil {
				hs = append(hs, smt.Le(smt.IntC(0), s.Loop.I), smt.Lt(s.Loop.I, s.Loop.N))
			}
			if !s.Hyp.IsTrue() {
				hs = append(hs, s.Hyp)
			}
			n := fmt.Sprintf("acceptance implies %s", s)
			if len(yes) > 1 {
				n += fmt.Sprintf(" (path %d)", i+1)
			}
			add(&govc.Oblig{Kind: "accept", Name: n, Field: s.Field, Hyps: append(hs, hyp...), Goal: smt.False})
		}
	}
	// rejection names a field with a broken constraint
	for i, p := range no {
		for j, t := range govc.FlattenText(p.g, p.text) {
			lit := ""
			var wit []*Term
			for _, q := range t.Parts {
				if q.Arg == nil {
					lit += q.Lit
				} else {
					lit += "\x00"
					if k := govc.Witness(q.Arg); k != nil {
						wit = append(wit, k)
					}
				}
			}
			goal := smt.False
			var hs []*Term
			field := ""
			for _, s := range r.Spec.Viols {
				named := false
				for _, n := range Names(m, s.Field) {
					named = named || HasWord(lit, n)
				}
				if !named {
					continue
				}
				field = s.Field
				if s.Loop == nil {
					goal = smt.Or(goal, s.Cond)
					if !s.Hyp.IsTrue() {
						hs = append(hs, s.Hyp)
					}
					continue
				}
				in := smt.And(smt.Le(smt.IntC(0), s.Loop.I), smt.Lt(s.Loop.I, s.Loop.N))
				for _, k := range wit {
					goal = smt.Or(goal, smt.Subst(smt.And(in, s.Cond), map[*Term]*Term{s.Loop.I: k}))
				}
				if len(wit) == 0 {
					goal = smt.Or(goal, smt.Exists(s.Loop.I, smt.IntC(0), s.Loop.N, s.Cond))
				}
				if !s.Hyp.IsTrue() {
					hs = append(hs, smt.Forall(s.Loop.I, smt.IntC(0), s.Loop.N, s.Hyp))
				}
			}
			name := fmt.Sprintf("rejection %d.%d (%s) only when a constraint of the named field is broken", i+1, j+1, strings.ReplaceAll(strings.TrimSpace(lit), "\x00", "…"))
			add(&govc.Oblig{Kind: "accept", Name: name, Field: field, Hyps: append(append([]*Term{t.G}, hs...), hyp...), Goal: goal})
		}
	}
	for fn := range x.Funcs {
		if fn != f.Name {
			r.Funcs = append(r.Funcs, cls+": "+fn)
		}
	}
	sort.Strings(r.Funcs)
	return r
}
