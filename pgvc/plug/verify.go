package plug

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvc/gen"
	"pgvc/gofe"
	"pgvc/govc"
	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/sym"
)

// ModulePkg is the package of the rule checker.
const ModulePkg = "github.com/envoyproxy/protoc-gen-validate/module"

// P is the verification of the rule checker.
type P struct {
	W      *gen.World
	H      *Hooks
	U      *ir.Unit
	Loaded *gofe.Loaded
	Obligs []*Oblig
	Unsup  []string
	Funcs  map[string]bool
	Loops  int
	units  map[string]*ir.Unit
}

// Oblig is an obligation on the checker and the properties it belongs to.
type Oblig struct {
	*govc.Oblig
	Props []string
	Kind  string // rule kind
}

// LoadPkg type-checks a package of the repository.
func LoadPkg(e *gen.Env, dir string) (*gofe.Loaded, *ir.Unit, error) {
	o, se, err := e.Go(gen.Repo, "list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles", "./"+dir)
	if err != nil {
		return nil, nil, fmt.Errorf("go list ./%s: %v\n%s", dir, err, se)
	}
	exports := map[string]string{}
	var files []string
	var path string
	dec := json.NewDecoder(strings.NewReader(o))
	for dec.More() {
		var p struct {
			ImportPath, Export, Dir string
			GoFiles                 []string
		}
		if err := dec.Decode(&p); err != nil {
			return nil, nil, err
		}
		exports[p.ImportPath] = p.Export
		if p.Dir == filepath.Join(gen.Repo, dir) {
			path, files = p.ImportPath, nil
			for _, g := range p.GoFiles {
				files = append(files, filepath.Join(p.Dir, g))
			}
		}
	}
	l, err := gofe.Load(path, files, exports)
	if err != nil {
		return nil, nil, err
	}
	return l, l.Lower(nil), nil
}

// New loads the checker.
func New(e *gen.Env) (*P, error) {
	w, err := e.Stage("wplug", []gen.File{{Name: "plug", Body: "message M { string s = 1 [(validate.rules).string.len = 1]; }"}})
	if err != nil {
		return nil, err
	}
	h, err := NewHooks(w, ModulePkg)
	if err != nil {
		return nil, err
	}
	p := &P{W: w, H: h, Funcs: map[string]bool{}}
	p.Loaded, p.U, err = LoadPkg(e, "module")
	if err != nil {
		return nil, err
	}
	for n := range w.GoMsg {
		for _, t := range []string{n, "*" + n} {
			if p.U.Methods[t] == nil {
				p.U.Methods[t] = map[string]bool{}
			}
		}
	}
	// fields of rule messages the checker assigns
	for _, f := range p.U.Funcs {
		sym.Walk(f.Body, func(n any) {
			if a, ok := n.(*ir.Assign); ok {
				for _, l := range a.Lhs {
					if s, ok := l.(*ir.Sel); ok && s.X != nil {
						if t := typeName(s.X); strings.HasPrefix(t, val) {
							h.Mut[t+"."+s.Name] = true
						}
					}
				}
			}
		})
	}
	return p, nil
}

func typeName(e ir.Expr) string {
	var t *ir.T
	switch v := e.(type) {
	case *ir.Var:
		t = v.T
	case *ir.Sel:
		t = v.T
	case *ir.Call:
		t = v.T
	}
	if t == nil {
		return "?"
	}
	return strings.TrimPrefix(t.String(), "*")
}

func (p *P) fn(name string) (string, *ir.Func) {
	n := "(*" + ModulePkg + ".Module)." + name
	return n, p.U.Funcs[n]
}

func (p *P) add(kind, name, at string, props []string, hyps []*smt.Term, goal *smt.Term) {
	p.Obligs = append(p.Obligs, &Oblig{&govc.Oblig{Kind: "checker", Msg: "checker", Name: name, Hyps: hyps, Goal: goal, At: at}, props, kind})
}

// exec runs a function and gives the condition under which it refuses.
func (p *P) exec(what, name string, kind *string, mk func(x *sym.X, st *sym.State) []sym.Val, done func(x *sym.X, st *sym.State, throws *smt.Term)) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(sym.Unsup); ok {
				p.Unsup = append(p.Unsup, what+": "+s.Error())
				return
			}
			panic(r)
		}
	}()
	full, f := p.fn(name)
	if f == nil {
		p.Unsup = append(p.Unsup, what+": the module has no method "+name)
		return
	}
	p.H.Own, p.H.Kind = name, kind
	defer func() { p.H.Own, p.H.Kind = "", nil }()
	x := sym.NewX(p.U, p.H)
	st := sym.NewState()
	args := mk(x, st)
	x.Inline(st, f, full, sym.OpaqueV{Kind: "module", T: smt.True}, args)
	t := smt.False
	for _, e := range st.Exits {
		if e.Kind == sym.Thr {
			t = smt.Or(t, e.G)
		}
	}
	for f := range x.Funcs {
		p.Funcs[f] = true
	}
	p.Loops += x.Loops
	done(x, st, t)
}

func (p *P) safety(x *sym.X, what, kind string, props []string, hyps []*smt.Term) {
	seen := map[[2]*smt.Term]bool{}
	for _, o := range append(append([]sym.Oblig{}, x.Safety...), x.LoopObligs...) {
		k := [2]*smt.Term{o.Hyp, o.Goal}
		if seen[k] {
			continue
		}
		seen[k] = true
		p.add(kind, what+": "+o.What+" at "+filepath.Base(o.At), o.At, props, append([]*smt.Term{o.Hyp}, hyps...), o.Goal)
	}
}

// Verify generates the obligations of the rule checker.
func (p *P) Verify() {
	s := p.H.S
	typ := smt.Var("self!type", smt.Ref)
	rules := smt.Var("self!rules", smt.Ref)
	frGo := strings.TrimSuffix(val, ".") + ".FieldRules"

	// MustType
	p.exec("MustType", "MustType", nil, func(x *sym.X, st *sym.State) []sym.Val {
		pt := &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: pgs + "ProtoType"}
		wk := &ir.T{K: ir.KStr, Name: pgs + "WellKnownType"}
		return []sym.Val{op("ftype", typ), sym.TV{T: smt.Var("pt", smt.Int), Y: pt}, sym.TV{T: smt.Var("wk", smt.Str), Y: wk}}
	}, func(x *sym.X, st *sym.State, throws *smt.Term) {
		hyps := append(wfDeep(typ), x.Facts...)
		// the recursive call is on the field of a wrapper message
		hyps = append(hyps, wf(msgF0(tyMsg(typ)))...)
		known := smt.False
		for w := range wrapperOf {
			known = smt.Or(known, smt.Eq(smt.Var("wk", smt.Str), smt.StrC(w)))
		}
		hyps = append(hyps, smt.Or(known, smt.Eq(smt.Var("wk", smt.Str), smt.StrC("Unknown"))))
		all := []string{"C01"}
		p.add("", "MustType refuses exactly what is not of the type", "", all, hyps, smt.Iff(throws, smt.Not(MustOK(typ, smt.Var("pt", smt.Int), smt.Var("wk", smt.Str)))))
		p.safety(x, "MustType", "", all, hyps)
	})

	for _, kind := range s.Kinds() {
		kind := kind
		what := "rules of kind " + kind
		if kind == "" {
			what = "no typed rules"
		}
		owner := Owner(kind)
		p.exec(what, "CheckFieldRules", &kind, func(x *sym.X, st *sym.State) []sym.Val {
			if kind != "" {
				fd := s.fd(kind)
				gm := p.W.GoMsg[frGo]
				for _, f := range gm.Fields {
					if string(f.Desc.Name()) == kind {
						p.H.Prepare(x, st, sym.MsgV{Ref: model.Get(rules, fd), Go: string(f.Message.GoIdent.GoImportPath) + "." + f.Message.GoIdent.GoName})
					}
				}
			}
			return []sym.Val{op("ftype", typ), sym.MsgV{Ref: rules, Go: frGo}}
		}, func(x *sym.X, st *sym.State, throws *smt.Term) {
			hyps := append(wf(typ), x.Facts...)
			if kind == "repeated" || kind == "map" {
				hyps = append(wfDeep(typ), x.Facts...)
			}
			nonnil := smt.Not(model.IsNil(rules))
			hyps = append(hyps, s.which(rules, kind), smt.Implies(model.IsNil(rules), smt.B(kind == "")))
			if kind != "" {
				hyps = append(hyps, nonnil, smt.Not(model.IsNil(s.sub(kind, rules).r)))
			}
			if kind == "string" {
				wk := model.Get(s.sub(kind, rules).r, s.sub(kind, rules).fd("well_known_regex"))
				hyps = append(hyps, smt.Le(smt.IntC(0), wk), smt.Le(wk, smt.IntC(2)))
			}
			// accessors of unset fields give the default
			if kind != "" {
				m := s.sub(kind, rules)
				for i := 0; i < m.md.Fields().Len(); i++ {
					fd := m.md.Fields().Get(i)
					if !fd.IsList() && fd.Kind() != protoreflect.MessageKind {
						hyps = append(hyps, smt.Implies(smt.Not(model.Has(m.r, fd)), smt.Eq(model.Get(m.r, fd), model.ConstTerm(model.FromPR(fd, fd.Default())))))
					}
				}
			}
			// nil rules are accepted (the case of no rules, below)
			for _, n := range []string{"items", "keys", "values"} {
				if kind == "repeated" || kind == "map" {
					m := s.sub(kind, rules)
					if m.fd(n) != nil {
						hyps = append(hyps, smt.Implies(model.IsNil(m.r), model.IsNil(m.get(n))))
						for _, t := range []*smt.Term{tyElem(typ), tyKey(typ)} {
							hyps = append(hyps, smt.Implies(model.IsNil(m.get(n)), smt.Not(badRules(t, m.get(n)))))
						}
					}
				}
			}
			fit := fits(kind, typ)
			with := func(ts ...*smt.Term) []*smt.Term { return append(append([]*smt.Term{}, hyps...), ts...) }
			misfit := s.misfitMessage(typ, rules)
			cs := s.Contra(kind, typ, rules)
			bad := smt.False
			empty := smt.True
			for _, c := range cs {
				bad = smt.Or(bad, c.Bad)
			}
			if kind != "" {
				m := s.sub(kind, rules)
				for i := 0; i < m.md.Fields().Len(); i++ {
					empty = smt.And(empty, smt.Not(m.has(string(m.md.Fields().Get(i).Name()))))
				}
			}
			if !fit.IsTrue() {
				p.add(kind, what+" are refused on a field they do not fit", "", []string{"C01"}, with(smt.Not(fit)), throws)
			}
			p.add(kind, what+": message rules are refused on what is no message", "", []string{"C01"}, with(nonnil, misfit), throws)
			p.add(kind, what+": an empty rule set is accepted on a field it fits", "", []string{"C01"}, with(fit, empty, smt.Not(misfit)), smt.Not(throws))
			for _, c := range cs {
				p.add(kind, what+": "+c.Name+" is refused", "", strings.Fields(c.Prop), with(nonnil, c.Bad), throws)
			}
			p.add(kind, what+": consistent rules are accepted on a field they fit", "", []string{owner}, with(fit, smt.Not(bad), smt.Not(misfit)), smt.Not(throws))
			p.safety(x, what, kind, []string{owner}, hyps)
		})
	}

	// messages
	msg := smt.Var("self!msg", smt.Ref)
	p.exec("CheckRules", "CheckRules", nil, func(x *sym.X, st *sym.State) []sym.Val { return []sym.Val{op("pmsg", msg)} }, func(x *sym.X, st *sym.State, throws *smt.Term) {
		i := smt.Fresh("i", smt.Int)
		j := smt.Var("self!j", smt.Int)
		fwf := func(i *smt.Term) *smt.Term {
			t := fieldType(fieldOf(msg, i))
			return smt.And(append(wfDeep(t), tyField(t), smt.Not(model.IsNil(fieldRules(fieldOf(msg, i)))))...)
		}
		hyps := append([]*smt.Term{smt.Not(model.IsNil(msg)), smt.Le(smt.IntC(0), nFields(msg)), smt.Forall(i, smt.IntC(0), nFields(msg), fwf(i))}, x.Facts...)
		bad := func(i *smt.Term) *smt.Term {
			f := fieldOf(msg, i)
			return s.BadField(fieldType(f), fieldRules(f))
		}
		in := []*smt.Term{smt.Le(smt.IntC(0), j), smt.Lt(j, nFields(msg)), fwf(j), smt.Not(disabled(msg))}
		with := func(ts ...*smt.Term) []*smt.Term { return append(append(append([]*smt.Term{}, hyps...), in...), ts...) }
		f := fieldOf(msg, j)
		p.add("message", "bad rules on any field of a message are refused", "", []string{"C01", "C02", "C03"}, with(badRules(fieldType(f), fieldRules(f))), throws)
		for _, c := range s.FieldClauses(fieldType(f), fieldRules(f)) {
			p.add("message", c.Name+" is refused on any field of a message", "", strings.Fields(c.Prop), with(c.Bad), throws)
		}
		k := smt.Fresh("k", smt.Int)
		p.add("message", "a message is accepted when disabled or every field's rules are good", "", []string{"C01", "C02", "C03"}, hyps,
			smt.Implies(throws, smt.And(smt.Not(disabled(msg)), smt.Exists(k, smt.IntC(0), nFields(msg), bad(k)))))
		p.safety(x, "CheckRules", "message", []string{"C01"}, hyps)
	})
	p.verifyExecute()
	sort.SliceStable(p.Obligs, func(a, b int) bool { return p.Obligs[a].Kind < p.Obligs[b].Kind })
}

var wrapperOf = func() map[string]string {
	m := map[string]string{}
	for k, w := range wrappers {
		m[w] = k
	}
	return m
}()

var _ protoreflect.MessageDescriptor
