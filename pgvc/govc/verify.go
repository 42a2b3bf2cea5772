package govc

import (
	"fmt"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/compiler/protogen"

	"pgvc/gen"
	"pgvc/gofe"
	"pgvc/ir"
	"pgvc/smt"
	"pgvc/spec"
	"pgvc/sym"
)

// Oblig is one proof obligation on the generated code.
type Oblig struct {
	Kind  string // accept, agree, order, count, attr, safety
	Msg   string
	Name  string
	Field string
	Hyps  []*Term
	Goal  *Term
	At    string
	Res   *smt.Result
	Alt   []*Oblig // the obligation holds when one of these does (order)
	Run   *MsgRun
}

func (o *Oblig) ID() string { return o.Msg + ": " + o.Name }

// MsgRun is the verification of one message.
type MsgRun struct {
	W       *gen.World
	M       *protogen.Message
	Go      string // pkg.Name
	Spec    *spec.Msg
	Obligs  []*Oblig
	Unsup   string // construct outside the subset
	Funcs   []string
	Loops   int
	AllPos  []*item
	Paths   []*path
	Floats  bool
	NaNHole []*Oblig
}

type item struct {
	g     *Term
	loop  *sym.LoopItem
	v     Val
	err   errInfo
	canon *Term // guard over the canonical loop index
}

type path struct {
	g   *Term
	v   Val
	nil bool
	err errInfo
}

// errInfo is what the accessors of an error report.
type errInfo struct {
	ok     bool
	why    string
	field  Val
	name   string
	hasIdx bool
	idx    Val
	reason Val
	cause  Val
	key    *Term
	text   Val
	ename  Val
}

// Units lowers the packages of the world.
func Units(w *gen.World) (map[string]*ir.Unit, error) {
	out := map[string]*ir.Unit{}
	for _, p := range w.Packages() {
		l, err := gofe.Load(p, w.PkgFiles(p), w.Exports)
		if err != nil {
			return nil, err
		}
		names := map[string]bool{}
		for _, f := range w.PkgFiles(p) {
			if strings.HasSuffix(f, ".pb.validate.go") {
				names[filepath.Base(f)] = true
			}
		}
		out[p] = l.Lower(names)
	}
	// method sets across packages
	for _, u := range out {
		for _, v := range out {
			if u != v {
				for t, m := range v.Methods {
					if _, ok := u.Methods[t]; !ok {
						u.Methods[t] = m
					}
				}
			}
		}
		for name, gm := range w.GoMsg {
			for _, t := range []string{name, "*" + name} {
				if _, ok := u.Methods[t]; !ok && strings.HasPrefix(string(gm.Desc.FullName()), "google.protobuf.") {
					u.Methods[t] = map[string]bool{}
				}
			}
		}
	}
	return out, nil
}

// Messages lists the messages of a file, nested ones included.
func Messages(f *protogen.File) []*protogen.Message {
	var out []*protogen.Message
	var rec func(m *protogen.Message)
	rec = func(m *protogen.Message) {
		if m.Desc.IsMapEntry() {
			return
		}
		out = append(out, m)
		for _, n := range m.Messages {
			rec(n)
		}
	}
	for _, m := range f.Messages {
		rec(m)
	}
	return out
}

func conj(t *Term) []*Term {
	if t.Op == "and" {
		return t.Args
	}
	return []*Term{t}
}

func without(t, c *Term) *Term {
	drop := map[*Term]bool{}
	for _, a := range conj(c) {
		drop[a] = true
	}
	var out []*Term
	for _, a := range conj(t) {
		if !drop[a] {
			out = append(out, a)
		}
	}
	return smt.And(out...)
}

// flatten lists the items a returned value stands for, under guard g.
func (r *MsgRun) flatten(x *sym.X, st *sym.State, g *Term, v Val, out *[]*item, empties *[]*Term, odd *[]*Term) {
	switch u := v.(type) {
	case sym.NilV:
	case sym.TypedV:
		if b, ok := u.V.(sym.Build); ok {
			ne := sym.NonEmpty(b.Items)
			*empties = append(*empties, smt.And(g, smt.Not(ne)))
			base := without(g, ne)
			r.items(base, b.Items, nil, out)
			return
		}
		if _, ok := u.V.(sym.NilV); ok { // typed nil: a non-nil error without violations
			*empties = append(*empties, g)
			return
		}
		r.flatten(x, st, g, u.V, out, empties, odd)
	case sym.UnionV:
		for _, a := range u {
			r.flatten(x, st, smt.And(g, a.G), a.V, out, empties, odd)
		}
	case sym.Build:
		r.flatten(x, st, g, sym.TypedV{Ty: "", V: u}, out, empties, odd)
	default:
		*odd = append(*odd, g)
		*out = append(*out, &item{g: g, v: v})
	}
}

func (r *MsgRun) items(g *Term, is []sym.Item, loop *sym.LoopItem, out *[]*item) {
	for _, it := range is {
		gg := smt.And(g, it.G)
		if gg.IsFalse() {
			continue
		}
		if it.Loop != nil {
			if loop != nil {
				panic(sym.Unsup{At: r.Go, Why: "nested loops report errors"})
			}
			r.items(gg, it.Loop.Body, it.Loop, out)
			continue
		}
		r.split(gg, it.V, loop, out)
	}
}

func (r *MsgRun) split(g *Term, v Val, loop *sym.LoopItem, out *[]*item) {
	if u, ok := v.(sym.UnionV); ok {
		for _, a := range u {
			r.split(smt.And(g, a.G), a.V, loop, out)
		}
		return
	}
	if g.IsFalse() {
		return
	}
	*out = append(*out, &item{g: g, loop: loop, v: v})
}

// info runs the accessors of the error value.
func (r *MsgRun) info(x *sym.X, st *sym.State, v Val) (e errInfo) {
	defer func() {
		if p := recover(); p != nil {
			u, ok := p.(sym.Unsup)
			if !ok {
				panic(p)
			}
			e.ok, e.why = false, u.Error()
		}
	}()
	tn := x.H.TypeOf(v)
	if o, ok := v.(sym.ObjV); ok {
		tn = "*" + x.H.TypeOf(st.Env[o.ID])
	}
	if tn == "" {
		e.why = "error value of unknown type " + sym.Str(v)
		return
	}
	call := func(m string) Val {
		for _, n := range []string{"(" + tn + ")." + m, "(" + strings.TrimPrefix(tn, "*") + ")." + m} {
			if f, ok := x.Unit.Funcs[n]; ok {
				return x.Inline(st, f, n, v, nil)
			}
		}
		panic(sym.Unsup{At: tn, Why: "no method " + m})
	}
	e.field = call("Field")
	e.reason = call("Reason")
	e.cause = call("Cause")
	e.key = x.IsTrue(call("Key"))
	e.text = call("Error")
	e.ename = call("ErrorName")
	switch f := e.field.(type) {
	case sym.TV:
		if f.T.Op != "str" {
			e.why = "field name not constant"
			return
		}
		e.name = f.T.Name
	case sym.CatV:
		if len(f.Parts) == 3 && f.Parts[0].Arg == nil && f.Parts[1].Arg != nil && f.Parts[2].Arg == nil && f.Parts[2].Lit == "]" && strings.HasSuffix(f.Parts[0].Lit, "[") {
			e.name = strings.TrimSuffix(f.Parts[0].Lit, "[")
			e.hasIdx, e.idx = true, f.Parts[1].Arg
		} else {
			e.name = f.Parts[0].Lit
			if i := strings.IndexByte(e.name, '['); i >= 0 {
				e.name = e.name[:i]
			}
			e.why = "field text " + sym.Str(f)
		}
	default:
		e.why = "field text " + sym.Str(e.field)
		return
	}
	e.ok = true
	return
}

// Verify generates the obligations of a message.
func Verify(w *gen.World, h *Hooks, u *ir.Unit, m *protogen.Message) (r *MsgRun) {
	r = &MsgRun{W: w, M: m, Go: identName(m.GoIdent)}
	self := smt.Var("self!"+m.GoIdent.GoName, smt.Ref)
	r.Spec = spec.Build(w, m, self)
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(sym.Unsup); ok {
				r.Unsup = s.Error()
				return
			}
			panic(p)
		}
	}()
	recv := sym.MsgV{Ref: self, Go: r.Go}
	fa, fv := "(*"+r.Go+").ValidateAll", "(*"+r.Go+").Validate"
	if r.Spec.Ignored {
		_, a := u.Funcs[fa]
		_, b := u.Funcs[fv]
		r.add(&Oblig{Kind: "accept", Name: "an ignored message has no validation methods", Goal: smt.B(!a && !b)})
		return r
	}
	if u.Funcs[fa] == nil || u.Funcs[fv] == nil {
		r.add(&Oblig{Kind: "accept", Name: "validation methods exist", Goal: smt.False})
		return r
	}
	xa := sym.NewX(u, h)
	sa := sym.NewState()
	va := xa.Inline(sa, u.Funcs[fa], fa, recv, nil)
	nsa := len(xa.Safety)
	xv := sym.NewX(u, h)
	sv := sym.NewState()
	vv := xv.Inline(sv, u.Funcs[fv], fv, recv, nil)
	nsv := len(xv.Safety)

	var items []*item
	var empties, odd []*Term
	r.flatten(xa, sa, smt.True, va, &items, &empties, &odd)
	r.AllPos = items
	var paths []*path
	var addPath func(g *Term, v Val)
	addPath = func(g *Term, v Val) {
		if g.IsFalse() {
			return
		}
		switch a := v.(type) {
		case sym.UnionV:
			for _, b := range a {
				addPath(smt.And(g, b.G), b.V)
			}
		case sym.NilV:
			paths = append(paths, &path{g: g, v: v, nil: true})
		case sym.ErrV:
			paths = append(paths, &path{g: smt.And(g, smt.Not(a.NonNil)), v: v, nil: true}, &path{g: smt.And(g, a.NonNil), v: v})
		default:
			paths = append(paths, &path{g: g, v: v})
		}
	}
	addPath(smt.True, vv)
	r.Paths = paths

	for _, it := range items {
		it.err = r.info(xa, sa, it.v)
	}
	for _, p := range paths {
		if !p.nil {
			p.err = r.info(xv, sv, p.v)
		}
	}
	hyp := append(append([]*Term{}, xa.Facts...), xv.Facts...)
	r.safety(xa, nsa, hyp, "ValidateAll")
	r.safety(xv, nsv, hyp, "Validate")
	for _, x := range []*sym.X{xa, xv} {
		r.Loops += x.Loops
		for _, o := range x.LoopObligs {
			r.add(&Oblig{Kind: "accept", Name: "loop invariant: " + o.What, Hyps: append([]*Term{o.Hyp}, hyp...), Goal: o.Goal, At: o.At})
		}
		for f := range x.Funcs {
			r.Funcs = append(r.Funcs, f)
		}
	}
	r.accept(hyp, empties, odd)
	r.order(hyp)
	r.count(hyp)
	r.attr(hyp)
	r.api(xa, sa, u)
	sort.Strings(r.Funcs)
	var fs []string
	for i, f := range r.Funcs {
		if i == 0 || f != r.Funcs[i-1] {
			fs = append(fs, f)
		}
	}
	r.Funcs = fs
	return r
}

func (r *MsgRun) add(o *Oblig) {
	o.Msg = r.M.GoIdent.GoName
	r.Obligs = append(r.Obligs, o)
}

func (r *MsgRun) safety(x *sym.X, n int, hyp []*Term, which string) {
	seen := map[[2]*Term]bool{}
	for i, o := range x.Safety {
		_ = i
		k := [2]*Term{o.Hyp, o.Goal}
		if seen[k] || o.What == "" {
			continue
		}
		seen[k] = true
		r.add(&Oblig{Kind: "safety", Name: which + ": " + o.What + " at " + filepath.Base(o.At), Hyps: append([]*Term{o.Hyp}, hyp...), Goal: o.Goal, At: o.At})
	}
}

// locOf matches the location of an error with the fields of the message.
func (r *MsgRun) specAt(name string, loop bool) []*spec.Viol {
	var out []*spec.Viol
	for _, v := range r.Spec.Viols {
		if v.Field == name && (v.Loop != nil) == loop {
			out = append(out, v)
		}
	}
	return out
}

type loc struct {
	name string
	loop bool
}

func (r *MsgRun) locs() []loc {
	seen := map[loc]bool{}
	var out []loc
	put := func(l loc) {
		if !seen[l] {
			seen[l] = true
			out = append(out, l)
		}
	}
	for _, v := range r.Spec.Viols {
		put(loc{v.Field, v.Loop != nil})
	}
	for _, it := range r.AllPos {
		if it.err.ok {
			put(loc{it.err.name, it.loop != nil})
		}
	}
	return out
}

func (l loc) String() string {
	if l.loop {
		return l.name + "[]"
	}
	return l.name
}

// canonical expresses the items at l over the loop index of the specification.
func (r *MsgRun) canonical(l loc) (is []*item, vs []*spec.Viol, rng *Term) {
	vs = r.specAt(l.name, l.loop)
	rng = smt.True
	var idx, n *Term
	if l.loop {
		if len(vs) > 0 {
			idx, n = vs[0].Loop.I, vs[0].Loop.N
		}
	}
	for _, it := range r.AllPos {
		if !it.err.ok || it.err.name != l.name || (it.loop != nil) != l.loop {
			continue
		}
		it.canon = it.g
		if l.loop {
			if idx == nil {
				idx, n = it.loop.I, it.loop.N
			}
			if it.loop.N != n {
				panic(sym.Unsup{At: r.Go, Why: fmt.Sprintf("the loop over %s does not run over its elements in order", l.name)})
			}
			it.canon = smt.Subst(it.g, map[*Term]*Term{it.loop.I: idx})
		}
		is = append(is, it)
	}
	if l.loop && idx != nil {
		rng = smt.And(smt.Le(smt.IntC(0), idx), smt.Lt(idx, n))
	}
	return
}

func (r *MsgRun) nanHyps() []*Term {
	// floating-point ranges are demanded for numbers only (see known findings)
	var out []*Term
	for _, v := range r.Spec.Viols {
		if !v.Hyp.IsTrue() {
			h := v.Hyp
			if v.Loop != nil {
				h = smt.Forall(v.Loop.I, smt.IntC(0), v.Loop.N, h)
			}
			out = append(out, h)
		}
	}
	return out
}

func (r *MsgRun) accept(hyp []*Term, empties, odd []*Term) {
	self := r.Spec.Self
	notNil := smt.Not(nilOf(self))
	for _, it := range r.AllPos {
		if !it.err.ok {
			r.add(&Oblig{Kind: "attr", Name: "an error whose accessors can be read (" + it.err.why + ")", Hyps: append([]*Term{it.g}, hyp...), Goal: smt.False})
			r.add(&Oblig{Kind: "accept", Name: "an error at an unknown place (" + it.err.why + ")", Hyps: append([]*Term{it.g}, hyp...), Goal: smt.False})
		}
	}
	for _, g := range empties {
		if !g.IsFalse() {
			r.add(&Oblig{Kind: "agree", Name: "ValidateAll: a non-nil multi-error lists at least one violation", Hyps: append([]*Term{g}, hyp...), Goal: smt.False})
		}
	}
	for _, g := range odd {
		r.add(&Oblig{Kind: "agree", Name: "ValidateAll: returns a multi-error", Hyps: append([]*Term{g}, hyp...), Goal: smt.False})
	}
	ls := r.locs()
	for _, l := range ls {
		is, vs, rng := r.canonical(l)
		code, sp := smt.False, smt.False
		for _, it := range is {
			code = smt.Or(code, it.canon)
		}
		for _, v := range vs {
			sp = smt.Or(sp, v.Cond)
		}
		var nh []*Term
		for _, v := range vs {
			if !v.Hyp.IsTrue() {
				nh = append(nh, v.Hyp)
			}
		}
		hs := append(append([]*Term{rng}, nh...), hyp...)
		r.add(&Oblig{Kind: "accept", Name: fmt.Sprintf("ValidateAll reports %s only when a constraint is broken", l), Field: l.name, Hyps: append([]*Term{code}, hs...), Goal: smt.And(notNil, sp)})
		for _, v := range vs {
			r.add(&Oblig{Kind: "accept", Name: fmt.Sprintf("ValidateAll reports %s when %s is broken", l, v.Rule), Field: l.name, Hyps: append([]*Term{notNil, v.Cond}, hs...), Goal: code})
		}
	}
	// Validate
	nan := r.nanHyps()
	for _, p := range r.Paths {
		if p.nil {
			for _, v := range r.Spec.Viols {
				rng := smt.True
				if v.Loop != nil {
					rng = smt.And(smt.Le(smt.IntC(0), v.Loop.I), smt.Lt(v.Loop.I, v.Loop.N))
				}
				r.add(&Oblig{Kind: "accept", Name: fmt.Sprintf("Validate returns nil only when %s holds", v), Field: v.Field, Hyps: append([]*Term{notNil, p.g, rng, v.Hyp}, hyp...), Goal: smt.Not(v.Cond)})
			}
			continue
		}
		if !p.err.ok {
			r.add(&Oblig{Kind: "accept", Name: "Validate: an error at an unknown place (" + p.err.why + ")", Hyps: append([]*Term{p.g}, hyp...), Goal: smt.False})
			continue
		}
		sp := smt.False
		for _, v := range r.Spec.Viols {
			if v.Field != p.err.name {
				continue
			}
			c := v.Cond
			if v.Loop != nil {
				c = smt.Exists(v.Loop.I, smt.IntC(0), v.Loop.N, c)
				if k := Witness(p.err.idx); k != nil {
					inst := smt.And(smt.Le(smt.IntC(0), k), smt.Lt(k, v.Loop.N), smt.Subst(v.Cond, map[*Term]*Term{v.Loop.I: k}))
					c = smt.Or(inst, c)
				}
			}
			sp = smt.Or(sp, c)
		}
		r.add(&Oblig{Kind: "accept", Name: fmt.Sprintf("Validate reports %s (%s) only when a constraint is broken", p.err.name, short(sym.Str(p.err.reason))), Field: p.err.name, Hyps: append(append([]*Term{p.g}, nan...), hyp...), Goal: smt.And(notNil, sp)})
	}
}

func short(s string) string {
	if len(s) > 60 {
		return s[:60] + "…"
	}
	return s
}

// witness finds the loop index in the bracketed index or key.
func Witness(v Val) *Term {
	t, ok := v.(sym.TV)
	if !ok {
		return nil
	}
	if t.T.Sort == smt.Int && !(t.T.Op == "app" && len(smt.BaseName(t.T.Name)) > 0 && smt.BaseName(t.T.Name)[0] == 'k' && strings.Contains(t.T.Name, "#")) {
		return t.T
	}
	if t.T.Op == "app" && len(t.T.Args) == 2 && strings.HasPrefix(t.T.Name, "k") {
		return t.T.Args[1]
	}
	return nil
}

func nilOf(self *Term) *Term { return smt.App("isnil", smt.Bool, self) }

// order: Validate returns the violation ValidateAll lists first.
func (r *MsgRun) order(hyp []*Term) {
	any := smt.False
	for _, it := range r.AllPos {
		g := it.g
		if it.loop != nil {
			g = smt.Exists(it.loop.I, smt.IntC(0), it.loop.N, g)
		}
		any = smt.Or(any, g)
	}
	for _, p := range r.Paths {
		if p.nil {
			for _, it := range r.AllPos {
				rng := smt.True
				if it.loop != nil {
					rng = smt.And(smt.Le(smt.IntC(0), it.loop.I), smt.Lt(it.loop.I, it.loop.N))
				}
				r.add(&Oblig{Kind: "order", Field: it.err.name, Name: fmt.Sprintf("Validate returns nil only when ValidateAll does not list %s (%s)", it.err.name, short(sym.Str(it.err.reason))), Hyps: append([]*Term{p.g, rng}, hyp...), Goal: smt.Not(it.g)})
			}
			continue
		}
		if !p.err.ok {
			continue
		}
		o := &Oblig{Kind: "order", Field: p.err.name, Name: fmt.Sprintf("Validate's %s (%s) is the first violation ValidateAll lists", p.err.name, short(sym.Str(p.err.reason))), Goal: smt.False}
		for n, it := range r.AllPos {
			if !it.err.ok || it.err.name != p.err.name || !sym.Same(it.err.reason, p.err.reason) || it.err.key != p.err.key {
				continue
			}
			k := (*Term)(nil)
			if it.loop != nil {
				if k = Witness(p.err.idx); k == nil {
					continue
				}
			}
			m := map[*Term]*Term{}
			var goals []*Term
			if it.loop != nil {
				m[it.loop.I] = k
				goals = append(goals, smt.Le(smt.IntC(0), k), smt.Lt(k, it.loop.N))
			}
			goals = append(goals, smt.Subst(it.g, m))
			if !sym.Same(sym.SubstVal(it.err.field, m), p.err.field) {
				continue
			}
			a := &Oblig{Hyps: append([]*Term{p.g}, hyp...)}
			for q, jt := range r.AllPos {
				if q == n {
					break
				}
				if jt.loop == nil {
					goals = append(goals, smt.Not(jt.g))
				} else if jt.loop == it.loop {
					// earlier in the same iteration, and in all earlier iterations
					goals = append(goals, smt.Not(smt.Subst(jt.g, m)))
				} else {
					goals = append(goals, smt.Forall(jt.loop.I, smt.IntC(0), jt.loop.N, smt.Not(jt.g)))
				}
			}
			if it.loop != nil {
				for _, jt := range r.AllPos {
					if jt.loop == it.loop {
						goals = append(goals, smt.Forall(jt.loop.I, smt.IntC(0), k, smt.Not(jt.g)))
					}
				}
			}
			a.Goal = smt.And(goals...)
			o.Alt = append(o.Alt, a)
		}
		r.add(o)
	}
}

// count: one error per broken constraint.
func (r *MsgRun) count(hyp []*Term) {
	one := func(g *Term) *Term { return smt.Ite(g, smt.IntC(1), smt.IntC(0)) }
	for _, l := range r.locs() {
		is, vs, rng := r.canonical(l)
		a, b := smt.IntC(0), smt.IntC(0)
		for _, it := range is {
			a = smt.Add(a, one(it.canon))
		}
		hs := append([]*Term{rng, smt.Not(nilOf(r.Spec.Self))}, hyp...)
		for _, v := range vs {
			b = smt.Add(b, one(v.Cond))
			if !v.Hyp.IsTrue() {
				hs = append(hs, v.Hyp)
			}
		}
		r.add(&Oblig{Kind: "count", Field: l.name, Name: fmt.Sprintf("ValidateAll lists one error per broken constraint of %s", l), Hyps: hs, Goal: smt.Eq(a, b)})
	}
}

// attr: what the errors say.
func (r *MsgRun) attr(hyp []*Term) {
	one := func(where string, g *Term, e errInfo, loopI *Term) {
		if !e.ok {
			return
		}
		hs := append([]*Term{g}, hyp...)
		vs := []*spec.Viol{}
		for _, v := range r.Spec.Viols {
			if v.Field == e.name {
				vs = append(vs, v)
			}
		}
		who := fmt.Sprintf("%s: %s (%s)", where, e.name, short(sym.Str(e.reason)))
		// field text: some broken constraint is at exactly this place, with
		// this key flag and cause
		sp := smt.False
		for _, v := range vs {
			m := map[*Term]*Term{}
			c := v.Cond
			if v.Loop != nil {
				k := loopI
				if k == nil {
					k = Witness(e.idx)
				}
				if k == nil || !e.hasIdx {
					continue
				}
				m[v.Loop.I] = k
				c = smt.And(smt.Le(smt.IntC(0), k), smt.Lt(k, v.Loop.N), smt.Subst(c, m))
				want := smt.Subst(v.Idx, m)
				got, ok := e.idx.(sym.TV)
				if !ok || got.T.Sort != want.Sort {
					continue
				}
				c = smt.And(c, smt.Eq(got.T, want))
			} else if e.hasIdx {
				continue
			}
			c = smt.And(c, smt.Eq(e.key, smt.B(v.Key)))
			cc := causeCond(e.cause, v, m)
			c = smt.And(c, cc)
			if !v.Hyp.IsTrue() {
				hs = append(hs, smt.Or(smt.Subst(v.Hyp, m), smt.Not(g)))
			}
			sp = smt.Or(sp, c)
		}
		r.add(&Oblig{Kind: "attr", Field: e.name, Name: who + " names the place, key flag and cause of a broken constraint", Hyps: hs, Goal: sp})
		if e.why != "" {
			r.add(&Oblig{Kind: "attr", Field: e.name, Name: who + " has a well-formed field text", Hyps: hs, Goal: smt.False})
		}
		if !nonEmptyText(e.reason) {
			r.add(&Oblig{Kind: "attr", Field: e.name, Name: who + " gives a reason", Hyps: hs, Goal: smt.False})
		}
		for _, t := range r.textGoals(e) {
			r.add(&Oblig{Kind: "attr", Field: e.name, Name: who + " " + t.name, Hyps: hs, Goal: t.goal})
		}
	}
	for _, it := range r.AllPos {
		g := it.g
		var li *Term
		if it.loop != nil {
			g = smt.And(g, smt.Le(smt.IntC(0), it.loop.I), smt.Lt(it.loop.I, it.loop.N))
			li = it.loop.I
		}
		one("ValidateAll", g, it.err, li)
	}
	for _, p := range r.Paths {
		if !p.nil {
			one("Validate", p.g, p.err, nil)
		}
	}
}

// causeCond: the cause of the error is what v demands.
func causeCond(c Val, v *spec.Viol, m map[*Term]*Term) *Term {
	switch u := c.(type) {
	case sym.UnionV:
		r := smt.False
		for _, a := range u {
			r = smt.Or(r, smt.And(a.G, causeCond(a.V, v, m)))
		}
		return r
	case sym.TypedV:
		return causeCond(u.V, v, m)
	case sym.NilV:
		return smt.B(v.Cause != "embedded")
	case sym.ErrV:
		if u.Src == "embedded" {
			mv, ok := u.Arg.(sym.MsgV)
			if !ok || v.Cause != "embedded" {
				return smt.Not(u.NonNil)
			}
			return smt.And(u.NonNil, smt.Eq(mv.Ref, smt.Subst(v.Ref, m)))
		}
		if v.Cause == "format" {
			return smt.True
		}
		return smt.And(smt.Not(u.NonNil), smt.B(v.Cause == ""))
	}
	return smt.B(v.Cause == "format")
}

func nonEmptyText(v Val) bool {
	switch u := v.(type) {
	case sym.TV:
		return u.T.Op == "str" && u.T.Name != ""
	case sym.CatV:
		for _, p := range u.Parts {
			if p.Lit != "" {
				return true
			}
		}
	case sym.UnionV:
		for _, a := range u {
			if !nonEmptyText(a.V) {
				return false
			}
		}
		return true
	}
	return false
}

type textGoal struct {
	name string
	goal *Term
}

type FlatText struct {
	G     *Term
	Parts []sym.Part
}

// FlattenText lists the alternatives of a text.
func FlattenText(g *Term, v Val) []FlatText {
	switch u := v.(type) {
	case sym.UnionV:
		var out []FlatText
		for _, a := range u {
			out = append(out, FlattenText(smt.And(g, a.G), a.V)...)
		}
		return out
	case sym.CatV:
		cur := []FlatText{{G: g}}
		for _, p := range u.Parts {
			if p.Arg == nil {
				for i := range cur {
					cur[i].Parts = append(cur[i].Parts[:len(cur[i].Parts):len(cur[i].Parts)], p)
				}
				continue
			}
			alts := FlattenText(smt.True, p.Arg)
			var next []FlatText
			for _, c := range cur {
				for _, a := range alts {
					gg := smt.And(c.G, a.G)
					if gg.IsFalse() {
						continue
					}
					next = append(next, FlatText{gg, append(append([]sym.Part{}, c.Parts...), a.Parts...)})
				}
			}
			cur = next
		}
		return cur
	case sym.TV:
		if u.T.Op == "str" {
			return []FlatText{{g, []sym.Part{{Lit: u.T.Name}}}}
		}
		if u.T.Op == "ite" && u.T.Sort == smt.Str {
			return append(FlattenText(smt.And(g, u.T.Args[0]), sym.TV{T: u.T.Args[1], Y: u.Y}), FlattenText(smt.And(g, smt.Not(u.T.Args[0])), sym.TV{T: u.T.Args[2], Y: u.Y})...)
		}
	case sym.TypedV:
		return FlattenText(g, u.V)
	}
	return []FlatText{{g, []sym.Part{{Arg: v}}}}
}

func norm(ps []sym.Part) []sym.Part {
	switch u := sym.Cat(ps...).(type) {
	case sym.CatV:
		return u.Parts
	case sym.TV:
		if u.T.Op == "str" {
			return []sym.Part{{Lit: u.T.Name}}
		}
		return []sym.Part{{Arg: u}}
	}
	return ps
}

// containsText: needle occurs in hay as a contiguous piece.
func containsText(hay, needle []sym.Part) bool {
	hay, needle = norm(hay), norm(needle)
	if len(needle) == 0 {
		return true
	}
	if len(needle) == 1 && needle[0].Arg == nil {
		for _, p := range hay {
			if p.Arg == nil && strings.Contains(p.Lit, needle[0].Lit) {
				return true
			}
		}
		return false
	}
	for i := 0; i+len(needle) <= len(hay); i++ {
		ok := true
		for j, n := range needle {
			h := hay[i+j]
			if (n.Arg == nil) != (h.Arg == nil) {
				ok = false
				break
			}
			if n.Arg != nil {
				ok = sym.Same(n.Arg, h.Arg)
			} else if j == 0 && len(needle) > 1 {
				ok = strings.HasSuffix(h.Lit, n.Lit)
			} else if j == len(needle)-1 {
				ok = strings.HasPrefix(h.Lit, n.Lit)
			} else {
				ok = h.Lit == n.Lit
			}
			if !ok {
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (r *MsgRun) textGoals(e errInfo) []textGoal {
	var out []textGoal
	need := map[string]*Term{}
	for _, t := range FlattenText(smt.True, e.text) {
		lack := func(what string, ok bool) {
			if !ok {
				if need[what] == nil {
					need[what] = smt.True
				}
				need[what] = smt.And(need[what], smt.Not(t.G))
			}
		}
		lack("has an Error text with the message name", containsText(t.Parts, []sym.Part{{Lit: r.M.GoIdent.GoName}}))
		for _, f := range FlattenText(smt.True, e.field) {
			lack("has an Error text with the field", containsText(t.Parts, f.Parts))
		}
		for _, f := range FlattenText(smt.True, e.reason) {
			lack("has an Error text with the reason", containsText(t.Parts, f.Parts))
		}
		for _, c := range FlattenText(smt.True, e.cause) {
			v := c.Parts[0].Arg
			if v == nil {
				continue
			}
			if ev, ok := v.(sym.ErrV); ok {
				has := false
				for _, p := range t.Parts {
					if p.Arg == nil {
						continue
					}
					if sym.Same(p.Arg, ev) {
						has = true
					}
					if o, ok := p.Arg.(sym.OpaqueV); ok && o.Kind == "errtext" && len(o.Args) == 1 && sym.Same(o.Args[0], ev) {
						has = true
					}
				}
				if !has {
					// allowed only when there is no cause on this path
					w := "has an Error text with the cause"
					if need[w] == nil {
						need[w] = smt.True
					}
					need[w] = smt.And(need[w], smt.Not(smt.And(t.G, c.G, ev.NonNil)))
				}
			}
		}
	}
	var ks []string
	for k := range need {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, textGoal{k, need[k]})
	}
	return out
}

// api: the multi-error type joins its texts and returns its list.
func (r *MsgRun) api(x *sym.X, st *sym.State, u *ir.Unit) {
	mt := r.Go + "MultiError"
	if r.Spec.Disabled {
		return
	}
	ok := func(name string, f func() bool) {
		good := false
		why := ""
		func() {
			defer func() {
				if p := recover(); p != nil {
					s, is := p.(sym.Unsup)
					if !is {
						panic(p)
					}
					why = s.Error()
				}
			}()
			good = f()
		}()
		o := &Oblig{Kind: "attr", Name: name, Goal: smt.B(good)}
		if why != "" {
			o.Name += " (" + why + ")"
		}
		r.add(o)
	}
	n := smt.Var("nerr", smt.Int)
	tag := "errors"
	list := sym.ListV{Len: n, Tag: tag, At: func(i *Term) Val {
		return sym.OpaqueV{Kind: "errorElem", T: i}
	}}
	ok("MultiError.AllErrors returns the list unchanged", func() bool {
		f := u.Funcs["("+mt+").AllErrors"]
		if f == nil {
			return false
		}
		v := x.Inline(st, f, "("+mt+").AllErrors", list, nil)
		if t, ok := v.(sym.TypedV); ok {
			v = t.V
		}
		l, ok := v.(sym.ListV)
		return ok && l.Tag == tag && l.Len == n
	})
	ok("MultiError.Error joins the texts of its errors", func() bool {
		f := u.Funcs["("+mt+").Error"]
		if f == nil {
			return false
		}
		v := x.Inline(st, f, "("+mt+").Error", list, nil)
		o, is := v.(sym.OpaqueV)
		if !is || o.Kind != "join" || o.T.Op != "str" || o.T.Name == "" {
			return false
		}
		b, is := o.Args[0].(sym.Build)
		if !is || b.Base != "" || len(b.Items) != 1 || b.Items[0].Loop == nil || !b.Items[0].G.IsTrue() {
			return false
		}
		lp := b.Items[0].Loop
		if lp.N != n || len(lp.Body) != 1 || !lp.Body[0].G.IsTrue() || lp.Body[0].Loop != nil {
			return false
		}
		e, is := lp.Body[0].V.(sym.OpaqueV)
		return is && e.Kind == "errtext" && e.T == lp.I
	})
}

// Discharge runs the solver on the selected obligations. It stops early once
// maxFail of them failed (0: never); skipped counts the ones not tried.
func Discharge(rs []*MsgRun, sel func(*Oblig) bool, maxFail int, deadline time.Time) (done, failed []*Oblig, skipped int) {
	var todo []*Oblig
	for _, r := range rs {
		for _, o := range r.Obligs {
			if sel(o) {
				o.Run = r
				todo = append(todo, o)
			}
		}
	}
	return DischargeList(todo, maxFail, deadline)
}

// DischargeList is Discharge on a list.
func DischargeList(todo []*Oblig, maxFail int, deadline time.Time) (done, failed []*Oblig, skipped int) {
	var mu sync.Mutex
	// try proves a batch; unproved obligations are returned with those left out.
	try := func(os []*Oblig, max int) (bad, left []*Oblig) {
		var wg sync.WaitGroup
		sem := make(chan bool, 8)
		for i, o := range os {
			sem <- true
			mu.Lock()
			stop := len(bad) >= max
			mu.Unlock()
			if stop || time.Now().After(deadline) {
				left = append(left, os[i:]...)
				break
			}
			o := o
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { <-sem }()
				ok := Prove(o)
				mu.Lock()
				if ok {
					done = append(done, o)
				} else {
					bad = append(bad, o)
				}
				mu.Unlock()
			}()
		}
		wg.Wait()
		return
	}
	for len(todo) > 0 {
		bad, left := try(todo, maxFail)
		// a solver without an answer gets a second, longer try
		var unk []*Oblig
		for _, o := range bad {
			if o.Res != nil && o.Res.Status == "sat" {
				failed = append(failed, o)
			} else {
				unk = append(unk, o)
			}
		}
		if len(failed) > 0 && len(unk) > 3 {
			failed = append(failed, unk[3:]...)
			unk = unk[:3]
		}
		if len(unk) > 0 && time.Now().Before(deadline) {
			old := smt.TimeoutMS
			smt.TimeoutMS = 4 * old
			b, l := try(unk, len(unk)+1)
			smt.TimeoutMS = old
			failed = append(append(failed, b...), l...)
		} else {
			failed = append(failed, unk...)
		}
		todo = left
		if len(failed) > 0 || time.Now().After(deadline) {
			break
		}
	}
	skipped = len(todo)
	done = append(done, failed...)
	sort.Slice(failed, func(i, j int) bool { return failed[i].ID() < failed[j].ID() })
	return
}

// Prove discharges one obligation.
func Prove(o *Oblig) bool {
	if len(o.Alt) > 0 {
		for _, a := range o.Alt {
			if Prove(a) {
				o.Res = a.Res
				return true
			}
			o.Res = a.Res
		}
		return false
	}
	if o.Goal.Op == "and" {
		for _, g := range o.Goal.Args {
			s := &Oblig{Hyps: o.Hyps, Goal: g}
			if !prove1(s) {
				o.Res = s.Res
				o.Res.Why = g.String()
				return false
			}
			o.Res = s.Res
		}
		return true
	}
	return prove1(o)
}

func prove1(o *Oblig) bool {
	if o.Goal.IsTrue() {
		o.Res = &smt.Result{Status: "unsat", Solver: "simplifier"}
		return true
	}
	var hs []*Term
	for _, h := range o.Hyps {
		hs = append(hs, conj(h)...)
	}
	// first with the hypotheses that share symbols with the goal
	rel := relevant(hs, o.Goal)
	r := smt.ValidT(rel, o.Goal, smt.TimeoutMS/8)
	if r.Status != "unsat" && len(rel) < len(hs) {
		r = smt.ValidT(hs, o.Goal, smt.TimeoutMS)
		if r.Status == "unknown" {
			r = smt.ValidT(rel, o.Goal, smt.TimeoutMS)
			if r.Status == "sat" { // the left-out hypotheses could refute it
				r.Status = "unknown"
			}
		}
	} else if r.Status == "unknown" {
		r = smt.ValidT(rel, o.Goal, smt.TimeoutMS)
	}
	o.Res = r
	return r.Status == "unsat"
}

// relevant keeps the hypotheses connected to the goal by message fields.
func relevant(hs []*Term, goal *Term) []*Term {
	want := map[string]bool{}
	for k := range names(goal) {
		want[k] = true
	}
	var out []*Term
	rest := hs
	for round := 0; round < 2; round++ {
		var left []*Term
		add := map[string]bool{}
		for _, h := range rest {
			n := names(h)
			hit := len(n) == 0
			for k := range n {
				if want[k] {
					hit = true
				}
			}
			if hit {
				out = append(out, h)
				for k := range n {
					if strings.HasPrefix(k, "k!") || !strings.Contains(k, "#") {
						add[k] = true
					}
				}
			} else {
				left = append(left, h)
			}
		}
		if len(add) == 0 {
			break
		}
		for k := range add {
			want[k] = true
		}
		rest = left
	}
	return out
}

var namesMu sync.Mutex
var namesMemo = map[*Term]map[string]bool{}

func names(t *Term) map[string]bool {
	namesMu.Lock()
	defer namesMu.Unlock()
	if m, ok := namesMemo[t]; ok {
		return m
	}
	m := map[string]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "app" && (strings.Contains(t.Name, "#") || strings.Contains(t.Name, "!")) && !strings.HasPrefix(t.Name, "rematch#") {
			m[t.Name] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(t)
	namesMemo[t] = m
	return m
}
