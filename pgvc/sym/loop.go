package sym

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
)

// Loops over a sequence of symbolic length are discharged by the invariants
// of the closed forms below: a list grows by the same guarded items in every
// iteration, a set holds the keys written by the earlier iterations, a flag
// is the disjunction (conjunction) of what the iterations contributed, a
// counter is linear in the index.  The step case of every closed form is
// checked on the body's own transition (structurally: the hole for the value
// at the start of an iteration may occur in the value at its end in the one
// position the form allows); anything else is not tracked and reading it
// leaves the subset.

func (x *X) rangeStmt(st *State, s *ir.Range) {
	v := x.Expr(st, s.X)
	x.rangeOver(st, s, v)
}

func (x *X) rangeOver(st *State, s *ir.Range, v Val) {
	set := func(e *State, id *ir.Var, y Val) {
		if id != nil {
			if id.ID == "?unsupported" {
				bail(s.At, "range variable")
			}
			e.Env[id.ID] = y
		}
	}
	switch u := v.(type) {
	case TypedV:
		x.rangeOver(st, s, u.V)
		return
	case NilV:
		return
	case UnionV:
		// exclusive alternatives: one after the other
		for i := range u {
			a := u[i]
			x.ifThen(st, a.G, func(e *State) { x.rangeOver(e, s, a.V) }, func(*State) {})
		}
		return
	case ListV:
		x.execLoop(st, u.Len, s.At, s.Body, func(e *State, i *Term) {
			set(e, s.K, IntV(i))
			if s.V != nil {
				set(e, s.V, u.At(i))
			}
		}, s.K, s.V)
		return
	case MapV:
		x.execLoop(st, u.Len, s.At, s.Body, func(e *State, i *Term) {
			if s.K != nil {
				set(e, s.K, u.Key(i))
			}
			if s.V != nil {
				set(e, s.V, u.At(i))
			}
		}, s.K, s.V)
		return
	case TV:
		switch u.T.Sort {
		case smt.Str:
			if u.Y != nil && u.Y.Bytes {
				x.execLoop(st, model.BLen(u.T), s.At, s.Body, func(e *State, i *Term) {
					set(e, s.K, IntV(i))
					set(e, s.V, TV{model.ByteAt(u.T, i), &ir.T{K: ir.KInt, Bits: 8, Name: "uint8"}})
				}, s.K, s.V)
				return
			}
			x.execLoop(st, model.Runes(u.T), s.At, s.Body, func(e *State, i *Term) {
				set(e, s.K, PoisonV{"byte offset of a rune"})
				set(e, s.V, TV{model.RuneAt(u.T, i), &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: "int32"}})
			}, s.K, s.V)
			return
		case smt.Int:
			n := smt.Ite(smt.Le(smt.IntC(0), u.T), u.T, smt.IntC(0))
			x.execLoop(st, n, s.At, s.Body, func(e *State, i *Term) { set(e, s.K, TV{i, u.Y}) }, s.K)
			return
		}
	case ConstMap:
		if u.Has == nil {
			saved, savedC := st.brk, st.cont
			st.brk, st.cont = nil, nil
			for i := range u.Keys {
				if st.Alive.IsFalse() {
					break
				}
				set(st, s.K, TV{u.Keys[i], nil})
				set(st, s.V, u.Vals[i])
				x.Stmt(st, s.Body)
				x.joinConts(st)
			}
			st.cont = savedC
			x.joinBreaks(st, saved)
			return
		}
	case Build:
		if u.Base != "" {
			break
		}
		for _, it := range u.Items {
			if it.Loop != nil {
				bail(s.At, "range over a list built by a loop")
			}
		}
		saved, savedC := st.brk, st.cont
		st.brk, st.cont = nil, nil
		k := smt.IntC(0)
		for _, it := range u.Items {
			if st.Alive.IsFalse() {
				break
			}
			it := it
			k0 := k
			x.ifThen(st, it.G, func(e *State) {
				set(e, s.K, IntV(k0))
				set(e, s.V, it.V)
				x.Stmt(e, s.Body)
				x.joinConts(e)
			}, func(*State) {})
			k = smt.Add(k, smt.Ite(it.G, smt.IntC(1), smt.IntC(0)))
		}
		st.cont = savedC
		x.joinBreaks(st, saved)
		return
	}
	bail(s.At, "range over %s (%T)", Str(v), v)
}

// joinConts makes the collected continues go on here.
func (x *X) joinConts(st *State) {
	js := st.cont
	st.cont = nil
	for _, j := range js {
		if st.Alive.IsFalse() {
			st.Env, st.Alive = j.Env, j.G
			continue
		}
		st.Env = mergeEnv(j.G, j.Env, st.Env)
		st.Alive = smt.OrF(st.Alive, j.G)
	}
}

func (x *X) forStmt(st *State, s *ir.For) {
	// canonical counting loops, unless invariants are invented
	if h, ok := x.H.(Inventor); ok && !counting(s) {
		x.whileStmt(st, s, h)
		return
	}
	x.Stmt(st, s.Init)
	c, ok := s.C.(*ir.Bin)
	post, ok2 := s.Post.(*ir.Assign)
	if !ok || !ok2 || (c.Op != "<" && c.Op != "<=" && c.Op != "!=") || post.Op != "+" && post.Op != "" || len(post.Lhs) != 1 {
		bail(s.At, "loop is not a counting loop")
	}
	iv, ok := c.X.(*ir.Var)
	pv, ok2 := post.Lhs[0].(*ir.Var)
	if !ok || !ok2 || iv.ID != pv.ID {
		bail(s.At, "loop is not a counting loop")
	}
	one := post.Rhs[0]
	if post.Op == "" {
		b, ok := one.(*ir.Bin)
		if !ok || b.Op != "+" {
			bail(s.At, "loop is not a counting loop")
		}
		if v, ok := b.X.(*ir.Var); !ok || v.ID != iv.ID {
			bail(s.At, "loop is not a counting loop")
		}
		one = b.Y
	}
	if l, ok := one.(*ir.Lit); !ok || l.I == nil || l.I.Cmp(big.NewInt(1)) != 0 {
		bail(s.At, "loop is not a counting loop")
	}
	mods := assigned(s.Body)
	if mods[iv.ID] {
		bail(s.At, "loop index assigned in the body")
	}
	used := map[string]bool{}
	usedVars(c.Y, used)
	for v := range used {
		if mods[v] {
			bail(s.At, "loop bound changes in the body")
		}
	}
	start := x.term(st.Env[iv.ID], s.At)
	end := x.term(x.Expr(st, c.Y), s.At)
	if c.Op == "<=" {
		end = smt.Add(end, smt.IntC(1))
	}
	if c.Op == "!=" && start != smt.IntC(0) {
		bail(s.At, "loop is not a counting loop")
	}
	if lo, _ := interval(end, 0); lo == nil {
		bail(s.At, "loop bound of unknown range")
	}
	if start.Op != "int" {
		bail(s.At, "loop start is not a constant")
	}
	diff := smt.Sub(end, start)
	n := diff
	if lo, _ := interval(diff, 0); lo == nil || lo.Sign() < 0 {
		n = smt.Ite(smt.Le(smt.IntC(0), diff), diff, smt.IntC(0))
	}
	ty := iv.T
	x.execLoop(st, n, s.At, s.Body, func(e *State, i *Term) {
		e.Env[iv.ID] = TV{smt.Add(i, start), ty}
	}, iv)
	if !st.Alive.IsFalse() {
		st.Env[iv.ID] = PoisonV{"loop index after the loop"}
	}
}

// counting: the loop has the shape of a counting loop.
func counting(s *ir.For) bool {
	c, ok := s.C.(*ir.Bin)
	post, ok2 := s.Post.(*ir.Assign)
	if !ok || !ok2 || len(post.Lhs) != 1 {
		return false
	}
	a, ok := c.X.(*ir.Var)
	b, ok2 := post.Lhs[0].(*ir.Var)
	return ok && ok2 && a.ID == b.ID && (post.Op == "+" || post.Op == "") && (c.Op == "<" || c.Op == "<=" || c.Op == "!=")
}

// assigned collects the variables a statement may assign.
func assigned(s any) map[string]bool {
	m := map[string]bool{}
	walk(s, func(n any) {
		switch n := n.(type) {
		case *ir.Assign:
			for _, l := range n.Lhs {
				for l != nil {
					switch y := l.(type) {
					case *ir.Var:
						m[y.ID] = true
						l = nil
					case *ir.Global:
						m["global:"+y.Name] = true
						l = nil
					case *ir.Index:
						l = y.X
					case *ir.Sel:
						l = y.X
					case *ir.Un:
						l = y.X
					default:
						l = nil
					}
				}
			}
		case *ir.Range:
			if !n.Define {
				for _, v := range []*ir.Var{n.K, n.V} {
					if v != nil {
						m[v.ID] = true
					}
				}
			}
		case *ir.Un:
			if n.Op == "&" {
				if v, ok := n.X.(*ir.Var); ok {
					m[v.ID] = true
				}
			}
		}
	})
	return m
}

func usedVars(e any, m map[string]bool) {
	walk(e, func(n any) {
		if v, ok := n.(*ir.Var); ok {
			m[v.ID] = true
		}
	})
}

func isNilNode(n any) bool {
	switch y := n.(type) {
	case nil:
		return true
	case *ir.Block:
		return y == nil
	case *ir.Var:
		return y == nil
	}
	return false
}

// walk visits every IR node below n.
func walk(n any, f func(any)) {
	if isNilNode(n) {
		return
	}
	f(n)
	es := func(l []ir.Expr) {
		for _, e := range l {
			walk(e, f)
		}
	}
	ss := func(l []ir.Stmt) {
		for _, e := range l {
			walk(e, f)
		}
	}
	switch n := n.(type) {
	case *ir.Sel:
		walk(n.X, f)
	case *ir.Call:
		walk(n.Fn, f)
		walk(n.Recv, f)
		es(n.Args)
	case *ir.Un:
		walk(n.X, f)
	case *ir.Bin:
		walk(n.X, f)
		walk(n.Y, f)
	case *ir.Index:
		walk(n.X, f)
		walk(n.I, f)
	case *ir.Slice:
		walk(n.X, f)
		walk(n.Lo, f)
		walk(n.Hi, f)
	case *ir.Comp:
		es(n.Keys)
		es(n.Vals)
	case *ir.Conv:
		walk(n.X, f)
	case *ir.Assert:
		walk(n.X, f)
	case *ir.FuncLit:
		walk(n.F.Body, f)
	case *ir.Cond:
		walk(n.C, f)
		walk(n.A, f)
		walk(n.B, f)
	case *ir.CommaOK:
		walk(n.X, f)
	case *ir.Block:
		ss(n.L)
	case *ir.Assign:
		es(n.Lhs)
		es(n.Rhs)
	case *ir.ExprStmt:
		walk(n.X, f)
	case *ir.If:
		walk(n.Init, f)
		walk(n.C, f)
		walk(n.Then, f)
		walk(n.Else, f)
	case *ir.For:
		walk(n.Init, f)
		walk(n.C, f)
		walk(n.Post, f)
		walk(n.Body, f)
	case *ir.Range:
		walk(n.X, f)
		walk(n.Body, f)
	case *ir.Switch:
		walk(n.Init, f)
		walk(n.Tag, f)
		for _, c := range n.Cases {
			es(c.Vals)
			ss(c.Body)
		}
	case *ir.TypeSwitch:
		walk(n.Init, f)
		walk(n.X, f)
		for _, c := range n.Cases {
			ss(c.Body)
		}
	case *ir.Return:
		es(n.X)
	case *ir.Throw:
		walk(n.X, f)
	case *ir.Defer:
		walk(n.X, f)
	}
}

type hole struct {
	id  string // environment key
	pre Val
	// one of
	v    *Term  // scalar
	base string // Build or SetV
	set  string // membership symbol
	// closed form: value at the start of iteration j
	at func(j *Term) Val
}

// execLoop runs body for i = 0..n-1.
func (x *X) execLoop(st *State, n *Term, at string, body ir.Stmt, bind func(*State, *Term), loopVars ...*ir.Var) {
	if n == smt.IntC(0) {
		return
	}
	x.Loops++
	outer := st.Alive
	pre := st.Env
	i := smt.Fresh("i", smt.Int)

	mods := assigned(body)
	for _, v := range pre { // closures and pointers in scope
		switch f := v.(type) {
		case FuncV:
			if f.F != nil {
				for k := range assigned(f.F.Body) {
					mods[k] = true
				}
			}
		case PtrV:
			mods[f.ID] = true
		}
	}
	for _, v := range loopVars {
		if v != nil {
			delete(mods, v.ID)
		}
	}
	var ids []string
	for k := range mods {
		if _, ok := pre[k]; ok {
			ids = append(ids, k)
		}
	}
	for k := range pre {
		if strings.HasPrefix(k, "obj#") {
			ids = append(ids, k)
		}
	}
	sort.Strings(ids)

	holes := map[string]*hole{}
	env := cloneEnv(pre)
	for _, id := range ids {
		h := &hole{id: id, pre: pre[id]}
		switch v := pre[id].(type) {
		case Build:
			h.base = smt.Fresh("list", smt.Int).Name
			env[id] = Build{Base: h.base}
		case TV:
			p := "hole"
			if v.T.Sort == smt.Int {
				p = "i" // a counter: see counter()
			}
			h.v = smt.Fresh(p, v.T.Sort)
			env[id] = TV{h.v, v.Y}
		case SetV:
			h.base = smt.Fresh("set", smt.Int).Name
			h.set = "inset!" + h.base
			hh := h
			env[id] = SetV{Base: h.base, Has: func(k *Term) *Term { return smt.App(hh.set, smt.Bool, i, k) }}
		case ObjV, PtrV, FuncV:
			continue
		case StructV:
			if strings.HasPrefix(id, "obj#") {
				continue // must stay unchanged; checked below
			}
			env[id] = PoisonV{"struct changed by a loop"}
		default:
			if strings.HasPrefix(id, "obj#") {
				continue
			}
			env[id] = PoisonV{"changed by a loop"}
		}
		holes[id] = h
	}

	s := &State{Env: env, Alive: smt.True}
	x.ctx = append(x.ctx, outer, smt.Le(smt.IntC(0), i), smt.Lt(i, n))
	x.bound = append(x.bound, boundVar{i, n})
	nSafe, nObl, nFact := len(x.Safety), len(x.LoopObligs), len(x.Facts)
	bind(s, i)
	x.Stmt(s, body)
	x.joinConts(s)
	x.ctx = x.ctx[:len(x.ctx)-3]
	x.bound = x.bound[:len(x.bound)-1]

	end := s.Env
	endAlive := s.Alive
	// objects not tracked across iterations
	for k, v := range pre {
		if holes[k] == nil && !s.Alive.IsFalse() {
			if w, ok := end[k]; ok && !same(v, w) && !isLoopVar(loopVars, k) {
				if _, p := v.(PoisonV); !p {
					bail(at, "variable %s changes in a loop in an untracked way", k)
				}
			}
		}
	}

	// closed forms, in dependency order
	solved := map[string]*hole{}
	var rw func(t *Term, j *Term) *Term // hole-free version of a term of iteration i at i:=j
	rw = func(t *Term, j *Term) *Term {
		m := map[*Term]*Term{i: j}
		for _, h := range solved {
			if h.v != nil && contains(t, h.v) {
				m[h.v] = h.at(j).(TV).T
			}
		}
		t = rewriteSets(t, i, j, solved)
		return smt.Subst(t, m)
	}
	hasHole := func(t *Term, except *hole) bool {
		bad := false
		visit(t, func(u *Term) {
			for _, h := range holes {
				if h == except || solved[h.id] != nil {
					continue
				}
				if h.v != nil && u == h.v || h.set != "" && u.Op == "app" && u.Name == h.set {
					bad = true
				}
			}
		})
		return bad
	}
	valHole := func(v Val, except *hole) bool {
		bad := false
		mapVal(v, func(t *Term) *Term {
			bad = bad || hasHole(t, except)
			return t
		})
		valBases(v, func(b string) {
			for _, h := range holes {
				if h != except && solved[h.id] == nil && h.base == b {
					bad = true
				}
			}
		})
		return bad
	}
	for progress := true; progress; {
		progress = false
		for _, id := range ids {
			h := holes[id]
			if h == nil || solved[id] != nil {
				continue
			}
			if endAlive.IsFalse() {
				// no second iteration: only j=0 matters
				p := h.pre
				h.at = func(*Term) Val { return p }
			} else if !x.closedForm(h, i, end[id], hasHole, valHole, rw) {
				continue
			}
			solved[id] = h
			progress = true
		}
	}
	var resolve func(v Val, j *Term) Val
	resolve = func(v Val, j *Term) Val {
		v = fixBases(v, func(b Build) Build {
			for _, h := range solved {
				if h.base != "" && h.base == b.Base {
					p := h.at(j).(Build)
					return Build{Base: p.Base, Items: append(append([]Item{}, p.Items...), b.Items...), Nil: p.Nil && b.Nil}
				}
			}
			return b
		})
		if sv, ok := v.(SetV); ok {
			for _, h := range solved {
				if h.set != "" && h.base == sv.Base {
					p := h.at(j).(SetV)
					n := SetV{Has: p.Has, Base: p.Base, W: append([]Write{}, p.W...)}
					for _, w := range sv.W {
						n.W = append(n.W, Write{rw(w.G, j), rw(w.Key, j)})
					}
					return n
				}
			}
		}
		return mapVal(v, func(t *Term) *Term { return rw(t, j) })
	}
	leftover := func(t *Term) bool {
		bad := false
		visit(t, func(u *Term) {
			for _, h := range holes {
				if h.v != nil && u == h.v || h.set != "" && u.Op == "app" && u.Name == h.set {
					bad = true
				}
			}
		})
		return bad
	}
	clean := func(t *Term, j *Term) *Term {
		r := rw(t, j)
		if leftover(r) {
			bail(at, "a condition depends on a variable the loop changes in an untracked way")
		}
		return r
	}
	// everything recorded while running the body
	for k := nSafe; k < len(x.Safety); k++ {
		o := &x.Safety[k]
		o.Hyp, o.Goal = clean(o.Hyp, i), clean(o.Goal, i)
	}
	for k := nObl; k < len(x.LoopObligs); k++ {
		o := &x.LoopObligs[k]
		o.Hyp, o.Goal = clean(o.Hyp, i), clean(o.Goal, i)
	}
	for k := nFact; k < len(x.Facts); k++ {
		x.Facts[k] = clean(x.Facts[k], i)
	}

	exit := smt.False
	for _, e := range s.Exits {
		exit = smt.Or(exit, e.G)
	}
	for _, b := range s.brk {
		exit = smt.Or(exit, b.G)
	}
	exit = clean(exit, i)

	visible := func(e map[string]Val, j *Term) map[string]Val {
		out := make(map[string]Val, len(pre))
		for k, v := range pre {
			w, ok := e[k]
			switch {
			case !ok:
				out[k] = v
			case holes[k] != nil && solved[k] == nil:
				out[k] = PoisonV{"changed by a loop"}
			case isLoopVar(loopVars, k):
				out[k] = PoisonV{"loop variable after the loop"}
			case same(v, w):
				out[k] = v
			default:
				r := resolve(w, j)
				if valHasLeft(r, leftover) {
					r = PoisonV{"changed by a loop"}
				}
				out[k] = r
			}
		}
		for k, v := range e { // objects allocated in the body may escape by an exit
			if _, ok := pre[k]; !ok && strings.HasPrefix(k, "obj#") {
				out[k] = resolve(v, j)
			}
		}
		return out
	}
	after := func(j *Term) map[string]Val {
		out := cloneEnv(pre)
		for _, id := range ids {
			h := holes[id]
			if h == nil {
				continue
			}
			if solved[id] == nil {
				out[id] = PoisonV{"changed by a loop"}
				continue
			}
			out[id] = h.at(j)
		}
		return out
	}
	if exit.IsFalse() {
		st.Env = after(n)
		return
	}
	k := x.skolem("k", smt.Int)
	exitAt := func(j *Term) *Term { return smt.Subst(exit, map[*Term]*Term{i: j}) }
	j := smt.Fresh("i", smt.Int)
	j2 := smt.Fresh("i", smt.Int)
	x.fact(smt.And(smt.Le(smt.IntC(0), k), smt.Le(k, n)))
	x.fact(smt.Forall(j, smt.IntC(0), k, smt.Not(exitAt(j))))
	x.fact(smt.Implies(smt.Lt(k, n), exitAt(k)))
	none := smt.Forall(j2, smt.IntC(0), n, smt.Not(exitAt(j2)))
	x.fact(smt.Iff(smt.Eq(k, n), none))
	for _, e := range s.Exits {
		g := smt.And(outer, smt.Lt(k, n), clean(e.G, k))
		if g.IsFalse() {
			continue
		}
		ne := Exit{Kind: e.Kind, G: g, At: e.At, V: e.V}
		if e.V != nil {
			if _, bare := e.V.(bareRet); !bare {
				ne.V = resolve(e.V, k)
				if valHasLeft(ne.V, leftover) {
					bail(at, "a result depends on a variable the loop changes in an untracked way")
				}
			}
		}
		if e.Env != nil {
			ne.Env = visible(e.Env, k)
		}
		ne.Mods = mods
		st.Exits = append(st.Exits, ne)
	}
	resEnv := after(n)
	alive := smt.And(outer, none)
	for _, b := range s.brk {
		g := smt.And(outer, smt.Lt(k, n), clean(b.G, k))
		resEnv = mergeEnv(g, visible(b.Env, k), resEnv)
		alive = smt.OrF(alive, g)
	}
	st.Env, st.Alive = resEnv, alive
}

func isLoopVar(vs []*ir.Var, k string) bool {
	for _, v := range vs {
		if v != nil && v.ID == k {
			return true
		}
	}
	return false
}

func valHasLeft(v Val, left func(*Term) bool) bool {
	bad := false
	mapVal(v, func(t *Term) *Term {
		bad = bad || left(t)
		return t
	})
	return bad
}

// closedForm finds the value of h at the start of iteration j.
func (x *X) closedForm(h *hole, i *Term, end Val, hasHole func(*Term, *hole) bool, valHole func(Val, *hole) bool, rw func(t, j *Term) *Term) bool {
	pre := h.pre
	shift := func(v Val) func(j *Term) Val { // value assigned by the previous iteration
		return func(j *Term) Val {
			return Merge(smt.Eq(j, smt.IntC(0)), pre, mapVal(v, func(t *Term) *Term { return rw(t, smt.Sub(j, smt.IntC(1))) }))
		}
	}
	switch {
	case h.set != "":
		e, ok := end.(SetV)
		if !ok || e.Base != h.base {
			return false
		}
		if len(e.W) == 0 {
			h.at = func(*Term) Val { return pre }
			return true
		}
		// each write's guard may test membership of the written key only
		type wr struct{ g, k *Term }
		var ws []wr
		for _, w := range e.W {
			if hasHole(w.Key, nil) || hasHole(w.G, h) {
				return false
			}
			okAtoms := true
			visit(w.G, func(u *Term) {
				if u.Op == "app" && u.Name == h.set && u.Args[1] != w.Key {
					okAtoms = false
				}
			})
			if !okAtoms {
				return false
			}
			atom := smt.App(h.set, smt.Bool, i, w.Key)
			g := replace(w.G, atom, smt.False)
			ws = append(ws, wr{g, w.Key})
		}
		p := pre.(SetV)
		h.at = func(j *Term) Val {
			return SetV{Base: h.base + "@" + j.String(), Has: func(k *Term) *Term {
				r := p.Member(k)
				for _, w := range ws {
					q := smt.Fresh("i", smt.Int)
					r = smt.Or(r, smt.Exists(q, smt.IntC(0), j, smt.And(rw(w.g, q), smt.Eq(rw(w.k, q), k))))
				}
				return r
			}}
		}
		x.LoopObligs = append(x.LoopObligs, Oblig{Hyp: smt.True, Goal: smt.True, At: "", What: "set invariant (structural)"})
		return true
	case h.base != "":
		e, ok := end.(Build)
		if !ok || e.Base != h.base {
			return false
		}
		if len(e.Items) == 0 {
			h.at = func(*Term) Val { return pre }
			return true
		}
		bad := false
		for _, it := range e.Items {
			mapItems([]Item{it}, func(t *Term) *Term { bad = bad || hasHole(t, nil); return t })
			if it.Loop == nil && valHole(it.V, nil) {
				bad = true
			}
		}
		if bad {
			return false
		}
		p := pre.(Build)
		items := e.Items
		h.at = func(j *Term) Val {
			q := smt.Fresh("i", smt.Int)
			b := mapItems(items, func(t *Term) *Term { return rw(t, q) })
			return Build{Base: p.Base, Items: append(append([]Item{}, p.Items...), Item{G: smt.True, Loop: &LoopItem{I: q, N: j, Body: b}}), Nil: false}
		}
		return true
	case h.v != nil:
		e, ok := end.(TV)
		if !ok {
			if !valHole(end, nil) && h.v.Sort != smt.Int {
				h.at = shift(end)
				_, isTV := h.at(smt.IntC(1)).(TV)
				return isTV
			}
			return false
		}
		if e.T == h.v {
			h.at = func(*Term) Val { return pre }
			return true
		}
		if hasHole(e.T, h) {
			return false
		}
		p := pre.(TV)
		if !hasHole(e.T, nil) && !contains(e.T, h.v) {
			if _, ok := Merge(smt.Fresh("c", smt.Bool), p, e).(TV); !ok {
				return false
			}
			h.at = shift(e)
			return true
		}
		switch h.v.Sort {
		case smt.Bool:
			t1 := smt.Subst(e.T, map[*Term]*Term{h.v: smt.True})
			t0 := smt.Subst(e.T, map[*Term]*Term{h.v: smt.False})
			if t1.IsTrue() {
				h.at = func(j *Term) Val {
					q := smt.Fresh("i", smt.Int)
					return TV{smt.Or(p.T, smt.Exists(q, smt.IntC(0), j, rw(t0, q))), p.Y}
				}
				return true
			}
			if t0.IsFalse() {
				h.at = func(j *Term) Val {
					q := smt.Fresh("i", smt.Int)
					return TV{smt.And(p.T, smt.Forall(q, smt.IntC(0), j, rw(t1, q))), p.Y}
				}
				return true
			}
		case smt.Int:
			// counter: h + 1 per iteration from a small constant
			d := smt.Sub(e.T, h.v)
			if e.T == smt.Add(h.v, smt.IntC(1)) || d == smt.IntC(1) {
				if p.T.Op == "int" && p.T.I.IsInt64() && p.T.I.Int64() >= 0 && p.T.I.Int64() < 1<<32 && (p.Y == nil || p.Y.Bits == 64) {
					h.at = func(j *Term) Val { return TV{smt.Add(p.T, j), p.Y} }
					return true
				}
			}
		}
	}
	return false
}

func contains(t, v *Term) bool {
	f := false
	visit(t, func(u *Term) { f = f || u == v })
	return f
}

// visit calls f on every distinct subterm.
func visit(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var go_ func(*Term)
	go_ = func(u *Term) {
		if u == nil || seen[u] {
			return
		}
		seen[u] = true
		f(u)
		for _, a := range u.Args {
			go_(a)
		}
	}
	go_(t)
}

// replace substitutes a whole subterm.
func replace(t, a, b *Term) *Term {
	memo := map[*Term]*Term{}
	var go_ func(*Term) *Term
	go_ = func(u *Term) *Term {
		if u == a {
			return b
		}
		if len(u.Args) == 0 {
			return u
		}
		if r, ok := memo[u]; ok {
			return r
		}
		as := make([]*Term, len(u.Args))
		for k, y := range u.Args {
			as[k] = go_(y)
		}
		r := smt.Rebuild(u, as)
		memo[u] = r
		return r
	}
	return go_(t)
}

// rewriteSets replaces membership atoms of solved sets by their closed form.
func rewriteSets(t, i, j *Term, solved map[string]*hole) *Term {
	has := false
	for _, h := range solved {
		has = has || h.set != ""
	}
	if !has {
		return t
	}
	memo := map[*Term]*Term{}
	var go_ func(*Term) *Term
	go_ = func(u *Term) *Term {
		if len(u.Args) == 0 {
			return u
		}
		if r, ok := memo[u]; ok {
			return r
		}
		as := make([]*Term, len(u.Args))
		for k, y := range u.Args {
			as[k] = go_(y)
		}
		var r *Term
		if u.Op == "app" {
			for _, h := range solved {
				if h.set != "" && u.Name == h.set {
					// args: the iteration, the key (over iteration i; the
					// caller substitutes i:=j afterwards, so use u's own index)
					r = h.at(as[0]).(SetV).Has(as[1])
				}
			}
		}
		if r == nil {
			r = smt.Rebuild(u, as)
		}
		memo[u] = r
		return r
	}
	return go_(t)
}

// valBases reports the bases of the lists in v.
func valBases(v Val, f func(string)) {
	fixBases(v, func(b Build) Build {
		if b.Base != "" {
			f(b.Base)
		}
		return b
	})
	if s, ok := v.(SetV); ok && s.Base != "" {
		f(s.Base)
	}
}

// fixBases maps the list bases in v.
func fixBases(v Val, f func(Build) Build) Val {
	switch y := v.(type) {
	case Build:
		items := make([]Item, len(y.Items))
		for k, it := range y.Items {
			if it.Loop == nil {
				it.V = fixBases(it.V, f)
			}
			items[k] = it
		}
		y.Items = items
		return f(y)
	case TypedV:
		return TypedV{y.Ty, fixBases(y.V, f)}
	case StructV:
		n := StructV{y.Ty, map[string]Val{}}
		for k, w := range y.F {
			n.F[k] = fixBases(w, f)
		}
		return n
	case TupleV:
		n := make(TupleV, len(y))
		for k, w := range y {
			n[k] = fixBases(w, f)
		}
		return n
	case UnionV:
		n := make(UnionV, len(y))
		for k, a := range y {
			n[k] = Alt{a.G, fixBases(a.V, f)}
		}
		return n
	}
	return v
}

var _ = fmt.Sprint

// Walk visits every node of the IR below n.
func Walk(n any, f func(any)) { walk(n, f) }
