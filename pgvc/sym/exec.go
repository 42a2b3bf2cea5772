package sym

import (
	"fmt"
	"math"
	"math/big"
	"strings"

	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
)

// Hooks supply the contracts of everything outside the unit.
type Hooks interface {
	// Call applies the contract of a function or method; ok=false: unknown.
	Call(x *X, st *State, name string, recv Val, args []Val, c *ir.Call) (Val, bool)
	// Field reads a struct field.
	Field(x *X, st *State, v Val, name string, at string) (Val, bool)
	// Global gives the contract of a package variable outside the unit (or overriding it).
	Global(x *X, name string, t *ir.T) (Val, bool)
	// TypeOf names the dynamic type of a value ("" unknown).
	TypeOf(v Val) string
	// Matches decides a dynamic type test on library/message values.
	Matches(x *X, v Val, t *ir.T) (cond *Term, bound Val, ok bool)
	// IsNil of library values.
	IsNil(x *X, v Val) (*Term, bool)
}

// Oblig is a safety obligation.
type Oblig struct {
	Hyp, Goal *Term
	At, What  string
	Facts     []*Term // the facts it may use, when not all
}

type X struct {
	Unit       *ir.Unit
	H          Hooks
	Facts      []*Term
	Safety     []Oblig
	ctx        []*Term
	bound      []boundVar
	stack      []string
	nobj       int
	Loops      int // loops discharged by invariant
	LoopObligs []Oblig
	Funcs      map[string]bool // functions visited
	Exact      bool            // integer arithmetic of unbounded width (unused)
}

type boundVar struct{ v, n *Term }

type ExitKind int

const (
	Ret ExitKind = iota
	Thr
)

type Exit struct {
	Kind ExitKind
	G    *Term
	V    Val
	Env  map[string]Val // nil: poisoned for the keys in Mods
	Mods map[string]bool
	At   string
}

type jump struct {
	G   *Term
	Env map[string]Val
}

type State struct {
	Env   map[string]Val
	Alive *Term
	Exits []Exit
	brk   []jump
	cont  []jump
}

func NewX(u *ir.Unit, h Hooks) *X { return &X{Unit: u, H: h, Funcs: map[string]bool{}} }

func NewState() *State { return &State{Env: map[string]Val{}, Alive: smt.True} }

func cloneEnv(e map[string]Val) map[string]Val {
	n := make(map[string]Val, len(e)+4)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (x *X) oblige(st *State, goal *Term, at, what string) {
	if goal.IsTrue() {
		return
	}
	hyp := smt.And(append(append([]*Term{}, x.ctx...), st.Alive)...)
	if hyp.IsFalse() {
		return
	}
	x.Safety = append(x.Safety, Oblig{Hyp: hyp, Goal: goal, At: at, What: what})
}

// Oblige records a safety obligation from a hook.
func (x *X) Oblige(st *State, goal *Term, at, what string) { x.oblige(st, goal, at, what) }

// Hyp is the current path condition.
func (x *X) Hyp(st *State) *Term {
	return smt.And(append(append([]*Term{}, x.ctx...), st.Alive)...)
}

// branch runs f on a copy of st under condition c.
func (x *X) branch(st *State, c *Term, f func(s *State)) *State {
	s := &State{Env: cloneEnv(st.Env), Alive: smt.And(st.Alive, c)}
	if s.Alive.IsFalse() {
		return s
	}
	f(s)
	return s
}

func (st *State) absorb(s *State) {
	st.Exits = append(st.Exits, s.Exits...)
	st.brk = append(st.brk, s.brk...)
	st.cont = append(st.cont, s.cont...)
}

// join merges two branches taken on condition c.
func (st *State) join(c *Term, a, b *State) {
	st.absorb(a)
	st.absorb(b)
	st.Alive = smt.OrF(a.Alive, b.Alive)
	switch {
	case a.Alive.IsFalse():
		st.Env = b.Env
	case b.Alive.IsFalse():
		st.Env = a.Env
	default:
		st.Env = mergeEnv(c, a.Env, b.Env)
	}
}

func mergeEnv(c *Term, a, b map[string]Val) map[string]Val {
	out := make(map[string]Val, len(a))
	for k, v := range a {
		if w, ok := b[k]; ok {
			out[k] = Merge(c, v, w)
		} else {
			out[k] = v // declared on one side only: not visible afterwards
		}
	}
	for k, w := range b {
		if _, ok := a[k]; !ok {
			out[k] = w
		}
	}
	return out
}

func (x *X) Block(st *State, l []ir.Stmt) {
	for _, s := range l {
		if st.Alive.IsFalse() {
			return
		}
		x.Stmt(st, s)
	}
}

func (x *X) Stmt(st *State, s ir.Stmt) {
	if s == nil || st.Alive.IsFalse() {
		return
	}
	switch s := s.(type) {
	case *ir.Block:
		if s != nil {
			x.Block(st, s.L)
		}
	case *ir.Empty:
	case *ir.ExprStmt:
		x.Expr(st, s.X)
	case *ir.Assign:
		x.assign(st, s)
	case *ir.If:
		x.Stmt(st, s.Init)
		c := x.boolT(st, x.Expr(st, s.C), s.At)
		x.ifThen(st, c, func(s1 *State) { x.Stmt(s1, s.Then) }, func(s2 *State) { x.Stmt(s2, s.Else) })
	case *ir.Switch:
		x.switchStmt(st, s)
	case *ir.TypeSwitch:
		x.typeSwitch(st, s)
	case *ir.For:
		x.forStmt(st, s)
	case *ir.Range:
		x.rangeStmt(st, s)
	case *ir.Return:
		x.ret(st, s)
	case *ir.Break:
		st.brk = append(st.brk, jump{st.Alive, st.Env})
		st.Alive = smt.False
	case *ir.Continue:
		st.cont = append(st.cont, jump{st.Alive, st.Env})
		st.Alive = smt.False
	case *ir.Throw:
		v := Val(NilV{})
		if s.X != nil {
			v = x.Expr(st, s.X)
		}
		x.Throw(st, v, s.At)
	case *ir.Defer:
		// only effect-free calls are deferred in the verified functions: the
		// hook must accept the call as such
		x.Expr(st, s.X)
	case *ir.Bad:
		bail(s.At, "%s", s.Why)
	default:
		bail(s.Pos(), "statement %T", s)
	}
}

// Throw ends the path exceptionally.
func (x *X) Throw(st *State, v Val, at string) {
	st.Exits = append(st.Exits, Exit{Kind: Thr, G: st.Alive, V: v, Env: st.Env, At: at})
	st.Alive = smt.False
}

// ThrowIf ends the paths where c holds exceptionally.
func (x *X) ThrowIf(st *State, c *Term, v Val, at string) {
	g := smt.And(st.Alive, c)
	if g.IsFalse() {
		return
	}
	st.Exits = append(st.Exits, Exit{Kind: Thr, G: g, V: v, Env: cloneEnv(st.Env), At: at})
	st.Alive = smt.And(st.Alive, smt.Not(c))
}

func (x *X) ret(st *State, s *ir.Return) {
	var v Val
	switch len(s.X) {
	case 0:
		v = bareRet{}
	case 1:
		v = x.Expr(st, s.X[0])
		// &local of a value: the local is dead after the return
		if p, ok := v.(PtrV); ok {
			switch w := st.Env[p.ID].(type) {
			case TV, OpaqueV:
				v = OpaqueV{Kind: "optptr", T: smt.True, Args: []Val{w}}
			}
		}
	default:
		t := make(TupleV, len(s.X))
		for i, e := range s.X {
			t[i] = x.Expr(st, e)
		}
		v = t
	}
	if st.Alive.IsFalse() {
		return
	}
	st.Exits = append(st.Exits, Exit{Kind: Ret, G: st.Alive, V: v, Env: st.Env, At: s.At})
	st.Alive = smt.False
}

type bareRet struct{}

func (x *X) ifThen(st *State, c *Term, f, g func(*State)) {
	switch {
	case c.IsTrue():
		f(st)
		return
	case c.IsFalse():
		g(st)
		return
	}
	base := &State{Env: st.Env, Alive: st.Alive}
	a := x.branch(base, c, f)
	b := x.branch(base, smt.Not(c), g)
	st.join(c, a, b)
}

func (x *X) boolT(st *State, v Val, at string) *Term {
	switch v := v.(type) {
	case TV:
		if v.T.Sort == smt.Bool {
			return v.T
		}
	case UnionV:
		r := smt.False
		for _, a := range v {
			r = smt.Or(r, smt.And(a.G, x.boolT(st, a.V, at)))
		}
		return r
	case TypedV:
		return x.boolT(st, v.V, at)
	}
	bail(at, "condition of kind %T (%s)", v, Str(v))
	return nil
}

func (x *X) switchStmt(st *State, s *ir.Switch) {
	x.Stmt(st, s.Init)
	var tag Val
	if s.Tag != nil {
		tag = x.Expr(st, s.Tag)
	}
	saved := st.brk
	st.brk = nil
	var run func(st *State, i int)
	body := func(st *State, i int) {
		for {
			x.Block(st, s.Cases[i].Body)
			if !s.Cases[i].Fall || i+1 >= len(s.Cases) {
				return
			}
			i++
		}
	}
	def := -1
	for i, c := range s.Cases {
		if c.Default {
			def = i
		}
	}
	run = func(st *State, i int) {
		for i < len(s.Cases) && s.Cases[i].Default {
			i++
		}
		if i >= len(s.Cases) {
			if def >= 0 {
				body(st, def)
			}
			return
		}
		cond := smt.False
		for _, v := range s.Cases[i].Vals {
			var c *Term
			if tag != nil {
				c = x.equal(st, tag, x.Expr(st, v), s.At)
			} else {
				c = x.boolT(st, x.Expr(st, v), s.At)
			}
			cond = smt.Or(cond, c)
		}
		x.ifThen(st, cond, func(a *State) { body(a, i) }, func(b *State) { run(b, i+1) })
	}
	run(st, 0)
	x.joinBreaks(st, saved)
}

// joinBreaks makes the breaks collected since saved continue here.
func (x *X) joinBreaks(st *State, saved []jump) {
	js := st.brk
	st.brk = saved
	for _, j := range js {
		if st.Alive.IsFalse() {
			st.Env, st.Alive = j.Env, j.G
			continue
		}
		st.Env = mergeEnv(j.G, j.Env, st.Env)
		st.Alive = smt.OrF(st.Alive, j.G)
	}
}

func (x *X) typeSwitch(st *State, s *ir.TypeSwitch) {
	x.Stmt(st, s.Init)
	v := x.Expr(st, s.X)
	saved := st.brk
	st.brk = nil
	var run func(st *State, i int)
	run = func(st *State, i int) {
		for i < len(s.Cases) && s.Cases[i].Default {
			i++
		}
		if i >= len(s.Cases) {
			for _, c := range s.Cases {
				if c.Default {
					if c.Bind != nil {
						st.Env[c.Bind.ID] = v
					}
					x.Block(st, c.Body)
				}
			}
			return
		}
		c := s.Cases[i]
		cond := smt.False
		var bound Val = v
		for _, t := range c.Types {
			cc, b := x.matches(st, v, t, s.At)
			cond = smt.Or(cond, cc)
			if len(c.Types) == 1 {
				bound = b
			}
		}
		x.ifThen(st, cond, func(a *State) {
			if c.Bind != nil {
				a.Env[c.Bind.ID] = bound
			}
			x.Block(a, c.Body)
		}, func(b *State) { run(b, i+1) })
	}
	run(st, 0)
	x.joinBreaks(st, saved)
}

// matches: does the dynamic type of v satisfy t (nil t: v is nil)?
func (x *X) matches(st *State, v Val, t *ir.T, at string) (*Term, Val) {
	if t == nil {
		return x.isNil(st, v, at), v
	}
	switch u := v.(type) {
	case UnionV:
		c := smt.False
		var out UnionV
		for _, a := range u {
			cc, b := x.matches(st, a.V, t, at)
			c = smt.Or(c, smt.And(a.G, cc))
			out = append(out, Alt{smt.And(a.G, cc), b})
		}
		return c, out.norm()
	case NilV:
		return smt.False, v
	}
	if c, b, ok := x.H.Matches(x, v, t); ok {
		return c, b
	}
	name := x.H.TypeOf(v)
	if name == "" {
		bail(at, "dynamic type of %s unknown", Str(v))
	}
	if t.K == ir.KIface {
		ms, ok := x.Unit.Methods[name]
		if !ok {
			bail(at, "method set of %s unknown", name)
		}
		for _, m := range t.Methods {
			if !ms[m] {
				return smt.False, v
			}
		}
		return smt.True, v
	}
	return smt.B(name == t.Name), v
}

func (x *X) assign(st *State, s *ir.Assign) {
	if s.Op != "" {
		l := x.Expr(st, s.Lhs[0])
		r := x.Expr(st, s.Rhs[0])
		x.store(st, s.Lhs[0], x.binary(st, s.Op, l, r, exprT(s.Lhs[0]), s.At))
		return
	}
	var vals []Val
	if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
		v := x.Expr(st, s.Rhs[0])
		t, ok := asTuple(v, len(s.Lhs))
		if !ok {
			bail(s.At, "tuple expected, got %s", Str(v))
		}
		vals = t
	} else {
		for _, r := range s.Rhs {
			vals = append(vals, x.Expr(st, r))
		}
	}
	if st.Alive.IsFalse() {
		return
	}
	for i, l := range s.Lhs {
		if l == nil {
			continue
		}
		x.store(st, l, vals[i])
	}
}

func asTuple(v Val, n int) ([]Val, bool) {
	switch t := v.(type) {
	case TupleV:
		if len(t) == n {
			return t, true
		}
	case UnionV:
		out := make([]UnionV, n)
		for _, a := range t {
			vs, ok := asTuple(a.V, n)
			if !ok {
				return nil, false
			}
			for i := range vs {
				out[i] = addAlts(out[i], a.G, vs[i])
			}
		}
		r := make([]Val, n)
		for i := range out {
			r[i] = foldAlts(out[i])
		}
		return r, true
	}
	return nil, false
}

// foldAlts merges exhaustive alternatives.
func foldAlts(u UnionV) Val {
	if len(u) == 0 {
		return PoisonV{"no alternative"}
	}
	v := u[len(u)-1].V
	for i := len(u) - 2; i >= 0; i-- {
		v = Merge(u[i].G, u[i].V, v)
	}
	return v
}

func exprT(e ir.Expr) *ir.T {
	switch e := e.(type) {
	case *ir.Var:
		return e.T
	case *ir.Sel:
		return e.T
	case *ir.Index:
		return e.T
	case *ir.Global:
		return e.T
	}
	return nil
}

func (x *X) store(st *State, l ir.Expr, v Val) {
	switch l := l.(type) {
	case *ir.Var:
		st.Env[l.ID] = v
	case *ir.Index:
		base := x.Expr(st, l.X)
		k := x.Expr(st, l.I)
		o, ok := base.(ObjV)
		if !ok {
			bail(l.At, "assignment to an element of %s", Str(base))
		}
		s, ok := st.Env[o.ID].(SetV)
		if !ok {
			bail(l.At, "assignment to an element of %s", Str(st.Env[o.ID]))
		}
		kt := x.term(k, l.At)
		switch y := v.(type) {
		case StructV:
		case TV:
			if !y.T.IsTrue() {
				bail(l.At, "map store of %s", Str(v))
			}
		default:
			bail(l.At, "map store of %s", Str(v))
		}
		w := append(append([]Write{}, s.W...), Write{smt.True, kt})
		st.Env[o.ID] = SetV{Has: s.Has, Base: s.Base, W: w, Val: nil}
	case *ir.Sel:
		base := x.Expr(st, l.X)
		switch b := base.(type) {
		case StructV:
			n := StructV{b.Ty, map[string]Val{}}
			for k, y := range b.F {
				n.F[k] = y
			}
			n.F[l.Name] = v
			x.store(st, l.X, n)
		case ObjV:
			s, ok := st.Env[b.ID].(StructV)
			if !ok {
				bail(l.At, "field assignment to %s", Str(st.Env[b.ID]))
			}
			n := StructV{s.Ty, map[string]Val{}}
			for k, y := range s.F {
				n.F[k] = y
			}
			n.F[l.Name] = v
			st.Env[b.ID] = n
		default:
			if h, ok := x.H.(interface {
				StoreField(x *X, st *State, base Val, name string, v Val, at string) bool
			}); ok && h.StoreField(x, st, base, l.Name, v, l.At) {
				return
			}
			bail(l.At, "field assignment to %s", Str(base))
		}
	case *ir.Un:
		if l.Op == "*" {
			if p, ok := x.Expr(st, l.X).(PtrV); ok {
				st.Env[p.ID] = v
				return
			}
		}
		bail(l.At, "assignment through a pointer")
	case *ir.Global:
		st.Env["global:"+l.Name] = v
	default:
		bail(l.Pos(), "assignment to %T", l)
	}
}

// term forces a scalar.
func (x *X) term(v Val, at string) *Term {
	switch v := v.(type) {
	case TV:
		return v.T
	case TypedV:
		return x.term(v.V, at)
	case UnionV:
		var r *Term
		for i := len(v) - 1; i >= 0; i-- {
			t := x.term(v[i].V, at)
			if r == nil {
				r = t
			} else {
				r = smt.Ite(v[i].G, t, r)
			}
		}
		return r
	}
	bail(at, "scalar expected, got %s (%T)", Str(v), v)
	return nil
}

// Term is term for hooks.
func (x *X) Term(v Val, at string) *Term { return x.term(v, at) }

func (x *X) isNil(st *State, v Val, at string) *Term {
	if t, ok := x.H.IsNil(x, v); ok {
		return t
	}
	switch v := v.(type) {
	case NilV:
		return smt.True
	case MsgV:
		return model.IsNil(v.Ref)
	case ErrV:
		return smt.Not(v.NonNil)
	case StructV, FuncV, ObjV, PtrV, CatV, ConstMap:
		return smt.False
	case TypedV:
		return x.isNil(st, v.V, at)
	case Build:
		return smt.Not(NonEmpty(v.Items))
	case UnionV:
		r := smt.False
		for _, a := range v {
			r = smt.Or(r, smt.And(a.G, x.isNil(st, a.V, at)))
		}
		return r
	case ListV:
		if v.Nil != nil {
			return v.Nil
		}
	}
	bail(at, "nil comparison of %s (%T)", Str(v), v)
	return nil
}

// IsTrue is the truth of a boolean value.
func (x *X) IsTrue(v Val) *Term { return x.boolT(nil, v, "") }

// IsNilVal is isNil for callers outside.
func (x *X) IsNilVal(v Val) *Term { return x.isNil(nil, v, "") }

// NonEmpty is the condition under which some item is present.
func NonEmpty(is []Item) *Term {
	r := smt.False
	for _, it := range is {
		g := it.G
		if it.Loop != nil {
			g = smt.And(g, smt.Exists(it.Loop.I, smt.IntC(0), it.Loop.N, NonEmpty(it.Loop.Body)))
		}
		r = smt.Or(r, g)
	}
	return r
}

func (x *X) lenOf(st *State, v Val, at string) *Term {
	switch v := v.(type) {
	case TV:
		if v.T.Sort == smt.Str {
			return model.BLen(v.T)
		}
	case ListV:
		return v.Len
	case MapV:
		return v.Len
	case ConstMap:
		if v.Has == nil {
			return smt.IntC(int64(len(v.Keys)))
		}
	case NilV:
		return smt.IntC(0)
	case TypedV:
		return x.lenOf(st, v.V, at)
	case Build:
		if v.Base != "" {
			break
		}
		n := smt.IntC(0)
		simple := true
		for _, it := range v.Items {
			if it.Loop != nil {
				simple = false
			}
			n = smt.Add(n, smt.Ite(it.G, smt.IntC(1), smt.IntC(0)))
		}
		if simple && len(v.Items) <= 3 {
			return n
		}
		l := x.skolem("len", smt.Int)
		x.fact(smt.Ge(l, smt.IntC(0)))
		return smt.Ite(NonEmpty(v.Items), smt.Add(l, smt.IntC(1)), smt.IntC(0))
	case UnionV:
		var r *Term
		for i := len(v) - 1; i >= 0; i-- {
			t := x.lenOf(st, v[i].V, at)
			if r == nil {
				r = t
			} else {
				r = smt.Ite(v[i].G, t, r)
			}
		}
		return r
	}
	bail(at, "len of %s (%T)", Str(v), v)
	return nil
}

// skolem is a fresh function of the loop variables in scope.
func (x *X) skolem(p string, s smt.Sort) *Term {
	n := smt.Fresh(p, smt.Int).Name
	var args []*Term
	for _, b := range x.bound {
		args = append(args, b.v)
	}
	return smt.App(n, s, args...)
}

// fact records a definitional fact, closed over the loop variables in scope.
func (x *X) fact(t *Term) {
	for i := len(x.bound) - 1; i >= 0; i-- {
		t = smt.Forall(x.bound[i].v, smt.IntC(0), x.bound[i].n, t)
	}
	if !t.IsTrue() {
		x.Facts = append(x.Facts, t)
	}
}

func (x *X) equal(st *State, a, b Val, at string) *Term {
	if _, ok := b.(NilV); ok {
		return x.isNil(st, a, at)
	}
	if _, ok := a.(NilV); ok {
		return x.isNil(st, b, at)
	}
	if u, ok := a.(UnionV); ok {
		r := smt.False
		for _, al := range u {
			r = smt.Or(r, smt.And(al.G, x.equal(st, al.V, b, at)))
		}
		return r
	}
	if u, ok := b.(UnionV); ok {
		return x.equal(st, u, a, at)
	}
	if c, ok := a.(CatV); ok {
		_ = c
		if same(a, b) {
			return smt.True
		}
		bail(at, "comparison of a built string")
	}
	if h, ok := x.H.(interface {
		Equal(x *X, a, b Val, at string) (*Term, bool)
	}); ok {
		if t, ok := h.Equal(x, a, b, at); ok {
			return t
		}
	}
	if _, ok := a.(MsgV); ok {
		bail(at, "pointer comparison")
	}
	ta, tb := x.term(a, at), x.term(b, at)
	if ta.Sort != tb.Sort {
		bail(at, "comparison of %s and %s", ta.Sort, tb.Sort)
	}
	return smt.Eq(ta, tb)
}

var two63 = new(big.Int).Lsh(big.NewInt(1), 63)

func typeRange(t *ir.T) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if t.Signed {
		hi = new(big.Int).Lsh(one, uint(t.Bits-1))
		lo = new(big.Int).Neg(hi)
		hi.Sub(hi, one)
		return
	}
	hi = new(big.Int).Lsh(one, uint(t.Bits))
	hi.Sub(hi, one)
	return new(big.Int), hi
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 62)

// interval is a conservative range of an integer term (nil: unbounded).
func interval(t *Term, d int) (lo, hi *big.Int) {
	if d > 20 {
		return nil, nil
	}
	switch t.Op {
	case "int":
		return t.I, t.I
	case "app":
		b := smt.BaseName(t.Name)
		switch b {
		case "blen", "llen", "mlen", "runes", "splitn":
			return new(big.Int), maxLen
		case "byteat":
			return new(big.Int), big.NewInt(255)
		case "runeat":
			return new(big.Int), big.NewInt(0x10FFFF)
		case "lastidx", "firstidx":
			return big.NewInt(-1), maxLen
		}
		if len(b) >= 4 && strings.IndexByte("flkv", b[0]) >= 0 {
			switch b[1:] {
			case "i32", "i64", "u32", "u64":
				bits := 32
				if strings.HasSuffix(b, "64") {
					bits = 64
				}
				return typeRange(&ir.T{Bits: bits, Signed: b[1] == 'i'})
			}
		}
	case "ite":
		l1, h1 := interval(t.Args[1], d+1)
		l2, h2 := interval(t.Args[2], d+1)
		if l1 == nil || l2 == nil {
			return nil, nil
		}
		return minB(l1, l2), maxB(h1, h2)
	case "+", "-":
		l1, h1 := interval(t.Args[0], d+1)
		l2, h2 := interval(t.Args[1], d+1)
		if l1 == nil || l2 == nil {
			return nil, nil
		}
		if t.Op == "+" {
			return new(big.Int).Add(l1, l2), new(big.Int).Add(h1, h2)
		}
		return new(big.Int).Sub(l1, h2), new(big.Int).Sub(h1, l2)
	case "*":
		l1, h1 := interval(t.Args[0], d+1)
		l2, h2 := interval(t.Args[1], d+1)
		if l1 == nil || l2 == nil {
			return nil, nil
		}
		ps := []*big.Int{new(big.Int).Mul(l1, l2), new(big.Int).Mul(l1, h2), new(big.Int).Mul(h1, l2), new(big.Int).Mul(h1, h2)}
		lo, hi = ps[0], ps[0]
		for _, p := range ps {
			lo, hi = minB(lo, p), maxB(hi, p)
		}
		return lo, hi
	case "mod":
		if t.Args[1].Op == "int" && t.Args[1].I.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(t.Args[1].I, big.NewInt(1))
		}
	case "var":
		// loop indices run below a length
		if strings.HasPrefix(t.Name, "i!") {
			return new(big.Int), maxLen
		}
	}
	return nil, nil
}

func minB(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}

// Wrap reduces an integer to the range of its machine type.
func Wrap(t *Term, ty *ir.T) *Term {
	if ty == nil || ty.K != ir.KInt || ty.Bits == 0 {
		return t
	}
	lo, hi := typeRange(ty)
	l, h := interval(t, 0)
	if l != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	size := new(big.Int).Lsh(big.NewInt(1), uint(ty.Bits))
	if t.Op == "int" {
		v := new(big.Int).Mod(t.I, size)
		if v.Cmp(hi) > 0 {
			v.Sub(v, size)
		}
		return smt.BigC(v)
	}
	off := smt.BigC(new(big.Int).Neg(lo))
	return smt.Sub(smt.Mod(smt.Add(t, off), smt.BigC(size)), off)
}

func (x *X) binary(st *State, op string, a, b Val, t *ir.T, at string) Val {
	switch op {
	case "==":
		return BoolV(x.equal(st, a, b, at))
	case "!=":
		return BoolV(smt.Not(x.equal(st, a, b, at)))
	}
	if _, ok := a.(CatV); ok && op == "+" {
		return Cat(Part{Arg: a}, Part{Arg: b})
	}
	if _, ok := b.(CatV); ok && op == "+" {
		return Cat(Part{Arg: a}, Part{Arg: b})
	}
	if h, ok := x.H.(interface {
		Binary(x *X, st *State, op string, a, b Val, t *ir.T, at string) (Val, bool)
	}); ok {
		if v, ok := h.Binary(x, st, op, a, b, t, at); ok {
			return v
		}
	}
	ta, tb := x.term(a, at), x.term(b, at)
	if ta.Sort == smt.Str && op == "+" {
		return Cat(Part{Arg: a}, Part{Arg: b})
	}
	if ta.Sort != tb.Sort {
		bail(at, "operands of %s: %s and %s", op, ta.Sort, tb.Sort)
	}
	if ta.Sort == smt.Str {
		bail(at, "string ordering")
	}
	switch op {
	case "<":
		return BoolV(smt.Lt(ta, tb))
	case "<=":
		return BoolV(smt.Le(ta, tb))
	case ">":
		return BoolV(smt.Lt(tb, ta))
	case ">=":
		return BoolV(smt.Le(tb, ta))
	}
	if ta.Sort == smt.Bool {
		switch op {
		case "&", "&&":
			return BoolV(smt.And(ta, tb))
		case "|", "||":
			return BoolV(smt.Or(ta, tb))
		}
	}
	if ta.Sort != smt.Int {
		bail(at, "operator %s on %s", op, ta.Sort)
	}
	var r *Term
	switch op {
	case "+":
		r = smt.Add(ta, tb)
	case "-":
		r = smt.Sub(ta, tb)
	case "*":
		r = smt.Mul(ta, tb)
	case "/", "%":
		if tb.Op != "int" || tb.I.Sign() <= 0 {
			bail(at, "division by a non-constant")
		}
		if lo, _ := interval(ta, 0); lo != nil && lo.Sign() >= 0 {
			if op == "/" {
				r = smt.Div(ta, tb)
			} else {
				r = smt.Mod(ta, tb)
			}
		} else { // truncated division
			neg := smt.Lt(ta, smt.IntC(0))
			q := smt.Ite(neg, smt.Sub(smt.IntC(0), smt.Div(smt.Sub(smt.IntC(0), ta), tb)), smt.Div(ta, tb))
			if op == "/" {
				r = q
			} else {
				r = smt.Sub(ta, smt.Mul(q, tb))
			}
		}
	default:
		bail(at, "operator %s", op)
	}
	return TV{Wrap(r, t), t}
}

func (x *X) Expr(st *State, e ir.Expr) Val {
	switch e := e.(type) {
	case *ir.Lit:
		return litVal(e)
	case *ir.Nil:
		return NilV{}
	case *ir.Var:
		v, ok := st.Env[e.ID]
		if !ok {
			bail(e.At, "variable %s has no value", e.Name)
		}
		if p, ok := v.(PoisonV); ok {
			bail(e.At, "variable %s: %s", e.Name, p.Why)
		}
		return v
	case *ir.Global:
		if v, ok := st.Env["global:"+e.Name]; ok {
			return v
		}
		return x.global(st, e)
	case *ir.Sel:
		v := x.Expr(st, e.X)
		return x.sel(st, v, e)
	case *ir.Un:
		return x.unary(st, e)
	case *ir.Bin:
		if e.Op == "&&" || e.Op == "||" {
			a := x.boolT(st, x.Expr(st, e.X), e.At)
			cond := a
			if e.Op == "||" {
				cond = smt.Not(a)
			}
			if cond.IsFalse() {
				return BoolV(a)
			}
			var b *Term
			x.ifThen(st, cond, func(s *State) { b = x.boolT(s, x.Expr(s, e.Y), e.At) }, func(*State) {})
			if b == nil {
				b = smt.False
			}
			if e.Op == "&&" {
				return BoolV(smt.And(a, b))
			}
			return BoolV(smt.Or(a, b))
		}
		a := x.Expr(st, e.X)
		b := x.Expr(st, e.Y)
		return x.binary(st, e.Op, a, b, e.T, e.At)
	case *ir.Cond:
		c := x.boolT(st, x.Expr(st, e.C), e.At)
		var a, b Val
		x.ifThen(st, c, func(s *State) { a = x.Expr(s, e.A) }, func(s *State) { b = x.Expr(s, e.B) })
		switch {
		case a == nil:
			return b
		case b == nil:
			return a
		}
		return Merge(c, a, b)
	case *ir.Index:
		v := x.Expr(st, e.X)
		i := x.Expr(st, e.I)
		return x.index(st, v, i, e.At)
	case *ir.CommaOK:
		ix := e.X.(*ir.Index)
		v := x.Expr(st, ix.X)
		k := x.term(x.Expr(st, ix.I), e.At)
		val, has := x.lookup(st, v, k, e.At)
		return TupleV{val, BoolV(has)}
	case *ir.Slice:
		return x.slice(st, e)
	case *ir.Comp:
		return x.comp(st, e)
	case *ir.Conv:
		return x.conv(st, x.Expr(st, e.X), e.T, e.At)
	case *ir.Assert:
		v := x.Expr(st, e.X)
		c, b := x.matches(st, v, e.T, e.At)
		if e.OK {
			var r Val = b
			if c.IsFalse() {
				r = NilV{}
			}
			return TupleV{r, BoolV(c)}
		}
		x.oblige(st, c, e.At, "type assertion holds")
		return b
	case *ir.FuncLit:
		return FuncV{F: e.F, Name: e.F.Name}
	case *ir.Call:
		return x.call(st, e)
	case *ir.Unsupported:
		bail(e.At, "%s", e.Why)
	}
	bail(e.Pos(), "expression %T", e)
	return nil
}

func litVal(e *ir.Lit) Val {
	switch e.T.K {
	case ir.KBool:
		return TV{smt.B(e.B), e.T}
	case ir.KInt:
		return TV{smt.BigC(e.I), e.T}
	case ir.KFloat:
		if e.T.Bits == 32 {
			return TV{smt.F32C(float32(e.F)), e.T}
		}
		return TV{smt.F64C(e.F), e.T}
	case ir.KStr:
		return TV{smt.StrC(e.S), e.T}
	}
	bail(e.At, "literal of %s", e.T)
	return nil
}

func (x *X) global(st *State, e *ir.Global) Val {
	if v, ok := x.H.Global(x, e.Name, e.T); ok {
		return v
	}
	if strings.HasPrefix(e.Name, "func:") {
		n := e.Name[5:]
		if f, ok := x.Unit.Funcs[n]; ok {
			return FuncV{F: f, Name: n}
		}
		return FuncV{Name: n}
	}
	if g, ok := x.Unit.Globals[e.Name]; ok {
		if g.Init == nil {
			return x.Zero(g.T, e.At)
		}
		return x.Expr(st, g.Init)
	}
	bail(e.At, "package variable %s", e.Name)
	return nil
}

// Zero is the zero value of a type.
func (x *X) Zero(t *ir.T, at string) Val {
	switch t.K {
	case ir.KBool:
		return TV{smt.False, t}
	case ir.KInt:
		return TV{smt.IntC(0), t}
	case ir.KFloat:
		if t.Bits == 32 {
			return TV{smt.F32C(0), t}
		}
		return TV{smt.F64C(0), t}
	case ir.KStr:
		if t.Bytes {
			return TV{smt.StrC(""), t}
		}
		return TV{smt.StrC(""), t}
	case ir.KSlice:
		return Build{Nil: true}
	case ir.KPtr, ir.KIface, ir.KMap, ir.KFunc:
		return NilV{}
	case ir.KStruct:
		if h, ok := x.H.(interface {
			ZeroStruct(x *X, t *ir.T) (Val, bool)
		}); ok {
			if v, ok := h.ZeroStruct(x, t); ok {
				return v
			}
		}
		s := StructV{t.Name, map[string]Val{}}
		for _, f := range t.Fields {
			s.F[f.Name] = x.Zero(f.T, at)
		}
		return s
	}
	bail(at, "zero value of %s", t)
	return nil
}

func (x *X) sel(st *State, v Val, e *ir.Sel) Val {
	switch u := v.(type) {
	case UnionV:
		var out UnionV
		for _, a := range u {
			if _, isNil := a.V.(NilV); isNil {
				x.oblige(st, smt.Not(a.G), e.At, "nil dereference ."+e.Name)
				continue
			}
			out = append(out, Alt{a.G, x.sel(st, a.V, e)})
		}
		return foldAlts(out)
	case StructV:
		if f, ok := u.F[e.Name]; ok {
			return f
		}
		// embedded pseudo-field or zero
		for _, tf := range fieldsOf(x, u.Ty) {
			if tf.Name == e.Name {
				return x.Zero(tf.T, e.At)
			}
		}
	case ObjV:
		return x.sel(st, st.Env[u.ID], e)
	case NilV:
		x.oblige(st, smt.False, e.At, "nil dereference ."+e.Name)
		st.Alive = smt.False
		return PoisonV{"nil dereference"}
	case TypedV:
		return x.sel(st, u.V, e)
	}
	if f, ok := x.H.Field(x, st, v, e.Name, e.At); ok {
		return f
	}
	bail(e.At, "field %s of %s (%T)", e.Name, Str(v), v)
	return nil
}

func fieldsOf(x *X, name string) []ir.Field {
	if t, ok := x.Unit.Types[name]; ok {
		if t.K == ir.KPtr {
			t = t.Elem
		}
		return t.Fields
	}
	return nil
}

func (x *X) unary(st *State, e *ir.Un) Val {
	switch e.Op {
	case "&":
		switch y := e.X.(type) {
		case *ir.Var:
			if v, ok := st.Env[y.ID]; ok {
				if _, ok := v.(ObjV); ok {
					return v
				}
			}
			return PtrV{y.ID}
		}
		v := x.Expr(st, e.X)
		if h, ok := x.H.(interface {
			AddrOf(x *X, v Val) (Val, bool)
		}); ok {
			if r, ok := h.AddrOf(x, v); ok {
				return r
			}
		}
		bail(e.At, "address of %T", e.X)
	case "*":
		v := x.Expr(st, e.X)
		switch p := v.(type) {
		case PtrV:
			return st.Env[p.ID]
		case StructV, ObjV:
			return v
		}
		if h, ok := x.H.(interface {
			Deref(x *X, st *State, v Val, at string) (Val, bool)
		}); ok {
			if r, ok := h.Deref(x, st, v, e.At); ok {
				return r
			}
		}
		bail(e.At, "dereference of %s", Str(v))
	}
	v := x.Expr(st, e.X)
	switch e.Op {
	case "!":
		return BoolV(smt.Not(x.boolT(st, v, e.At)))
	case "-":
		t := x.term(v, e.At)
		if t.Sort == smt.Int {
			return TV{Wrap(smt.Sub(smt.IntC(0), t), e.T), e.T}
		}
		return TV{smt.FNeg(t), e.T}
	case "+":
		return v
	}
	bail(e.At, "operator %s", e.Op)
	return nil
}

func (x *X) index(st *State, v, i Val, at string) Val {
	switch u := v.(type) {
	case ListV:
		k := x.term(i, at)
		x.oblige(st, smt.And(smt.Le(smt.IntC(0), k), smt.Lt(k, u.Len)), at, "index in range")
		return u.At(k)
	case TV:
		if u.T.Sort == smt.Str {
			k := x.term(i, at)
			x.oblige(st, smt.And(smt.Le(smt.IntC(0), k), smt.Lt(k, model.BLen(u.T))), at, "index in range")
			return TV{model.ByteAt(u.T, k), &ir.T{K: ir.KInt, Bits: 8, Name: "uint8"}}
		}
	case ConstMap, MapV, ObjV, SetV:
		val, has := x.lookup(st, v, x.term(i, at), at)
		_ = has
		return val
	case UnionV:
		var out UnionV
		for _, a := range u {
			out = append(out, Alt{a.G, x.index(st, a.V, i, at)})
		}
		return foldAlts(out)
	case TypedV:
		return x.index(st, u.V, i, at)
	}
	if h, ok := x.H.(interface {
		Index(x *X, v, i Val) (Val, bool)
	}); ok {
		if r, ok := h.Index(x, v, i); ok {
			return r
		}
	}
	bail(at, "index of %s (%T)", Str(v), v)
	return nil
}

func (x *X) lookup(st *State, v Val, k *Term, at string) (Val, *Term) {
	switch u := v.(type) {
	case ConstMap:
		if u.Has != nil {
			return PoisonV{"value of a contract map"}, u.Has(k)
		}
		has := smt.False
		var val Val = PoisonV{"absent key"}
		for i := len(u.Keys) - 1; i >= 0; i-- {
			c := smt.Eq(u.Keys[i], k)
			has = smt.Or(has, c)
			if u.Vals[i] != nil {
				if _, ok := val.(PoisonV); ok {
					val = u.Vals[i] // refined by the guard of has; zero otherwise
					if len(u.Keys) > 1 || !c.IsTrue() {
						val = PoisonV{"value of a map lookup"}
					}
				}
			}
		}
		if len(u.Keys) > 0 {
			if b, ok := u.Vals[0].(TV); ok && b.T.Sort == smt.Bool {
				r := smt.False
				for i := range u.Keys {
					r = smt.Or(r, smt.And(smt.Eq(u.Keys[i], k), u.Vals[i].(TV).T))
				}
				val = BoolV(r)
			}
		}
		if k.IsConst() {
			for i := range u.Keys {
				if u.Keys[i] == k {
					return u.Vals[i], smt.True
				}
			}
		}
		// pointers to scalars: one alternative per key, nil otherwise
		var alts UnionV
		seen := smt.False
		for i := range u.Keys {
			o, ok := u.Vals[i].(OpaqueV)
			if !ok || o.Kind != "optptr" || !u.Keys[i].IsConst() {
				return val, has
			}
			c := smt.Eq(u.Keys[i], k)
			alts = append(alts, Alt{smt.And(c, smt.Not(seen)), o})
			seen = smt.Or(seen, c)
		}
		if len(alts) > 0 {
			return append(alts, Alt{smt.Not(seen), NilV{}}), has
		}
		return val, has
	case SetV:
		return BoolV(u.Member(k)), u.Member(k)
	case ObjV:
		return x.lookup(st, st.Env[u.ID], k, at)
	case MapV:
		j := smt.Fresh("q", smt.Int)
		key := u.Key(j)
		return PoisonV{"value of a map lookup"}, smt.Exists(j, smt.IntC(0), u.Len, smt.Eq(x.term(key, at), k))
	case NilV:
		return PoisonV{"value of a nil map"}, smt.False
	case TypedV:
		return x.lookup(st, u.V, k, at)
	}
	bail(at, "lookup in %s (%T)", Str(v), v)
	return nil, nil
}

func (x *X) slice(st *State, e *ir.Slice) Val {
	v := x.Expr(st, e.X)
	lo := smt.IntC(0)
	if e.Lo != nil {
		lo = x.term(x.Expr(st, e.Lo), e.At)
	}
	var hi *Term
	n := x.lenOf(st, v, e.At)
	hi = n
	if e.Hi != nil {
		hi = x.term(x.Expr(st, e.Hi), e.At)
	}
	x.oblige(st, smt.And(smt.Le(smt.IntC(0), lo), smt.Le(lo, hi), smt.Le(hi, n)), e.At, "slice bounds in range")
	switch u := v.(type) {
	case TV:
		if lo.Op == "int" && lo.I.Sign() == 0 && hi == n {
			return u
		}
		return TV{model.Substr(u.T, lo, hi), u.Y}
	case ListV:
		return ListV{Len: smt.Sub(hi, lo), At: func(i *Term) Val { return u.At(smt.Add(lo, i)) }}
	}
	bail(e.At, "slice of %s", Str(v))
	return nil
}

func (x *X) comp(st *State, e *ir.Comp) Val {
	t := e.T
	if t.K == ir.KPtr {
		t = t.Elem
	}
	switch t.K {
	case ir.KStruct:
		s := StructV{t.Name, map[string]Val{}}
		for _, f := range t.Fields {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(Unsup); !ok {
							panic(r)
						}
						s.F[f.Name] = PoisonV{"zero of " + f.Name}
					}
				}()
				s.F[f.Name] = x.Zero(f.T, e.At)
			}()
		}
		for i, n := range e.Flds {
			s.F[n] = x.Expr(st, e.Vals[i])
		}
		return s
	case ir.KMap:
		m := ConstMap{}
		for i := range e.Keys {
			m.Keys = append(m.Keys, x.term(x.Expr(st, e.Keys[i]), e.At))
			m.Vals = append(m.Vals, x.Expr(st, e.Vals[i]))
		}
		return m
	case ir.KSlice:
		var vs []Val
		for _, y := range e.Vals {
			vs = append(vs, x.Expr(st, y))
		}
		b := Build{}
		for _, v := range vs {
			b.Items = append(b.Items, Item{G: smt.True, V: v})
		}
		return b
	case ir.KStr: // []byte{...}
		var bs []byte
		for _, y := range e.Vals {
			k := x.term(x.Expr(st, y), e.At)
			if k.Op != "int" {
				bail(e.At, "byte slice of variables")
			}
			bs = append(bs, byte(k.I.Int64()))
		}
		return TV{smt.StrC(string(bs)), t}
	}
	bail(e.At, "composite of %s", t)
	return nil
}

func (x *X) conv(st *State, v Val, t *ir.T, at string) Val {
	if h, ok := x.H.(interface {
		Conv(x *X, st *State, v Val, t *ir.T, at string) (Val, bool)
	}); ok {
		if r, ok := h.Conv(x, st, v, t, at); ok {
			return r
		}
	}
	switch u := v.(type) {
	case TV:
		switch t.K {
		case ir.KInt:
			switch u.T.Sort {
			case smt.Int:
				return TV{Wrap(u.T, t), t}
			}
		case ir.KStr:
			if u.T.Sort == smt.Str {
				return TV{u.T, t}
			}
			if u.T.Sort == smt.Int {
				return OpaqueV{Kind: "runestr", T: u.T}
			}
		case ir.KBool:
			if u.T.Sort == smt.Bool {
				return TV{u.T, t}
			}
		case ir.KFloat:
			if t.Bits == 32 && u.T.Sort == smt.F32 || t.Bits == 64 && u.T.Sort == smt.F64 {
				return TV{u.T, t}
			}
			if t.Bits == 32 && u.T.Sort == smt.F64 && u.T.IsConst() {
				return TV{smt.F32C(float32(math.Float64frombits(u.T.F))), t}
			}
			if t.Bits == 64 && u.T.Sort == smt.F32 && u.T.IsConst() {
				return TV{smt.F64C(float64(f32of(u.T))), t}
			}
		case ir.KIface:
			return v
		}
		bail(at, "conversion of %s to %s", u.T.Sort, t)
	case Build, NilV, ListV:
		if t.K == ir.KSlice {
			if t.Name != "" && !strings.HasPrefix(t.Name, "[]") {
				return TypedV{t.Name, v}
			}
			return v
		}
		return v
	case UnionV:
		var out UnionV
		for _, a := range u {
			out = append(out, Alt{a.G, x.conv(st, a.V, t, at)})
		}
		return foldAlts(out)
	}
	return v
}

func f32of(t *Term) float32 {
	v, _ := smt.Eval(t, nil, nil)
	return v.(float32)
}

// NewObj allocates a heap object.
func (x *X) NewObj(st *State, v Val) ObjV {
	x.nobj++
	id := fmt.Sprintf("obj#%d", x.nobj)
	st.Env[id] = v
	return ObjV{id}
}

func (x *X) call(st *State, e *ir.Call) Val {
	switch e.Name {
	case "zero":
		return x.Zero(e.TArg, e.At)
	case "make":
		for _, a := range e.Args {
			n := x.term(x.Expr(st, a), e.At)
			x.oblige(st, smt.Le(smt.IntC(0), n), e.At, "make size non-negative")
		}
		switch e.TArg.K {
		case ir.KMap:
			return x.NewObj(st, SetV{Base: "empty" + fmt.Sprint(x.nobj), Has: func(*Term) *Term { return smt.False }})
		case ir.KSlice:
			if len(e.Args) > 0 {
				n := x.term(x.Expr(st, e.Args[0]), e.At)
				if n.Op == "int" && n.I.Sign() == 0 {
					return Build{}
				}
			}
		}
		bail(e.At, "make %s", e.TArg)
	case "new":
		return x.NewObj(st, x.Zero(e.TArg, e.At))
	case "len":
		v := x.Expr(st, e.Args[0])
		return IntV(x.lenOf(st, v, e.At))
	case "cap":
		bail(e.At, "cap")
	case "append":
		return x.appendCall(st, e)
	case "panic":
		x.Expr(st, e.Args[0])
		x.oblige(st, smt.False, e.At, "panic not reached")
		st.Alive = smt.False
		return PoisonV{"panic"}
	case "print", "println":
		return TupleV{}
	case "methodvalue":
		return FuncV{Name: e.TArg.Name, Recv: x.Expr(st, e.Recv), F: x.Unit.Funcs[e.TArg.Name]}
	case "delete", "copy", "close", "recover", "complex", "real", "imag", "min", "max", "clear":
		bail(e.At, "builtin %s", e.Name)
	}
	var recv Val
	name := e.Name
	var fv *FuncV
	if name == "" {
		v := x.Expr(st, e.Fn)
		f, ok := v.(FuncV)
		if !ok {
			bail(e.At, "call of %s", Str(v))
		}
		fv = &f
		name = f.Name
		recv = f.Recv
	} else if e.Recv != nil {
		recv = x.Expr(st, e.Recv)
	}
	var args []Val
	for _, a := range e.Args {
		args = append(args, x.Expr(st, a))
	}
	if st.Alive.IsFalse() {
		return PoisonV{"unreachable"}
	}
	return x.Invoke(st, name, fv, recv, args, e)
}

// Invoke calls a function by name (or value) on evaluated arguments.
func (x *X) Invoke(st *State, name string, fv *FuncV, recv Val, args []Val, e *ir.Call) Val {
	if u, ok := recv.(UnionV); ok {
		// split on the receiver's alternatives
		var out UnionV
		for i := range u {
			a := u[i]
			if _, isNil := a.V.(NilV); isNil {
				x.oblige(st, smt.Not(a.G), e.At, "nil receiver of "+name)
				continue
			}
			var v Val
			x.ifThen(st, a.G, func(s *State) { v = x.Invoke(s, name, nil, a.V, args, e) }, func(*State) {})
			if v != nil {
				out = append(out, Alt{a.G, v})
			}
		}
		return foldAlts(out)
	}
	if v, ok := x.H.Call(x, st, name, recv, args, e); ok {
		return v
	}
	var f *ir.Func
	if fv != nil && fv.F != nil {
		f = fv.F
	} else if g, ok := x.Unit.Funcs[name]; ok {
		f = g
	} else if recv != nil {
		// interface method on a known dynamic type
		if tn := x.H.TypeOf(recv); tn != "" {
			m := name[strings.LastIndexByte(name, '.')+1:]
			for _, full := range []string{"(" + tn + ")." + m, "(" + strings.TrimPrefix(tn, "*") + ")." + m} {
				if g, ok := x.Unit.Funcs[full]; ok {
					f = g
					name = full
				}
			}
		}
	}
	if f == nil {
		bail(e.At, "no contract for %s", name)
	}
	if e != nil && f.Variadic {
		n := len(f.Params) - 1
		if !e.Spread {
			b := Build{}
			for _, v := range args[n:] {
				b.Items = append(b.Items, Item{G: smt.True, V: v})
			}
			args = append(append([]Val{}, args[:n]...), b)
		}
	}
	return x.Inline(st, f, name, recv, args)
}

// Inline executes the body of f.
func (x *X) Inline(st *State, f *ir.Func, name string, recv Val, args []Val) Val {
	for _, s := range x.stack {
		if s == name {
			bail(f.At, "recursive call of %s", name)
		}
	}
	if len(x.stack) > 24 {
		bail(f.At, "call depth")
	}
	x.Funcs[name] = true
	x.stack = append(x.stack, name)
	x.ctx = append(x.ctx, st.Alive)
	defer func() { x.stack = x.stack[:len(x.stack)-1]; x.ctx = x.ctx[:len(x.ctx)-1] }()
	pre := st.Env
	s := &State{Env: cloneEnv(pre), Alive: smt.True}
	if f.Recv != nil {
		s.Env[f.Recv.ID] = recv
	}
	if len(args) != len(f.Params) {
		bail(f.At, "%d arguments for %s", len(args), name)
	}
	for i, p := range f.Params {
		s.Env[p.ID] = args[i]
	}
	named := false
	for _, r := range f.Results {
		if r.Name != "" {
			named = true
			s.Env[r.ID] = x.Zero(r.T, f.At)
		}
	}
	x.Stmt(s, f.Body)
	if !s.Alive.IsFalse() {
		s.Exits = append(s.Exits, Exit{Kind: Ret, G: s.Alive, V: bareRet{}, Env: s.Env})
	}
	var rets []Exit
	thrown := smt.False
	for _, ex := range s.Exits {
		if ex.Kind == Thr {
			ex.G = smt.And(st.Alive, ex.G)
			thrown = smt.Or(thrown, ex.G)
			st.Exits = append(st.Exits, ex)
			continue
		}
		if _, bare := ex.V.(bareRet); bare {
			if named {
				if ex.Env == nil {
					bail(f.At, "bare return in a loop")
				}
				t := TupleV{}
				for _, r := range f.Results {
					t = append(t, ex.Env[r.ID])
				}
				if len(t) == 1 {
					ex.V = t[0]
				} else {
					ex.V = t
				}
			} else {
				ex.V = TupleV{}
			}
		}
		rets = append(rets, ex)
	}
	st.Alive = smt.And(st.Alive, smt.Not(thrown))
	if len(rets) == 0 {
		st.Alive = smt.False
		return PoisonV{"no return"}
	}
	res := rets[len(rets)-1].V
	env := rets[len(rets)-1].envFor(pre)
	iface := len(f.Results) == 1 && f.Results[0].T != nil && f.Results[0].T.K == ir.KIface && len(rets) > 1
	if iface {
		// keep the paths apart: their guards are exclusive
		var u UnionV
		for _, r := range rets {
			u = addAlts(u, r.G, r.V)
		}
		res = u.norm()
	}
	for i := len(rets) - 2; i >= 0; i-- {
		if !iface {
			res = Merge(rets[i].G, rets[i].V, res)
		}
		env = mergeKeys(rets[i].G, rets[i].envFor(pre), env, pre)
	}
	out := cloneEnv(pre)
	for k := range pre {
		if v, ok := env[k]; ok {
			out[k] = v
		}
	}
	// objects allocated inside may escape through the result
	for k, v := range env {
		if strings.HasPrefix(k, "obj#") {
			if _, ok := pre[k]; !ok {
				out[k] = v
			}
		}
	}
	st.Env = out
	return res
}

func (ex Exit) envFor(pre map[string]Val) map[string]Val {
	if ex.Env != nil {
		return ex.Env
	}
	e := cloneEnv(pre)
	for k := range ex.Mods {
		if _, ok := e[k]; ok {
			e[k] = PoisonV{"modified before a return inside a loop"}
		}
	}
	return e
}

func mergeKeys(c *Term, a, b, pre map[string]Val) map[string]Val {
	out := map[string]Val{}
	for k := range pre {
		out[k] = Merge(c, a[k], b[k])
	}
	for _, m := range []map[string]Val{a, b} {
		for k, v := range m {
			if strings.HasPrefix(k, "obj#") {
				if _, ok := pre[k]; !ok {
					out[k] = v
				}
			}
		}
	}
	return out
}

func (x *X) appendCall(st *State, e *ir.Call) Val {
	base := x.Expr(st, e.Args[0])
	var vs []Val
	for _, a := range e.Args[1:] {
		vs = append(vs, x.Expr(st, a))
	}
	return x.appendTo(st, base, vs, e.Spread, e.At)
}

func (x *X) appendTo(st *State, base Val, vs []Val, spread bool, at string) Val {
	var b Build
	switch u := base.(type) {
	case Build:
		b = u
	case NilV:
		b = Build{Nil: true}
	case TypedV:
		return TypedV{u.Ty, x.appendTo(st, u.V, vs, spread, at)}
	case UnionV:
		var out UnionV
		for _, a := range u {
			out = append(out, Alt{a.G, x.appendTo(st, a.V, vs, spread, at)})
		}
		return foldAlts(out)
	default:
		bail(at, "append to %s (%T)", Str(base), base)
	}
	items := append([]Item{}, b.Items...)
	if spread {
		switch u := vs[0].(type) {
		case Build:
			if u.Base != "" {
				bail(at, "append of an open list")
			}
			items = append(items, u.Items...)
		case TypedV:
			if w, ok := u.V.(Build); ok && w.Base == "" {
				items = append(items, w.Items...)
			} else {
				bail(at, "append of %s", Str(vs[0]))
			}
		case NilV:
		default:
			bail(at, "append of %s...", Str(vs[0]))
		}
	} else {
		for _, v := range vs {
			items = append(items, Item{G: smt.True, V: v})
		}
	}
	return Build{Base: b.Base, Items: items}
}

// Stack is the chain of functions being inlined.
func (x *X) Stack() []string { return x.stack }
