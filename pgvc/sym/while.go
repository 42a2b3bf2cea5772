package sym

import (
	"sort"
	"sync"

	"pgvc/ir"
	"pgvc/smt"
)

// Cand is a candidate invariant of a loop: a formula over the values of the
// loop's variables.
type Cand struct {
	Name string
	F    func(env map[string]Val) *Term
}

// Inventor proposes invariants and variants for loops that no closed form
// fits.
type Inventor interface {
	// Havoc is an arbitrary value like v, with the facts of its type.
	Havoc(x *X, v Val) (Val, []*Term, bool)
	// Candidates over the variables in scope; vars may change in the loop.
	Candidates(x *X, pre map[string]Val, vars []string) (inv []Cand, variant []Cand)
	// Decide proves goal from the hypotheses and the facts so far.
	Decide(x *X, hyps []*Term, goal *Term) bool
}

// whileStmt: the largest inductive subset of the candidates is the loop's
// invariant (entry and preservation become obligations, as does the decrease
// of a variant); after the loop it holds with the negated condition.
func (x *X) whileStmt(st *State, s *ir.For, h Inventor) {
	x.Stmt(st, s.Init)
	pre := st.Env
	mods := assigned(s.Body)
	for k := range assigned(s.Post) {
		mods[k] = true
	}
	for k := range assigned(s.C) {
		mods[k] = true
	}
	var vars []string
	for k := range mods {
		if _, ok := pre[k]; ok {
			vars = append(vars, k)
		}
	}
	sort.Strings(vars)
	outer := st.Alive
	head := cloneEnv(pre)
	for _, k := range vars {
		v, fs, ok := h.Havoc(x, pre[k])
		if !ok {
			bail(s.At, "loop changes %s", Str(pre[k]))
		}
		head[k] = v
		for _, f := range fs {
			x.fact(f)
		}
	}
	inv, variants := h.Candidates(x, pre, vars)
	hyp := x.Hyp(st)
	// those of cs that hold of env under the hypotheses
	hold := func(cs []Cand, hy []*Term, env map[string]Val) (ok []Cand) {
		goals, res := make([]*Term, len(cs)), make([]bool, len(cs))
		for i, c := range cs {
			goals[i] = c.F(env)
		}
		var wg sync.WaitGroup
		sem := make(chan bool, 6)
		for i := range cs {
			i := i
			wg.Add(1)
			sem <- true
			go func() {
				defer wg.Done()
				res[i] = h.Decide(x, hy, goals[i])
				<-sem
			}()
		}
		wg.Wait()
		for i, c := range cs {
			if res[i] {
				ok = append(ok, c)
			}
		}
		return
	}
	keep := hold(inv, []*Term{hyp}, pre)
	n := &State{Env: cloneEnv(head), Alive: smt.True}
	c := smt.True
	x.ctx = append(x.ctx, outer)
	nSafe, nLoop := len(x.Safety), len(x.LoopObligs)
	if s.C != nil {
		c = x.boolT(n, x.Expr(n, s.C), s.At)
	}
	if len(n.Exits) > 0 {
		bail(s.At, "loop condition throws")
	}
	x.ctx = append(x.ctx, c)
	b := &State{Env: cloneEnv(n.Env), Alive: smt.True}
	x.Stmt(b, s.Body)
	x.joinConts(b)
	if s.Post != nil && !b.Alive.IsFalse() {
		x.Stmt(b, s.Post)
	}
	x.ctx = x.ctx[:len(x.ctx)-2]
	all := func(env map[string]Val) *Term {
		t := smt.True
		for _, k := range keep {
			t = smt.And(t, k.F(env))
		}
		return t
	}
	back := func() []*Term { return []*Term{hyp, all(head), c, b.Alive} }
	for again := true; again; {
		again = false
		if !b.Alive.IsFalse() {
			ok := hold(keep, back(), b.Env)
			again = len(ok) < len(keep)
			keep = ok
		}
	}
	for _, k := range keep {
		x.LoopObligs = append(x.LoopObligs,
			Oblig{Hyp: hyp, Goal: k.F(pre), At: s.At, What: "invariant on entry: " + k.Name},
			Oblig{Hyp: smt.And(back()...), Goal: k.F(b.Env), At: s.At, What: "invariant preserved: " + k.Name})
	}
	if !b.Alive.IsFalse() {
		done := false
		for _, v := range variants {
			g := smt.And(smt.Le(smt.IntC(0), v.F(head)), smt.Lt(v.F(b.Env), v.F(head)))
			if h.Decide(x, back(), g) {
				x.LoopObligs = append(x.LoopObligs, Oblig{Hyp: smt.And(back()...), Goal: g, At: s.At, What: "loop terminates: " + v.Name + " decreases"})
				done = true
				break
			}
		}
		if !done {
			bail(s.At, "no variant found for the loop")
		}
	}
	x.Loops++
	i := all(head)
	for k := nSafe; k < len(x.Safety); k++ {
		x.Safety[k].Hyp = smt.And(i, x.Safety[k].Hyp)
	}
	x.fact(smt.Implies(hyp, i))
	// what is recorded so far is about any iteration, what follows about the
	// last: its facts must not reach the former
	so := append([]*Term{}, x.Facts...)
	for k := nSafe; k < len(x.Safety); k++ {
		if x.Safety[k].Facts == nil {
			x.Safety[k].Facts = so
		}
	}
	for k := nLoop; k < len(x.LoopObligs); k++ {
		if x.LoopObligs[k].Facts == nil {
			x.LoopObligs[k].Facts = so
		}
	}
	for _, e := range b.Exits {
		ne := e
		ne.G = smt.And(outer, c, e.G)
		st.Exits = append(st.Exits, ne)
	}
	env := n.Env
	alive := smt.And(outer, smt.Not(c))
	for _, j := range b.brk {
		g := smt.And(outer, c, j.G)
		env = mergeEnv(g, j.Env, env)
		alive = smt.OrF(alive, g)
	}
	// the state at the head is that of the last iteration
	last := smt.Not(c)
	for _, e := range b.Exits {
		last = smt.Or(last, smt.And(c, e.G))
	}
	for _, j := range b.brk {
		last = smt.Or(last, smt.And(c, j.G))
	}
	x.fact(smt.Implies(hyp, last))
	out := cloneEnv(pre)
	for k := range pre {
		if v, ok := env[k]; ok {
			out[k] = v
		}
	}
	st.Env, st.Alive = out, alive
}
