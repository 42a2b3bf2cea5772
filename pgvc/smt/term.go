// Package smt: hash-consed first-order terms with simplifying constructors,
// an SMT-LIB printer, a concrete evaluator and solver drivers.
package smt

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"
	"sync"
)

type Sort string

const (
	Bool Sort = "Bool"
	Int  Sort = "Int"
	Str  Sort = "Str" // byte strings (Go strings, bytes), uninterpreted
	Ref  Sort = "Ref" // message references, uninterpreted
	F32  Sort = "F32"
	F64  Sort = "F64"
)

// Term is immutable and hash-consed.
type Term struct {
	ID   int
	Op   string // "true","false","int","str","fp","var","app","and","or","not","ite","=","<","<=","+","-","*","div","mod","fp.lt","fp.leq","fp.eq","fp.isNaN","forall","exists"
	Name string // var/app name, string literal
	Args []*Term
	Sort Sort
	I    *big.Int
	F    uint64 // fp bits
	// bounded quantifiers: Args = [var, lo, hi, body]
	free []*Term // free variables (Op=="var")
}

var (
	mu    sync.Mutex
	table = map[string]*Term{}
	next  = 1
)

func key(t *Term) string {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(string(t.Sort))
	b.WriteByte('|')
	b.WriteString(t.Name)
	b.WriteByte('|')
	if t.I != nil {
		b.WriteString(t.I.String())
	}
	if t.Op == "fp" {
		fmt.Fprintf(&b, "%x", t.F)
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.ID)
	}
	return b.String()
}

func mk(t *Term) *Term {
	k := key(t)
	mu.Lock()
	defer mu.Unlock()
	if x, ok := table[k]; ok {
		return x
	}
	t.ID = next
	next++
	// free vars
	if t.Op == "var" {
		t.free = []*Term{t}
	} else {
		seen := map[*Term]bool{}
		for i, a := range t.Args {
			if (t.Op == "forall" || t.Op == "exists") && i == 0 {
				continue
			}
			for _, v := range a.free {
				if (t.Op == "forall" || t.Op == "exists") && i == 3 && v == t.Args[0] {
					continue
				}
				if !seen[v] {
					seen[v] = true
					t.free = append(t.free, v)
				}
			}
		}
	}
	table[k] = t
	return t
}

// FreeVars returns the variables free in t.
func (t *Term) FreeVars() []*Term { return t.free }

var (
	True  = mk(&Term{Op: "true", Sort: Bool})
	False = mk(&Term{Op: "false", Sort: Bool})
)

func B(b bool) *Term {
	if b {
		return True
	}
	return False
}
func IntC(i int64) *Term    { return mk(&Term{Op: "int", Sort: Int, I: big.NewInt(i)}) }
func BigC(i *big.Int) *Term { return mk(&Term{Op: "int", Sort: Int, I: new(big.Int).Set(i)}) }
func StrC(s string) *Term   { return mk(&Term{Op: "str", Sort: Str, Name: s}) }
func F32C(f float32) *Term  { return mk(&Term{Op: "fp", Sort: F32, F: uint64(math.Float32bits(f))}) }
func F64C(f float64) *Term  { return mk(&Term{Op: "fp", Sort: F64, F: math.Float64bits(f)}) }
func Var(n string, s Sort) *Term {
	return mk(&Term{Op: "var", Name: n, Sort: s})
}

var freshN = 0

func Fresh(prefix string, s Sort) *Term {
	mu.Lock()
	freshN++
	n := freshN
	mu.Unlock()
	return Var(fmt.Sprintf("%s!%d", prefix, n), s)
}

func (t *Term) IsTrue() bool  { return t == True }
func (t *Term) IsFalse() bool { return t == False }
func (t *Term) IsConst() bool {
	switch t.Op {
	case "true", "false", "int", "str", "fp":
		return true
	}
	return false
}

// App applies an (uninterpreted or library) function; folded when all
// arguments are constants and the function has an evaluator.
func App(name string, s Sort, args ...*Term) *Term {
	if len(args) > 0 {
		all := true
		for _, a := range args {
			if !a.IsConst() {
				all = false
				break
			}
		}
		if all {
			if f, ok := Funcs[BaseName(name)]; ok && f.Eval != nil {
				vs := make([]any, len(args))
				for i, a := range args {
					vs[i] = a.constVal()
				}
				if r := f.Eval(name, vs); r != nil {
					return fromVal(r, s)
				}
			}
		}
	}
	return mk(&Term{Op: "app", Name: name, Sort: s, Args: args})
}

// BaseName strips a parameter suffix: "rematch#^a$" -> "rematch".
func BaseName(n string) string {
	if i := strings.IndexByte(n, '#'); i >= 0 {
		return n[:i]
	}
	return n
}

// Func describes a library function shared by specifications and code.
type Func struct {
	Eval   func(name string, args []any) any // nil result: cannot fold
	Axioms func(name string) []string        // SMT-LIB axioms over the printed symbol
}

var Funcs = map[string]*Func{}

func (t *Term) constVal() any {
	switch t.Op {
	case "true":
		return true
	case "false":
		return false
	case "int":
		return t.I
	case "str":
		return t.Name
	case "fp":
		if t.Sort == F32 {
			return math.Float32frombits(uint32(t.F))
		}
		return math.Float64frombits(t.F)
	}
	panic("not const")
}

func fromVal(v any, s Sort) *Term {
	switch x := v.(type) {
	case bool:
		return B(x)
	case *big.Int:
		return BigC(x)
	case int:
		return IntC(int64(x))
	case int64:
		return IntC(x)
	case string:
		return StrC(x)
	case float32:
		return F32C(x)
	case float64:
		return F64C(x)
	}
	panic(fmt.Sprintf("fromVal %T", v))
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "forall":
		return mkq("exists", a.Args[0], a.Args[1], a.Args[2], Not(a.Args[3]))
	case "exists":
		return mkq("forall", a.Args[0], a.Args[1], a.Args[2], Not(a.Args[3]))
	}
	return mk(&Term{Op: "not", Sort: Bool, Args: []*Term{a}})
}

func nary(op string, unit, zero *Term, as []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == unit {
			return true
		}
		if a == zero {
			return false
		}
		if a.Op == op {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if seen[a] {
			return true
		}
		if seen[Not(a)] {
			return false
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return mk(&Term{Op: op, Sort: Bool, Args: out})
}

func And(as ...*Term) *Term { return nary("and", True, False, as) }
func Or(as ...*Term) *Term  { return nary("or", False, True, as) }

// OrF is the disjunction of two conjunctions with the common part taken out.
func OrF(a, b *Term) *Term {
	if a == b || b.IsFalse() {
		return a
	}
	if a.IsFalse() {
		return b
	}
	cs := func(t *Term) []*Term {
		if t.Op == "and" {
			return t.Args
		}
		return []*Term{t}
	}
	in := map[*Term]bool{}
	for _, t := range cs(a) {
		in[t] = true
	}
	var com, ra, rb []*Term
	com2 := map[*Term]bool{}
	for _, t := range cs(b) {
		if in[t] {
			com = append(com, t)
			com2[t] = true
		} else {
			rb = append(rb, t)
		}
	}
	for _, t := range cs(a) {
		if !com2[t] {
			ra = append(ra, t)
		}
	}
	x, y := And(ra...), And(rb...)
	if x == Not(y) {
		return And(com...)
	}
	return And(append(com, Or(x, y))...)
}

func Implies(a, b *Term) *Term {
	return Or(Not(a), b)
}
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort == Bool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	return mk(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
}

func Eq(a, b *Term) *Term {
	if a == b && a.Sort != F32 && a.Sort != F64 {
		return True
	}
	if a.Sort == F32 || a.Sort == F64 {
		if a.IsConst() && b.IsConst() {
			return B(toF(a) == toF(b))
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return mk(&Term{Op: "fp.eq", Sort: Bool, Args: []*Term{a, b}})
	}
	if a.IsConst() && b.IsConst() {
		return False // distinct hash-consed constants
	}
	if a.Sort == Bool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %v %v", a.Sort, b.Sort, a, b))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return mk(&Term{Op: "=", Sort: Bool, Args: []*Term{a, b}})
}

func toF(t *Term) float64 {
	if t.Sort == F32 {
		return float64(math.Float32frombits(uint32(t.F)))
	}
	return math.Float64frombits(t.F)
}

func Lt(a, b *Term) *Term {
	if a.Sort == F32 || a.Sort == F64 {
		if a.IsConst() && b.IsConst() {
			return B(toF(a) < toF(b))
		}
		return mk(&Term{Op: "fp.lt", Sort: Bool, Args: []*Term{a, b}})
	}
	if a.Sort != Int || b.Sort != Int {
		panic(fmt.Sprintf("Lt sorts %s %s", a.Sort, b.Sort))
	}
	if a.IsConst() && b.IsConst() {
		return B(a.I.Cmp(b.I) < 0)
	}
	if a == b {
		return False
	}
	return mk(&Term{Op: "<", Sort: Bool, Args: []*Term{a, b}})
}
func Le(a, b *Term) *Term {
	if a.Sort == F32 || a.Sort == F64 {
		if a.IsConst() && b.IsConst() {
			return B(toF(a) <= toF(b))
		}
		return mk(&Term{Op: "fp.leq", Sort: Bool, Args: []*Term{a, b}})
	}
	return Not(Lt(b, a))
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func IsNaN(a *Term) *Term {
	if a.IsConst() {
		f := toF(a)
		return B(f != f)
	}
	return mk(&Term{Op: "fp.isNaN", Sort: Bool, Args: []*Term{a}})
}

func FNeg(a *Term) *Term {
	return mk(&Term{Op: "fp.neg", Sort: a.Sort, Args: []*Term{a}})
}

func Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return BigC(new(big.Int).Add(a.I, b.I))
	}
	if a.IsConst() && a.I.Sign() == 0 {
		return b
	}
	if b.IsConst() && b.I.Sign() == 0 {
		return a
	}
	return mk(&Term{Op: "+", Sort: Int, Args: []*Term{a, b}})
}
func Sub(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return BigC(new(big.Int).Sub(a.I, b.I))
	}
	if b.IsConst() && b.I.Sign() == 0 {
		return a
	}
	if a == b {
		return IntC(0)
	}
	return mk(&Term{Op: "-", Sort: Int, Args: []*Term{a, b}})
}
func Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return BigC(new(big.Int).Mul(a.I, b.I))
	}
	if a.IsConst() && a.I.IsInt64() && a.I.Int64() == 1 {
		return b
	}
	if b.IsConst() && b.I.IsInt64() && b.I.Int64() == 1 {
		return a
	}
	return mk(&Term{Op: "*", Sort: Int, Args: []*Term{a, b}})
}

// Div and Mod are Euclidean (SMT-LIB) for positive divisors.
func Div(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.I.Sign() != 0 {
		return BigC(new(big.Int).Div(a.I, b.I))
	}
	return mk(&Term{Op: "div", Sort: Int, Args: []*Term{a, b}})
}
func Mod(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.I.Sign() != 0 {
		return BigC(new(big.Int).Mod(a.I, b.I))
	}
	return mk(&Term{Op: "mod", Sort: Int, Args: []*Term{a, b}})
}

func mkq(q string, v, lo, hi, body *Term) *Term {
	if body == True || body == False {
		if q == "forall" && body == True {
			return True
		}
		if q == "exists" && body == False {
			return False
		}
		// non-empty range decides
		ne := Lt(lo, hi)
		if q == "forall" {
			return Not(ne)
		}
		return ne
	}
	if lo.IsConst() && hi.IsConst() && hi.I.Cmp(lo.I) <= 0 {
		return B(q == "forall")
	}
	used := false
	for _, f := range body.free {
		if f == v {
			used = true
		}
	}
	if !used {
		if q == "forall" {
			return Or(Not(Lt(lo, hi)), body)
		}
		return And(Lt(lo, hi), body)
	}
	return mk(&Term{Op: q, Sort: Bool, Args: []*Term{v, lo, hi, body}})
}

// Forall and Exists quantify an Int variable over lo <= v < hi.
func Forall(v, lo, hi, body *Term) *Term { return mkq("forall", v, lo, hi, body) }
func Exists(v, lo, hi, body *Term) *Term { return mkq("exists", v, lo, hi, body) }

// Subst replaces variables (capture is avoided by globally fresh binders).
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		if t.Op == "var" {
			if r, ok := m[t]; ok {
				return r
			}
			return t
		}
		need := false
		for _, f := range t.free {
			if _, ok := m[f]; ok {
				need = true
			}
		}
		if !need || len(t.Args) == 0 {
			memo[t] = t
			return t
		}
		if t.Op == "forall" || t.Op == "exists" {
			nv := Fresh("q", Int)
			m2 := map[*Term]*Term{}
			for k, v := range m {
				m2[k] = v
			}
			m2[t.Args[0]] = nv
			r := mkq(t.Op, nv, rec(t.Args[1]), rec(t.Args[2]), Subst(t.Args[3], m2))
			memo[t] = r
			return r
		}
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = rec(a)
		}
		r := Rebuild(t, as)
		memo[t] = r
		return r
	}
	return rec(t)
}

// Rebuild re-applies t's operator to new arguments through the constructors.
func Rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "not":
		return Not(as[0])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=", "fp.eq":
		return Eq(as[0], as[1])
	case "<", "fp.lt":
		return Lt(as[0], as[1])
	case "fp.leq":
		return Le(as[0], as[1])
	case "fp.isNaN":
		return IsNaN(as[0])
	case "fp.neg":
		return FNeg(as[0])
	case "+":
		return Add(as[0], as[1])
	case "-":
		return Sub(as[0], as[1])
	case "*":
		return Mul(as[0], as[1])
	case "div":
		return Div(as[0], as[1])
	case "mod":
		return Mod(as[0], as[1])
	case "app":
		return App(t.Name, t.Sort, as...)
	case "forall", "exists":
		return mkq(t.Op, as[0], as[1], as[2], as[3])
	}
	panic("rebuild " + t.Op)
}

// String renders a readable form (for reports).
func (t *Term) String() string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		return t.I.String()
	case "str":
		return fmt.Sprintf("%q", t.Name)
	case "fp":
		return fmt.Sprint(toF(t))
	case "var":
		return t.Name
	case "app":
		if len(t.Args) == 0 {
			return t.Name
		}
		ss := make([]string, len(t.Args))
		for i, a := range t.Args {
			ss[i] = a.String()
		}
		return t.Name + "(" + strings.Join(ss, ", ") + ")"
	case "forall", "exists":
		return fmt.Sprintf("(%s %s in [%s,%s). %s)", t.Op, t.Args[0], t.Args[1], t.Args[2], t.Args[3])
	case "not":
		return "!" + t.Args[0].String()
	}
	ss := make([]string, len(t.Args))
	for i, a := range t.Args {
		ss[i] = a.String()
	}
	op := t.Op
	switch op {
	case "and":
		op = "&&"
	case "or":
		op = "||"
	case "ite":
		return "(if " + ss[0] + " then " + ss[1] + " else " + ss[2] + ")"
	}
	return "(" + strings.Join(ss, " "+op+" ") + ")"
}
