// Package sym computes, for a function of the IR, the exact relation between
// its inputs and its results as first-order terms (a strongest-postcondition
// calculus with path merging), using contracts for callees and invariants for
// loops; it also emits the safety obligations met on the way.
package sym

import (
	"fmt"
	"strings"

	"pgvc/ir"
	"pgvc/smt"
)

type Term = smt.Term

type Val interface{}

type (
	// TV is a scalar: bool, integer, float, string or byte slice.
	TV struct {
		T *Term
		Y *ir.T
	}
	NilV struct{}
	// MsgV is a (possibly nil) pointer to a protobuf message.
	MsgV struct {
		Ref *Term
		Go  string // named type, without the leading *
		Ex  any    // language-specific
	}
	// ListV is an immutable indexed sequence.
	ListV struct {
		Len *Term
		At  func(i *Term) Val
		Nil *Term // nil-ness, when known
		Tag string
	}
	// MapV is a message's map field: a sequence of distinct keys with values.
	MapV struct {
		Len *Term
		Key func(i *Term) Val
		At  func(i *Term) Val
		Tag string
	}
	// ConstMap is a map literal.
	ConstMap struct {
		Keys []*Term
		Vals []Val
		// Has decides membership when the keys are given by contract.
		Has func(k *Term) *Term
	}
	// SetV is a local mutable map used as a set (heap object contents).
	SetV struct {
		Has  func(k *Term) *Term // base membership
		Base string              // identity of the base
		W    []Write
		Val  func(k *Term) Val
	}
	Write struct{ G, Key *Term }
	// ObjV refers to a mutable heap object.
	ObjV struct{ ID string }
	// Build is a list under construction (errors, messages).
	Build struct {
		Base  string
		Items []Item
		Nil   bool // still nil
	}
	Item struct {
		G    *Term
		V    Val
		Loop *LoopItem
	}
	LoopItem struct {
		I, N *Term
		Body []Item
		What string // loop subject tag
	}
	// StructV is a struct value (or pointer to a fresh one).
	StructV struct {
		Ty string
		F  map[string]Val
	}
	// ErrV is an error of which only nil-ness and origin matter.
	ErrV struct {
		NonNil *Term
		Src    string
		Arg    Val
	}
	FuncV struct {
		F    *ir.Func
		Name string
		Recv Val
		Env  map[string]Val
	}
	TupleV []Val
	// UnionV: exactly one guard holds.
	UnionV []Alt
	Alt    struct {
		G *Term
		V Val
	}
	// CatV is a string built from pieces (error texts, field names).
	CatV struct{ Parts []Part }
	Part struct {
		Lit string
		Arg Val // formatted value when non-nil
	}
	// RegexV is a compiled pattern.
	RegexV struct{ Pat string }
	// OpaqueV is a named library object with term attributes.
	OpaqueV struct {
		Kind string
		T    *Term
		Args []Val
	}
	// OneofV is the dynamic value of a oneof interface field.
	OneofV struct {
		Ref *Term
		Go  string // message type
		OO  any    // *protogen.Oneof
	}
	// MemberV is a pointer to the wrapper struct of the set member.
	MemberV struct {
		Ref   *Term
		Field any // *protogen.Field
	}
	// PtrV is a pointer to a variable.
	PtrV struct{ ID string }
	// PoisonV is a value the calculus does not track.
	PoisonV struct{ Why string }
	// TypedV remembers the static named type of a conversion result.
	TypedV struct {
		Ty string
		V  Val
	}
)

// Unsup is raised (as a panic) on constructs outside the subset.
type Unsup struct{ At, Why string }

func (u Unsup) Error() string { return u.At + ": " + u.Why }

func bail(at string, f string, a ...any) {
	panic(Unsup{at, fmt.Sprintf(f, a...)})
}

// Str renders a value for reports.
func Str(v Val) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case TV:
		return v.T.String()
	case NilV:
		return "nil"
	case MsgV:
		return "&" + v.Ref.String()
	case StructV:
		var ks []string
		for _, k := range sortedKeys(v.F) {
			ks = append(ks, k+": "+Str(v.F[k]))
		}
		return v.Ty + "{" + strings.Join(ks, ", ") + "}"
	case CatV:
		var b strings.Builder
		for _, p := range v.Parts {
			if p.Arg != nil {
				b.WriteString("${" + Str(p.Arg) + "}")
			} else {
				b.WriteString(p.Lit)
			}
		}
		return fmt.Sprintf("%q", b.String())
	case ErrV:
		return "error(" + v.Src + ")"
	case UnionV:
		var ss []string
		for _, a := range v {
			ss = append(ss, a.G.String()+" -> "+Str(a.V))
		}
		return "[" + strings.Join(ss, " | ") + "]"
	case Build:
		return "list" + itemsStr(v.Items)
	case TypedV:
		return v.Ty + "(" + Str(v.V) + ")"
	}
	return fmt.Sprintf("%T", v)
}

func itemsStr(is []Item) string {
	var ss []string
	for _, it := range is {
		if it.Loop != nil {
			ss = append(ss, fmt.Sprintf("%s => for %s<%s %s", it.G, it.Loop.I, it.Loop.N, itemsStr(it.Loop.Body)))
		} else {
			ss = append(ss, it.G.String()+" => "+Str(it.V))
		}
	}
	return "[" + strings.Join(ss, "; ") + "]"
}

func sortedKeys(m map[string]Val) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

// Cat builds a normalised concatenation.
func Cat(parts ...Part) Val {
	var out []Part
	for _, p := range parts {
		if p.Arg != nil {
			if c, ok := p.Arg.(CatV); ok {
				out = append(out, c.Parts...)
				continue
			}
			if t, ok := p.Arg.(TV); ok && t.T.Op == "str" {
				out = append(out, Part{Lit: t.T.Name})
				continue
			}
		}
		out = append(out, p)
	}
	var n []Part
	for _, p := range out {
		if p.Arg == nil {
			if p.Lit == "" {
				continue
			}
			if len(n) > 0 && n[len(n)-1].Arg == nil {
				n[len(n)-1].Lit += p.Lit
				continue
			}
		}
		n = append(n, p)
	}
	if len(n) == 0 {
		return TV{smt.StrC(""), strT}
	}
	if len(n) == 1 {
		if n[0].Arg == nil {
			return TV{smt.StrC(n[0].Lit), strT}
		}
		if t, ok := n[0].Arg.(TV); ok && t.T.Sort == smt.Str {
			return t
		}
	}
	return CatV{n}
}

var strT = &ir.T{K: ir.KStr, Name: "string"}
var boolT = &ir.T{K: ir.KBool, Name: "bool"}
var intT = &ir.T{K: ir.KInt, Name: "int", Bits: 64, Signed: true}

func BoolV(t *Term) TV { return TV{t, boolT} }
func StrV(t *Term) TV  { return TV{t, strT} }
func IntV(t *Term) TV  { return TV{t, intT} }

// Merge is the value under condition c.
func Merge(c *Term, a, b Val) Val {
	if c.IsTrue() {
		return a
	}
	if c.IsFalse() {
		return b
	}
	if same(a, b) {
		return a
	}
	switch x := a.(type) {
	case TV:
		if y, ok := b.(TV); ok && x.T.Sort == y.T.Sort {
			return TV{smt.Ite(c, x.T, y.T), x.Y}
		}
	case MsgV:
		if y, ok := b.(MsgV); ok && x.Go == y.Go {
			return MsgV{Ref: smt.Ite(c, x.Ref, y.Ref), Go: x.Go, Ex: x.Ex}
		}
	case StructV:
		if y, ok := b.(StructV); ok && x.Ty == y.Ty {
			okAll := true
			f := map[string]Val{}
			for _, k := range sortedKeys(x.F) {
				y1, has := y.F[k]
				if !has {
					okAll = false
					break
				}
				f[k] = Merge(c, x.F[k], y1)
			}
			if okAll && len(x.F) == len(y.F) {
				return StructV{x.Ty, f}
			}
		}
	case Build:
		switch y := b.(type) {
		case Build:
			if x.Base == y.Base {
				n := 0
				for n < len(x.Items) && n < len(y.Items) && sameItem(x.Items[n], y.Items[n]) {
					n++
				}
				items := append([]Item{}, x.Items[:n]...)
				items = append(items, guardItems(c, x.Items[n:])...)
				items = append(items, guardItems(smt.Not(c), y.Items[n:])...)
				return Build{Base: x.Base, Items: items, Nil: x.Nil && y.Nil}
			}
		case NilV:
			if x.Base == "" {
				return Merge(c, a, Build{Nil: true})
			}
		}
	case NilV:
		if y, ok := b.(Build); ok && y.Base == "" {
			return Merge(c, Build{Nil: true}, b)
		}
	case SetV:
		if y, ok := b.(SetV); ok {
			if x.Base == y.Base {
				n := 0
				for n < len(x.W) && n < len(y.W) && x.W[n] == y.W[n] {
					n++
				}
				w := append([]Write{}, x.W[:n]...)
				for _, k := range x.W[n:] {
					w = append(w, Write{smt.And(c, k.G), k.Key})
				}
				for _, k := range y.W[n:] {
					w = append(w, Write{smt.And(smt.Not(c), k.G), k.Key})
				}
				return SetV{Has: x.Has, Base: x.Base, W: w}
			}
			return SetV{Base: smt.Fresh("set", smt.Int).Name, Has: func(k *Term) *Term {
				return smt.Ite(c, x.Member(k), y.Member(k))
			}}
		}
	case TupleV:
		if y, ok := b.(TupleV); ok && len(x) == len(y) {
			r := make(TupleV, len(x))
			for i := range x {
				r[i] = Merge(c, x[i], y[i])
			}
			return r
		}
	case PoisonV:
		return a
	}
	if _, ok := b.(PoisonV); ok {
		return b
	}
	var u UnionV
	u = addAlts(u, c, a)
	u = addAlts(u, smt.Not(c), b)
	return u.norm()
}

func addAlts(u UnionV, g *Term, v Val) UnionV {
	if w, ok := v.(UnionV); ok {
		for _, a := range w {
			u = append(u, Alt{smt.And(g, a.G), a.V})
		}
		return u
	}
	return append(u, Alt{g, v})
}

func (u UnionV) norm() Val {
	var out UnionV
	for _, a := range u {
		if a.G.IsFalse() {
			continue
		}
		dup := false
		for i := range out {
			if same(out[i].V, a.V) {
				out[i].G = smt.Or(out[i].G, a.G)
				dup = true
				break
			}
		}
		if !dup {
			out = append(out, a)
		}
	}
	if len(out) == 1 {
		return out[0].V
	}
	return out
}

// Member is membership after the writes.
func (s SetV) Member(k *Term) *Term {
	r := s.Has(k)
	for _, w := range s.W {
		r = smt.Or(r, smt.And(w.G, smt.Eq(w.Key, k)))
	}
	return r
}

func guardItems(g *Term, is []Item) []Item {
	var out []Item
	for _, it := range is {
		ng := smt.And(g, it.G)
		if ng.IsFalse() {
			continue
		}
		it.G = ng
		out = append(out, it)
	}
	return out
}

func sameItem(a, b Item) bool {
	if a.G != b.G || a.Loop != b.Loop {
		return false
	}
	return a.Loop != nil || same(a.V, b.V)
}

// same is a conservative identity test.
func same(a, b Val) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case TV:
		y, ok := b.(TV)
		return ok && x.T == y.T
	case NilV:
		_, ok := b.(NilV)
		return ok
	case MsgV:
		y, ok := b.(MsgV)
		return ok && x.Ref == y.Ref && x.Go == y.Go
	case ObjV:
		y, ok := b.(ObjV)
		return ok && x == y
	case PtrV:
		y, ok := b.(PtrV)
		return ok && x == y
	case RegexV:
		y, ok := b.(RegexV)
		return ok && x == y
	case ErrV:
		y, ok := b.(ErrV)
		return ok && x.NonNil == y.NonNil && x.Src == y.Src && same(x.Arg, y.Arg)
	case StructV:
		y, ok := b.(StructV)
		if !ok || x.Ty != y.Ty || len(x.F) != len(y.F) {
			return false
		}
		for k, v := range x.F {
			if !same(v, y.F[k]) {
				return false
			}
		}
		return true
	case CatV:
		y, ok := b.(CatV)
		if !ok || len(x.Parts) != len(y.Parts) {
			return false
		}
		for i := range x.Parts {
			if x.Parts[i].Lit != y.Parts[i].Lit || !same(x.Parts[i].Arg, y.Parts[i].Arg) {
				return false
			}
		}
		return true
	case Build:
		y, ok := b.(Build)
		if !ok || x.Base != y.Base || len(x.Items) != len(y.Items) || x.Nil != y.Nil {
			return false
		}
		for i := range x.Items {
			if !sameItem(x.Items[i], y.Items[i]) {
				return false
			}
		}
		return true
	case SetV:
		y, ok := b.(SetV)
		if !ok || x.Base != y.Base || len(x.W) != len(y.W) {
			return false
		}
		for i := range x.W {
			if x.W[i] != y.W[i] {
				return false
			}
		}
		return true
	case TypedV:
		y, ok := b.(TypedV)
		return ok && x.Ty == y.Ty && same(x.V, y.V)
	case UnionV:
		y, ok := b.(UnionV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i].G != y[i].G || !same(x[i].V, y[i].V) {
				return false
			}
		}
		return true
	case TupleV:
		y, ok := b.(TupleV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case ListV:
		y, ok := b.(ListV)
		return ok && x.Tag != "" && x.Tag == y.Tag
	case MapV:
		y, ok := b.(MapV)
		return ok && x.Tag != "" && x.Tag == y.Tag
	case OpaqueV:
		y, ok := b.(OpaqueV)
		if !ok || x.Kind != y.Kind || x.T != y.T || len(x.Args) != len(y.Args) {
			return false
		}
		for i := range x.Args {
			if !same(x.Args[i], y.Args[i]) {
				return false
			}
		}
		return true
	case OneofV:
		y, ok := b.(OneofV)
		return ok && x.Ref == y.Ref && x.OO == y.OO
	case MemberV:
		y, ok := b.(MemberV)
		return ok && x.Ref == y.Ref && x.Field == y.Field
	case PoisonV:
		_, ok := b.(PoisonV)
		return ok
	}
	return false
}

// SubstVal substitutes variables throughout a value.
func SubstVal(v Val, m map[*Term]*Term) Val {
	return mapVal(v, func(t *Term) *Term { return smt.Subst(t, m) })
}

func mapItems(is []Item, f func(*Term) *Term) []Item {
	out := make([]Item, len(is))
	for i, it := range is {
		n := Item{G: f(it.G)}
		if it.Loop != nil {
			n.Loop = &LoopItem{I: it.Loop.I, N: f(it.Loop.N), Body: mapItems(it.Loop.Body, f), What: it.Loop.What}
		} else {
			n.V = mapVal(it.V, f)
		}
		out[i] = n
	}
	return out
}

func mapVal(v Val, f func(*Term) *Term) Val {
	switch x := v.(type) {
	case TV:
		return TV{f(x.T), x.Y}
	case MsgV:
		return MsgV{f(x.Ref), x.Go, x.Ex}
	case StructV:
		n := map[string]Val{}
		for k, y := range x.F {
			n[k] = mapVal(y, f)
		}
		return StructV{x.Ty, n}
	case CatV:
		ps := make([]Part, len(x.Parts))
		for i, p := range x.Parts {
			ps[i] = p
			if p.Arg != nil {
				ps[i].Arg = mapVal(p.Arg, f)
			}
		}
		return CatV{ps}
	case ErrV:
		n := ErrV{f(x.NonNil), x.Src, nil}
		if x.Arg != nil {
			n.Arg = mapVal(x.Arg, f)
		}
		return n
	case UnionV:
		var u UnionV
		for _, a := range x {
			u = append(u, Alt{f(a.G), mapVal(a.V, f)})
		}
		return u
	case TupleV:
		t := make(TupleV, len(x))
		for i := range x {
			t[i] = mapVal(x[i], f)
		}
		return t
	case Build:
		return Build{Base: x.Base, Items: mapItems(x.Items, f), Nil: x.Nil}
	case TypedV:
		return TypedV{x.Ty, mapVal(x.V, f)}
	case ListV:
		return ListV{Len: f(x.Len), At: func(i *Term) Val { return mapVal(x.At(i), f) }, Nil: mapT(x.Nil, f)}
	case OpaqueV:
		n := OpaqueV{Kind: x.Kind, T: mapT(x.T, f)}
		for _, a := range x.Args {
			n.Args = append(n.Args, mapVal(a, f))
		}
		return n
	case OneofV:
		return OneofV{f(x.Ref), x.Go, x.OO}
	case MemberV:
		return MemberV{f(x.Ref), x.Field}
	case MapV:
		return MapV{Len: f(x.Len), Key: func(i *Term) Val { return mapVal(x.Key(i), f) }, At: func(i *Term) Val { return mapVal(x.At(i), f) }}
	}
	return v
}

func mapT(t *Term, f func(*Term) *Term) *Term {
	if t == nil {
		return nil
	}
	return f(t)
}

// Same is the conservative identity test.
func Same(a, b Val) bool { return same(a, b) }
