// Package ccvc gives the contracts of what the generated C++ code calls (the
// accessors of protoc, the standard library, RE2, validate.h) and states the
// obligations on the generated functions.
package ccvc

import (
	"fmt"
	"math"
	"math/big"
	"regexp/syntax"
	"strings"
	"sync"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvc/ccfe"
	"pgvc/gen"
	"pgvc/govc"
	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/spec"
	"pgvc/sym"
)

type Term = smt.Term
type Val = sym.Val

// Hooks for the C++ code of a world.
type Hooks struct {
	*govc.Hooks
	W     *gen.World
	CC    *gen.CC
	Class map[string]*protogen.Message // C++ class -> message
	Name  map[string]string            // Go identifier -> class
	Enum  map[string]*protogen.Enum
	Reg   map[string]string // registered validators, over all files
	Valid func(*protogen.Message) bool
	Lib   bool // inside validate.h: helpers are bodies, not contracts
	mu    sync.Mutex
}

// Keywords are the names protoc sets off from accessors of the same name.
var keywords = map[string]bool{}

func init() {
	for _, k := range strings.Fields("alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl const constexpr const_cast continue decltype default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast return short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq") {
		keywords[k] = true
	}
}

// Accessor is the name of protoc's accessor of a field.
func Accessor(f protoreflect.FieldDescriptor) string {
	n := strings.ToLower(string(f.Name()))
	if keywords[n] {
		n += "_"
	}
	return n
}

func cppName(d protoreflect.Descriptor) string {
	n := string(d.Name())
	for p := d.Parent(); ; p = p.Parent() {
		if f, ok := p.(protoreflect.FileDescriptor); ok {
			if f.Package() == "" {
				return n
			}
			return strings.ReplaceAll(string(f.Package()), ".", "::") + "::" + n
		}
		n = string(p.Name()) + "_" + n
	}
}

// NewHooks needs the generated files' units for the registrations.
func NewHooks(w *gen.World, cc *gen.CC, units map[string]*ccfe.Unit) *Hooks {
	h := &Hooks{Hooks: govc.NewHooks(w), W: w, CC: cc, Class: map[string]*protogen.Message{}, Name: map[string]string{}, Enum: map[string]*protogen.Enum{}, Reg: map[string]string{}}
	for _, f := range w.Gen.Files {
		var rec func(m *protogen.Message)
		enums := func(es []*protogen.Enum) {
			for _, e := range es {
				h.Enum[cppName(e.Desc)] = e
			}
		}
		rec = func(m *protogen.Message) {
			c := cppName(m.Desc)
			h.Class[c] = m
			h.Name[goName(m)] = c
			enums(m.Enums)
			for _, n := range m.Messages {
				rec(n)
			}
		}
		enums(f.Enums)
		for _, m := range f.Messages {
			rec(m)
		}
	}
	for _, u := range units {
		for k, v := range u.Registered {
			if _, dup := h.Reg[k]; dup {
				v = "?"
			}
			h.Reg[k] = v
		}
	}
	h.Valid = func(m *protogen.Message) bool {
		name := strings.TrimSuffix(m.Desc.ParentFile().Path(), ".proto")
		for _, f := range cc.Files() {
			if f.Name == name {
				return !spec.MsgFlag(w, m, "ignored") && !spec.MsgFlag(w, m, "disabled")
			}
		}
		return false
	}
	return h
}

func goName(m *protogen.Message) string {
	return string(m.GoIdent.GoImportPath) + "." + m.GoIdent.GoName
}

func (h *Hooks) use(s string) { h.Hooks.Use(s) }

func (h *Hooks) TypeOf(v Val) string { return "" }
func (h *Hooks) Matches(x *sym.X, v Val, t *ir.T) (*Term, Val, bool) {
	return nil, nil, false
}
func (h *Hooks) Field(x *sym.X, st *sym.State, v Val, name, at string) (Val, bool) {
	return nil, false
}

var (
	i32 = &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: "int"}
	i64 = &ir.T{K: ir.KInt, Bits: 64, Signed: true, Name: "long"}
	u64 = &ir.T{K: ir.KInt, Bits: 64, Name: "size_t"}
	u8  = &ir.T{K: ir.KInt, Bits: 8, Name: "unsigned char"}
	chT = &ir.T{K: ir.KInt, Bits: 8, Signed: true, Name: "char"}
)

var npos = new(big.Int).SetUint64(math.MaxUint64)

func (h *Hooks) Global(x *sym.X, name string, t *ir.T) (Val, bool) {
	switch name {
	case "npos":
		return sym.TV{T: smt.BigC(npos), Y: u64}, true
	case "kDurationMaxSeconds":
		h.use("google/protobuf/util/time_util.h: kDurationMaxSeconds is 315576000000")
		return sym.TV{T: smt.IntC(315576000000), Y: i64}, true
	case "kDurationMinSeconds":
		return sym.TV{T: smt.IntC(-315576000000), Y: i64}, true
	}
	return nil, false
}

// Conv: integer constants become floating constants.
func (h *Hooks) Conv(x *sym.X, st *sym.State, v Val, t *ir.T, at string) (Val, bool) {
	u, ok := v.(sym.TV)
	if !ok || t.K != ir.KFloat || u.T.Op != "int" {
		return nil, false
	}
	f := new(big.Float).SetInt(u.T.I)
	if t.Bits == 32 {
		c, _ := f.Float32()
		return sym.TV{T: smt.F32C(c), Y: t}, true
	}
	c, _ := f.Float64()
	return sym.TV{T: smt.F64C(c), Y: t}, true
}

func (h *Hooks) IsNil(x *sym.X, v Val) (*Term, bool) { return nil, false }

func str(v Val) (*Term, bool) {
	switch u := v.(type) {
	case sym.TV:
		if u.T.Sort == smt.Str {
			return u.T, true
		}
	case sym.TypedV:
		return str(u.V)
	case sym.OpaqueV:
		if u.Kind == "cstr" {
			return nil, false
		}
	}
	return nil, false
}

// dur is a duration value: a message or a computed one.
func (h *Hooks) dur(v Val) (sec, nanos *Term, ok bool) {
	switch u := v.(type) {
	case sym.MsgV:
		gm := h.W.GoMsg[u.Go]
		if gm != nil && gm.Desc.FullName() == "google.protobuf.Duration" {
			return model.Get(u.Ref, gm.Fields[0].Desc), model.Get(u.Ref, gm.Fields[1].Desc), true
		}
	case sym.StructV:
		if u.Ty == "duration" {
			return u.F["sec"].(sym.TV).T, u.F["nanos"].(sym.TV).T, true
		}
	}
	return nil, nil, false
}

func mkDur(total *big.Int) Val {
	b := big.NewInt(1000000000)
	s, n := new(big.Int).QuoRem(total, b, new(big.Int))
	return sym.StructV{Ty: "duration", F: map[string]Val{"sec": sym.TV{T: smt.BigC(s), Y: i64}, "nanos": sym.TV{T: smt.BigC(n), Y: i32}}}
}

// total is the value of a constant duration in nanoseconds.
func total(sec, nanos *Term) (*big.Int, bool) {
	if sec.Op != "int" || nanos.Op != "int" {
		return nil, false
	}
	t := new(big.Int).Mul(sec.I, big.NewInt(1000000000))
	return t.Add(t, nanos.I), true
}

func order(op string, s1, n1, s2, n2 *Term) (*Term, bool) {
	less := func(s1, n1, s2, n2 *Term) *Term {
		return smt.Ite(smt.Eq(s1, s2), smt.Lt(n1, n2), smt.Lt(s1, s2))
	}
	switch op {
	case "==":
		return smt.And(smt.Eq(s1, s2), smt.Eq(n1, n2)), true
	case "!=":
		return smt.Not(smt.And(smt.Eq(s1, s2), smt.Eq(n1, n2))), true
	case "<":
		return less(s1, n1, s2, n2), true
	case ">":
		return less(s2, n2, s1, n1), true
	case "<=":
		return smt.Not(less(s2, n2, s1, n1)), true
	case ">=":
		return smt.Not(less(s1, n1, s2, n2)), true
	}
	return nil, false
}

func (h *Hooks) msgOf(v Val) (*protogen.Message, sym.MsgV, bool) {
	m, ok := v.(sym.MsgV)
	if !ok {
		return nil, m, false
	}
	gm := h.W.GoMsg[m.Go]
	return gm, m, gm != nil
}

func (h *Hooks) Call(x *sym.X, st *sym.State, name string, recv Val, args []Val, c *ir.Call) (Val, bool) {
	at := ""
	targ := ""
	if c != nil {
		at = c.At
		if c.TArg != nil {
			targ = c.TArg.Name
		}
	}
	if strings.HasPrefix(name, ".") {
		return h.method(x, st, name[1:], recv, args, targ, at)
	}
	switch name {
	case "accepted":
		return sym.BoolV(x.IsTrue(args[0])), true
	case "cat":
		return cat(args), true
	case "stringn":
		s, ok := str(args[0])
		n := x.Term(args[1], at)
		if !ok || s.Op != "str" || n.Op != "int" || !n.I.IsInt64() || n.I.Int64() < 0 || n.I.Int64() > int64(len(s.Name)) {
			return nil, false
		}
		return sym.StrV(smt.StrC(s.Name[:n.I.Int64()])), true
	case "piece":
		if p, ok := args[0].(sym.OpaqueV); ok && p.Kind == "cstr" {
			if x.Term(args[1], at) == model.BLen(p.T) || smt.Eq(x.Term(args[1], at), model.BLen(p.T)).IsTrue() {
				return sym.StrV(p.T), true
			}
		}
		return nil, false
	case "RE2":
		if s, ok := str(args[0]); ok && len(args) == 1 && s.Op == "str" {
			_, err := syntax.Parse(s.Name, syntax.Perl)
			x.Oblige(st, smt.B(err == nil), at, "pattern compiles")
			h.use("re2: patterns have the syntax and meaning of Go's regexp, strings are valid UTF-8")
			return sym.RegexV{Pat: s.Name}, true
		}
		return nil, false
	case "setof":
		return sym.OpaqueV{Kind: "set", T: smt.True, Args: append([]Val{sym.StructV{Ty: targ}}, args...)}, true
	case "uninit":
		return sym.OpaqueV{Kind: "uninit", T: smt.True}, true
	case "elements":
		switch args[0].(type) {
		case sym.ListV, sym.MapV:
			return args[0], true
		case sym.TV: // the characters of a string
			if s, ok := str(args[0]); ok {
				return sym.ListV{Len: model.BLen(s), Tag: "bytes:" + s.String(), At: func(i *Term) Val { return sym.TV{T: schar(s, i), Y: chT} }}, true
			}
		}
		return nil, false
	}
	i := strings.IndexByte(name, '|')
	if i < 0 {
		return nil, false
	}
	base := name[:i]
	if strings.HasPrefix(base, "operator") {
		return h.operator(x, st, base[len("operator"):], args, at)
	}
	return h.fn(x, st, base, targ, args, at)
}

// schar is the char at i as a signed number.
func schar(s, i *Term) *Term {
	b := model.ByteAt(s, i)
	return smt.Ite(smt.Lt(b, smt.IntC(128)), b, smt.Sub(b, smt.IntC(256)))
}

func cat(args []Val) Val {
	var ps []sym.Part
	for _, a := range args {
		if s, ok := str(a); ok && s.Op == "str" {
			ps = append(ps, sym.Part{Lit: s.Name})
			continue
		}
		ps = append(ps, sym.Part{Arg: a})
	}
	return sym.Cat(ps...)
}

// member says k is an element of a constant set.
func (h *Hooks) member(x *sym.X, st *sym.State, set sym.OpaqueV, k Val, at string) (*Term, bool) {
	cls := set.Args[0].(sym.StructV).Ty
	ordered := strings.HasPrefix(cls, "std::set<float") || strings.HasPrefix(cls, "std::set<double")
	if strings.HasPrefix(cls, "std::set<") {
		h.use("std::set: find(k) yields an element that is neither less nor greater than k, or end()")
	} else if strings.HasPrefix(cls, "std::unordered_set<") {
		h.use("std::unordered_set: find(k) yields the element equal to k, or end()")
	} else {
		return nil, false
	}
	r := smt.False
	for _, e := range set.Args[1:] {
		if s1, n1, ok := h.dur(k); ok {
			s2, n2, ok := h.dur(e)
			if !ok {
				return nil, false
			}
			eq, _ := order("==", s1, n1, s2, n2)
			r = smt.Or(r, eq)
			continue
		}
		a, b := x.Term(k, at), x.Term(e, at)
		if a.Sort != b.Sort {
			return nil, false
		}
		if ordered {
			r = smt.Or(r, smt.And(smt.Not(smt.Lt(a, b)), smt.Not(smt.Lt(b, a))))
		} else {
			r = smt.Or(r, smt.Eq(a, b))
		}
	}
	return r, true
}

func (h *Hooks) operator(x *sym.X, st *sym.State, op string, args []Val, at string) (Val, bool) {
	switch op {
	case "<<", ">>", "->", "()", "*":
		return nil, false
	case "!":
		return nil, false
	}
	if len(args) != 2 {
		return nil, false
	}
	// iterators of sets
	a, ok1 := args[0].(sym.OpaqueV)
	b, ok2 := args[1].(sym.OpaqueV)
	if ok1 && ok2 && (op == "==" || op == "!=") {
		if a.Kind == "end" {
			a, b = b, a
		}
		if a.Kind == "iter" && b.Kind == "end" {
			if op == "==" {
				return sym.BoolV(smt.Not(a.T)), true
			}
			return sym.BoolV(a.T), true
		}
		return nil, false
	}
	if s1, n1, ok := h.dur(args[0]); ok {
		if s2, n2, ok := h.dur(args[1]); ok {
			if op == "+" || op == "-" {
				t1, ok1 := total(s1, n1)
				t2, ok2 := total(s2, n2)
				if !ok1 || !ok2 {
					return nil, false
				}
				if op == "-" {
					t2 = new(big.Int).Neg(t2)
				}
				h.use("google/protobuf/util/time_util.h: sums of durations are normalised")
				return mkDur(t1.Add(t1, t2)), true
			}
			if t, ok := order(op, s1, n1, s2, n2); ok {
				h.use("google/protobuf/util/time_util.h: durations compare by seconds, then nanoseconds")
				return sym.BoolV(t), true
			}
		}
		return nil, false
	}
	s1, ok3 := str(args[0])
	s2, ok4 := str(args[1])
	if ok3 && ok4 {
		switch op {
		case "==":
			return sym.BoolV(smt.Eq(s1, s2)), true
		case "!=":
			return sym.BoolV(smt.Not(smt.Eq(s1, s2))), true
		}
	}
	if op == "+" {
		return cat(args), true
	}
	if op == "[]" {
		if s, ok := str(args[0]); ok {
			i := x.Term(args[1], at)
			x.Oblige(st, smt.And(smt.Le(smt.IntC(0), i), smt.Le(i, model.BLen(s))), at, "index in range")
			return sym.TV{T: schar(s, i), Y: chT}, true
		}
		if l, ok := args[0].(sym.ListV); ok {
			i := x.Term(args[1], at)
			x.Oblige(st, smt.And(smt.Le(smt.IntC(0), i), smt.Lt(i, l.Len)), at, "index in range")
			return l.At(i), true
		}
	}
	return nil, false
}

func (h *Hooks) method(x *sym.X, st *sym.State, name string, recv Val, args []Val, targ, at string) (Val, bool) {
	if gm, m, ok := h.msgOf(recv); ok {
		h.use("protoc --cpp_out: accessors yield the fields, has_ their presence, _case the member number of a oneof")
		for _, f := range gm.Fields {
			a := Accessor(f.Desc)
			switch {
			case name == a && len(args) == 0:
				return govc.FieldVal(m.Ref, f), true
			case name == "has_"+a && len(args) == 0 && f.Desc.HasPresence():
				return sym.BoolV(model.Has(m.Ref, f.Desc)), true
			case name == a+"_size" && len(args) == 0:
				switch v := govc.FieldVal(m.Ref, f).(type) {
				case sym.ListV:
					return sym.TV{T: v.Len, Y: i32}, true
				case sym.MapV:
					return sym.TV{T: v.Len, Y: i32}, true
				}
			case name == a && len(args) == 1:
				if l, ok := govc.FieldVal(m.Ref, f).(sym.ListV); ok {
					return h.at(x, st, l, args[0], at), true
				}
			}
		}
		for _, oo := range gm.Oneofs {
			if name == string(oo.Desc.Name())+"_case" && len(args) == 0 {
				return sym.TV{T: model.Which(m.Ref, oo.Desc), Y: i32}, true
			}
		}
		return nil, false
	}
	switch r := recv.(type) {
	case sym.ListV:
		switch name {
		case "size":
			h.use("google::protobuf::RepeatedField has at most INT_MAX elements")
			return sym.TV{T: r.Len, Y: i32}, true
		case "empty":
			return sym.BoolV(smt.Eq(r.Len, smt.IntC(0))), true
		case "Get", "at":
			return h.at(x, st, r, args[0], at), true
		}
	case sym.MapV:
		switch name {
		case "size":
			h.use("google::protobuf::Map: iteration visits every pair once")
			return sym.TV{T: r.Len, Y: u64}, true
		case "empty":
			return sym.BoolV(smt.Eq(r.Len, smt.IntC(0))), true
		}
	case sym.OpaqueV:
		if r.Kind == "set" {
			switch name {
			case "end", "cend":
				return sym.OpaqueV{Kind: "end", T: smt.True}, true
			case "find", "count", "contains":
				t, ok := h.member(x, st, r, args[0], at)
				if !ok {
					return nil, false
				}
				if name == "find" {
					return sym.OpaqueV{Kind: "iter", T: t}, true
				}
				if name == "contains" {
					return sym.BoolV(t), true
				}
				return sym.TV{T: smt.Ite(t, smt.IntC(1), smt.IntC(0)), Y: u64}, true
			case "empty":
				return sym.BoolV(smt.B(len(r.Args) == 1)), true
			}
		}
		if r.Kind == "errtext" && name == "str" {
			return r, true
		}
	case sym.CatV:
		if name == "str" {
			return r, true
		}
	case sym.UnionV:
		if name == "str" {
			return r, true
		}
	}
	if s, ok := str(recv); ok {
		return h.strMethod(x, st, name, s, recv, args, at)
	}
	return nil, false
}

func (h *Hooks) at(x *sym.X, st *sym.State, l sym.ListV, i Val, at string) Val {
	t := x.Term(i, at)
	x.Oblige(st, smt.And(smt.Le(smt.IntC(0), t), smt.Lt(t, l.Len)), at, "index in range")
	return l.At(t)
}

func (h *Hooks) strMethod(x *sym.X, st *sym.State, name string, s *Term, recv Val, args []Val, at string) (Val, bool) {
	h.use("std::string as documented")
	n := model.BLen(s)
	ss := make([]*Term, len(args))
	for i, a := range args {
		ss[i], _ = str(a)
	}
	switch name {
	case "size", "length":
		return sym.TV{T: n, Y: u64}, true
	case "empty":
		return sym.BoolV(smt.Eq(n, smt.IntC(0))), true
	case "c_str", "data":
		return sym.OpaqueV{Kind: "cstr", T: s}, true
	case "str":
		return recv, true
	case "at":
		i := x.Term(args[0], at)
		x.Oblige(st, smt.And(smt.Le(smt.IntC(0), i), smt.Lt(i, n)), at, "std::out_of_range not thrown")
		return sym.TV{T: schar(s, i), Y: chT}, true
	case "front", "back":
		x.Oblige(st, smt.Lt(smt.IntC(0), n), at, "string not empty")
		if name == "front" {
			return sym.TV{T: schar(s, smt.IntC(0)), Y: chT}, true
		}
		return sym.TV{T: schar(s, smt.Sub(n, smt.IntC(1))), Y: chT}, true
	case "find":
		if ss[0] != nil && len(args) == 1 {
			f := model.FirstIdx(s, ss[0])
			return sym.TV{T: smt.Ite(smt.Lt(f, smt.IntC(0)), smt.BigC(npos), f), Y: u64}, true
		}
		if b, ok := args[0].(sym.TV); ok && len(args) == 1 && b.T.Op == "int" && b.T.I.IsInt64() && b.T.I.Int64() >= 0 && b.T.I.Int64() < 128 {
			f := model.FirstIdx(s, smt.StrC(string(rune(b.T.I.Int64()))))
			return sym.TV{T: smt.Ite(smt.Lt(f, smt.IntC(0)), smt.BigC(npos), f), Y: u64}, true
		}
	case "rfind":
		if ss[0] != nil && len(args) == 1 {
			f := model.LastIdx(s, ss[0])
			return sym.TV{T: smt.Ite(smt.Lt(f, smt.IntC(0)), smt.BigC(npos), f), Y: u64}, true
		}
	case "compare":
		// zero exactly on equality
		if ss[0] != nil && len(args) == 1 {
			return cmp(x, s, ss[0]), true
		}
		if len(args) == 3 && ss[2] != nil {
			pos, k := x.Term(args[0], at), x.Term(args[1], at)
			x.Oblige(st, smt.And(smt.Le(smt.IntC(0), pos), smt.Le(pos, n)), at, "std::out_of_range not thrown")
			return cmp(x, model.Substr(s, pos, smt.Ite(smt.Lt(smt.Sub(n, pos), k), n, smt.Add(pos, k))), ss[2]), true
		}
	case "substr":
		pos := x.Term(args[0], at)
		x.Oblige(st, smt.And(smt.Le(smt.IntC(0), pos), smt.Le(pos, n)), at, "std::out_of_range not thrown")
		end := n
		if len(args) == 2 {
			k := x.Term(args[1], at)
			end = smt.Ite(smt.Lt(smt.Sub(n, pos), k), n, smt.Add(pos, k))
		}
		return sym.StrV(model.Substr(s, pos, end)), true
	}
	return nil, false
}

// cmp is some int that is zero exactly when the strings are equal.
func cmp(x *sym.X, a, b *Term) Val {
	d := smt.App("strcmp", smt.Int, a, b)
	return sym.TV{T: smt.Ite(smt.Eq(a, b), smt.IntC(0), smt.Ite(smt.Lt(d, smt.IntC(0)), smt.IntC(-1), smt.IntC(1))), Y: i32}
}

func init() {
	smt.Funcs["strcmp"] = &smt.Func{Eval: func(_ string, a []any) any {
		return big.NewInt(int64(strings.Compare(a[0].(string), a[1].(string))))
	}}
}

// class reads the template argument off a callee's text.
func class(text string) string {
	i, j := strings.IndexByte(text, '<'), strings.LastIndexByte(text, '>')
	if i < 0 || j < i {
		return ""
	}
	return ccfe.ClassName(text[i+1 : j])
}

func (h *Hooks) fn(x *sym.X, st *sym.State, base, targ string, args []Val, at string) (Val, bool) {
	ss := make([]*Term, len(args))
	for i, a := range args {
		ss[i], _ = str(a)
	}
	two := len(args) == 2 && ss[0] != nil && ss[1] != nil
	one := len(args) == 1 && ss[0] != nil
	if !h.Lib {
		k := func(t *Term) *Term { return model.IPText(t) }
		used := true
		var r Val
		switch {
		case base == "IsPrefix" && two:
			r = sym.BoolV(model.HasPrefix(ss[1], ss[0]))
		case base == "IsSuffix" && two:
			r = sym.BoolV(model.HasSuffix(ss[1], ss[0]))
		case base == "Contains" && two:
			r = sym.BoolV(model.Contains(ss[0], ss[1]))
		case base == "NotContains" && two:
			r = sym.BoolV(smt.Not(model.Contains(ss[0], ss[1])))
		case base == "Utf8Len" && one:
			r = sym.TV{T: model.Runes(ss[0]), Y: u64}
		case base == "IsIp" && one:
			r = sym.BoolV(smt.Not(smt.Eq(k(ss[0]), smt.IntC(0))))
		case base == "IsIpv4" && one:
			r = sym.BoolV(smt.Eq(k(ss[0]), smt.IntC(4)))
		case base == "IsIpv6" && one:
			r = sym.BoolV(smt.Eq(k(ss[0]), smt.IntC(6)))
		case base == "IsHostname" && one:
			r = sym.BoolV(spec.HostnameOK(ss[0]))
		default:
			used = false
		}
		if used {
			h.use("validate.h: " + base + " (property C21)")
			return r, true
		}
	}
	switch base {
	case "FullMatch", "PartialMatch":
		if len(args) == 2 && ss[0] != nil {
			if re, ok := args[1].(sym.RegexV); ok {
				p := re.Pat
				if base == "FullMatch" {
					p = `\A(?:` + p + `)\z`
				}
				h.use("re2: FullMatch matches the whole string")
				return sym.BoolV(model.ReMatch(p, ss[0])), true
			}
		}
	case "SecondsToDuration", "NanosecondsToDuration":
		if t := x.Term(args[0], at); t.Op == "int" {
			v := t.I
			if base == "SecondsToDuration" {
				v = new(big.Int).Mul(v, big.NewInt(1000000000))
			}
			h.use("google/protobuf/util/time_util.h: SecondsToDuration, NanosecondsToDuration")
			return mkDur(v), true
		}
	case "infinity":
		if len(args) == 0 {
			if strings.Contains(targ, "<float>") {
				return sym.TV{T: smt.F32C(float32(math.Inf(1))), Y: &ir.T{K: ir.KFloat, Bits: 32}}, true
			}
			return sym.TV{T: smt.F64C(math.Inf(1)), Y: &ir.T{K: ir.KFloat, Bits: 64}}, true
		}
	case "quiet_NaN":
		if len(args) == 0 {
			if strings.Contains(targ, "<float>") {
				return sym.TV{T: smt.F32C(float32(math.NaN())), Y: &ir.T{K: ir.KFloat, Bits: 32}}, true
			}
			return sym.TV{T: smt.F64C(math.NaN()), Y: &ir.T{K: ir.KFloat, Bits: 64}}, true
		}
	case "String": // pgv::String copies a message
		if len(args) == 1 {
			return args[0], true
		}
	case "isnan":
		if t, ok := args[0].(sym.TV); ok && len(args) == 1 && (t.T.Sort == smt.F64 || t.T.Sort == smt.F32) {
			return sym.BoolV(smt.IsNaN(t.T)), true
		}
	case "CheckMessage":
		return h.embedded(x, st, class(targ), args, at)
	case "Validate":
		if gm, _, ok := h.msgOf(args[0]); ok && len(args) == 2 {
			return h.direct(x, st, gm, args, at)
		}
	}
	if strings.HasSuffix(base, "_IsValid") && len(args) == 1 {
		n := strings.TrimSuffix(ccfe.ClassName(targ), "_IsValid")
		e, ok := h.Enum[n]
		if !ok {
			return nil, false
		}
		h.use("protoc --cpp_out: E_IsValid accepts exactly the declared numbers of E")
		return sym.BoolV(govc.EnumDefined(e.Desc, x.Term(args[0], at))), true
	}
	return nil, false
}

func (h *Hooks) inner(x *sym.X, st *sym.State, v Val, m sym.MsgV, ok *Term) {
	if p, isp := v.(sym.PtrV); isp {
		st.Env[p.ID] = sym.Merge(ok, st.Env[p.ID], sym.OpaqueV{Kind: "errtext", T: smt.True, Args: []Val{m}})
	}
}

// embedded is the contract of Validator<T>::CheckMessage: the registered
// validation of T, acceptance when there is none.
func (h *Hooks) embedded(x *sym.X, st *sym.State, cls string, args []Val, at string) (Val, bool) {
	gm, m, ok := h.msgOf(args[0])
	if !ok || len(args) != 2 {
		return nil, false
	}
	if _, ok := args[1].(sym.PtrV); !ok {
		return nil, false
	}
	x.Oblige(st, smt.B(h.Name[goName(gm)] == cls), at, "CheckMessage of the message's own class")
	target, reg := h.Reg[cls]
	if !reg {
		return sym.BoolV(smt.True), true
	}
	if target != cls {
		panic(sym.Unsup{At: at, Why: fmt.Sprintf("%s validated by %s", cls, target)})
	}
	h.use("validate.h: CheckMessage runs the registered validation (property C21), which is the embedded message's own obligation")
	t := model.EmbValid(m.Ref)
	h.inner(x, st, args[1], m, t)
	return sym.BoolV(t), true
}

func (h *Hooks) direct(x *sym.X, st *sym.State, gm *protogen.Message, args []Val, at string) (Val, bool) {
	m := args[0].(sym.MsgV)
	if m.Ref.Op == "var" || spec.MsgFlag(h.W, gm, "ignored") {
		return nil, false
	}
	t := smt.True
	if !spec.MsgFlag(h.W, gm, "disabled") {
		t = model.EmbValid(m.Ref)
	}
	h.inner(x, st, args[1], m, t)
	return sym.BoolV(t), true
}

// ClassOf is the C++ class of a message.
func (h *Hooks) ClassOf(m *protogen.Message) string { return cppName(m.Desc) }
