// Package govc gives the contracts of everything the generated Go code calls
// (protoc-gen-go accessors, embedded validation, the standard library) and
// drives the verification of the generated methods.
package govc

import (
	"fmt"
	"math"
	"math/big"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/known/durationpb"
	"google.golang.org/protobuf/types/known/timestamppb"

	"pgvc/gen"
	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/sym"
)

type Term = smt.Term
type Val = sym.Val

// Hooks for the Go code of a world.
type Hooks struct {
	W *gen.World
	// Used records the contracts that were relied upon.
	mu   sync.Mutex
	Used map[string]bool
}

func NewHooks(w *gen.World) *Hooks { return &Hooks{W: w, Used: map[string]bool{}} }

func (h *Hooks) Use(n string) { h.use(n) }

func (h *Hooks) use(n string) {
	h.mu.Lock()
	h.Used[n] = true
	h.mu.Unlock()
}

// UsedList is the sorted list of assumed contracts.
func (h *Hooks) UsedList() []string {
	var out []string
	for k := range h.Used {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func identName(id protogen.GoIdent) string { return string(id.GoImportPath) + "." + id.GoName }

// scalarT is the Go type of a scalar field value.
func scalarT(f *protogen.Field) *ir.T {
	switch f.Desc.Kind() {
	case protoreflect.BoolKind:
		return &ir.T{K: ir.KBool, Name: "bool"}
	case protoreflect.EnumKind:
		return &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: identName(f.Enum.GoIdent)}
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
		return &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: "int32"}
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return &ir.T{K: ir.KInt, Bits: 64, Signed: true, Name: "int64"}
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return &ir.T{K: ir.KInt, Bits: 32, Name: "uint32"}
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return &ir.T{K: ir.KInt, Bits: 64, Name: "uint64"}
	case protoreflect.FloatKind:
		return &ir.T{K: ir.KFloat, Bits: 32, Name: "float32"}
	case protoreflect.DoubleKind:
		return &ir.T{K: ir.KFloat, Bits: 64, Name: "float64"}
	case protoreflect.StringKind:
		return &ir.T{K: ir.KStr, Name: "string"}
	case protoreflect.BytesKind:
		return &ir.T{K: ir.KStr, Bytes: true, Name: "[]byte"}
	}
	return &ir.T{K: ir.KPtr, Name: "*" + identName(f.Message.GoIdent)}
}

func elemVal(f *protogen.Field, t *Term) Val {
	if f.Message != nil {
		return sym.MsgV{Ref: t, Go: identName(f.Message.GoIdent)}
	}
	return sym.TV{T: t, Y: scalarT(f)}
}

// FieldVal is the value the accessor of f yields.
func FieldVal(ref *Term, f *protogen.Field) Val {
	d := f.Desc
	switch {
	case d.IsMap():
		kf, vf := f.Message.Fields[0], f.Message.Fields[1]
		return sym.MapV{Len: model.MapLen(ref, d), Tag: "map:" + string(d.FullName()) + ref.String(),
			Key: func(i *Term) Val { return elemVal(kf, model.MapKey(ref, d, i)) },
			At:  func(i *Term) Val { return elemVal(vf, model.MapVal(ref, d, i)) }}
	case d.IsList():
		return sym.ListV{Len: model.ListLen(ref, d), Tag: "list:" + string(d.FullName()) + ref.String(),
			At: func(i *Term) Val { return elemVal(f, model.ListAt(ref, d, i)) }}
	}
	return elemVal(f, model.Get(ref, d))
}

func (h *Hooks) msg(v Val) (*protogen.Message, sym.MsgV, bool) {
	m, ok := v.(sym.MsgV)
	if !ok {
		return nil, m, false
	}
	gm, ok := h.W.GoMsg[m.Go]
	return gm, m, ok
}

func (h *Hooks) TypeOf(v Val) string {
	switch v := v.(type) {
	case sym.MsgV:
		return "*" + v.Go
	case sym.StructV:
		return v.Ty
	case sym.TypedV:
		return v.Ty
	case sym.TV:
		if v.Y != nil {
			return v.Y.Name
		}
	case sym.MemberV:
		return "*" + identName(v.Field.(*protogen.Field).GoIdent)
	}
	return ""
}

func (h *Hooks) Matches(x *sym.X, v Val, t *ir.T) (*Term, Val, bool) {
	switch u := v.(type) {
	case sym.OneofV:
		oo := u.OO.(*protogen.Oneof)
		for _, f := range oo.Fields {
			if t.Name == "*"+identName(f.GoIdent) {
				return smt.Eq(model.Which(u.Ref, oo.Desc), smt.IntC(int64(f.Desc.Number()))), sym.MemberV{Ref: u.Ref, Field: f}, true
			}
		}
	case sym.ErrV:
		if t.Name == "error" {
			return u.NonNil, v, true
		}
	}
	return nil, nil, false
}

func (h *Hooks) IsNil(x *sym.X, v Val) (*Term, bool) {
	switch u := v.(type) {
	case sym.OneofV:
		return smt.Eq(model.Which(u.Ref, u.OO.(*protogen.Oneof).Desc), smt.IntC(0)), true
	case sym.MemberV:
		return smt.False, true
	case sym.OpaqueV:
		switch u.Kind {
		case "iptext":
			return smt.Eq(u.T, smt.IntC(0)), true
		case "ipaddr": // nil-able address: T is non-nilness
			return smt.Not(u.T), true
		case "url":
			return smt.Not(model.URLOK(u.T)), true
		case "mailaddr":
			return smt.Not(model.MailOK(u.T)), true
		case "optptr":
			return smt.Not(u.T), true
		case "regexp", "time":
			return smt.False, true
		}
	}
	return nil, false
}

func (h *Hooks) Deref(x *sym.X, st *sym.State, v Val, at string) (Val, bool) {
	if u, ok := v.(sym.OpaqueV); ok && u.Kind == "optptr" {
		x.Oblige(st, u.T, at, "nil dereference")
		return u.Args[0], true
	}
	return nil, false
}

func (h *Hooks) Field(x *sym.X, st *sym.State, v Val, name, at string) (Val, bool) {
	switch u := v.(type) {
	case sym.MsgV:
		gm, m, ok := h.msg(v)
		if !ok {
			return nil, false
		}
		x.Oblige(st, smt.Not(model.IsNil(m.Ref)), at, "nil dereference ."+name)
		for _, oo := range gm.Oneofs {
			if oo.GoName == name && !oo.Desc.IsSynthetic() {
				return sym.OneofV{Ref: m.Ref, Go: m.Go, OO: oo}, true
			}
		}
		for _, f := range gm.Fields {
			if f.GoName == name && (f.Oneof == nil || f.Oneof.Desc.IsSynthetic()) {
				if f.Message == nil && f.Desc.HasPresence() && f.Desc.Kind() != protoreflect.BytesKind {
					return sym.OpaqueV{Kind: "optptr", T: model.Has(m.Ref, f.Desc), Args: []Val{FieldVal(m.Ref, f)}}, true
				}
				return FieldVal(m.Ref, f), true
			}
		}
	case sym.MemberV:
		f := u.Field.(*protogen.Field)
		if f.GoName == name {
			return FieldVal(u.Ref, f), true
		}
	case sym.OpaqueV:
		if u.Kind == "mailaddr" && name == "Address" {
			x.Oblige(st, model.MailOK(u.T), at, "nil dereference .Address")
			return sym.StrV(model.MailAddr(u.T)), true
		}
	}
	return nil, false
}

func (h *Hooks) Global(x *sym.X, name string, t *ir.T) (Val, bool) {
	if strings.HasSuffix(name, "_name") {
		if en, ok := h.W.GoEnum[strings.TrimSuffix(name, "_name")]; ok {
			h.use("protoc-gen-go: E_name maps exactly the declared numbers of E")
			return sym.ConstMap{Has: func(k *Term) *Term { return EnumDefined(en.Desc, k) }}, true
		}
	}
	return nil, false
}

// EnumDefined says k is the number of a declared value.
func EnumDefined(ed protoreflect.EnumDescriptor, k *Term) *Term {
	r := smt.False
	seen := map[int32]bool{}
	for i := 0; i < ed.Values().Len(); i++ {
		n := int32(ed.Values().Get(i).Number())
		if !seen[n] {
			seen[n] = true
			r = smt.Or(r, smt.Eq(k, smt.IntC(int64(n))))
		}
	}
	return r
}

func (h *Hooks) Conv(x *sym.X, st *sym.State, v Val, t *ir.T, at string) (Val, bool) {
	return nil, false
}

var billion = smt.IntC(1000000000)
var maxI64 = smt.BigC(new(big.Int).SetUint64(1<<63 - 1))
var minI64 = smt.BigC(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63)))

// Clamp saturates to int64.
func Clamp(t *Term) *Term {
	return smt.Ite(smt.Lt(t, minI64), minI64, smt.Ite(smt.Lt(maxI64, t), maxI64, t))
}

func init() {
	smt.Funcs["durraw"] = &smt.Func{Eval: func(_ string, a []any) any {
		d := &durationpb.Duration{Seconds: a[0].(*big.Int).Int64(), Nanos: int32(a[1].(*big.Int).Int64())}
		return big.NewInt(int64(d.AsDuration()))
	}, Axioms: func(string) []string {
		return []string{"(forall ((s Int) (n Int)) (! (and (<= (- 9223372036854775808) (durraw s n)) (<= (durraw s n) 9223372036854775807)) :pattern ((durraw s n))))"}
	}}
	smt.Funcs["tsraw"] = &smt.Func{Eval: func(_ string, a []any) any {
		d := &timestamppb.Timestamp{Seconds: a[0].(*big.Int).Int64(), Nanos: int32(a[1].(*big.Int).Int64())}
		t := d.AsTime()
		b := new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1000000000))
		return b.Add(b, big.NewInt(int64(t.Nanosecond())))
	}}
}

func (h *Hooks) secNanos(m sym.MsgV) (sec, nanos *Term) {
	gm := h.W.GoMsg[m.Go]
	return model.Get(m.Ref, gm.Fields[0].Desc), model.Get(m.Ref, gm.Fields[1].Desc)
}

// DurValid is durationpb's CheckValid on a non-nil message.
func DurValid(sec, nanos *Term) *Term {
	lim := smt.IntC(315576000000)
	neg := func(t *Term) *Term { return smt.Sub(smt.IntC(0), t) }
	return smt.And(smt.Le(neg(lim), sec), smt.Le(sec, lim),
		smt.Lt(neg(billion), nanos), smt.Lt(nanos, billion),
		smt.Not(smt.And(smt.Lt(smt.IntC(0), sec), smt.Lt(nanos, smt.IntC(0)))),
		smt.Not(smt.And(smt.Lt(sec, smt.IntC(0)), smt.Lt(smt.IntC(0), nanos))))
}

// TSValid is timestamppb's CheckValid on a non-nil message.
func TSValid(sec, nanos *Term) *Term {
	return smt.And(smt.Le(smt.IntC(-62135596800), sec), smt.Le(sec, smt.IntC(253402300799)),
		smt.Le(smt.IntC(0), nanos), smt.Lt(nanos, billion))
}

// NS is seconds and nanos in nanoseconds.
func NS(sec, nanos *Term) *Term { return smt.Add(smt.Mul(sec, billion), nanos) }

var durT = &ir.T{K: ir.KInt, Bits: 64, Signed: true, Name: "time.Duration"}

func timeV(ns *Term) Val { return sym.OpaqueV{Kind: "time", T: ns} }

func isTime(v Val) (*Term, bool) {
	o, ok := v.(sym.OpaqueV)
	if ok && o.Kind == "time" {
		return o.T, true
	}
	return nil, false
}

func str(v Val) (*Term, bool) {
	switch u := v.(type) {
	case sym.TV:
		if u.T.Sort == smt.Str {
			return u.T, true
		}
	case sym.TypedV:
		return str(u.V)
	case sym.NilV:
		return smt.StrC(""), true
	}
	return nil, false
}

const errNew = "errors.New/fmt.Errorf return a non-nil error"

func (h *Hooks) Call(x *sym.X, st *sym.State, name string, recv Val, args []Val, c *ir.Call) (Val, bool) {
	at := ""
	if c != nil {
		at = c.At
	}
	// accessors of messages, and embedded validation
	if gm, m, ok := h.msg(recv); ok {
		meth := name[strings.LastIndexByte(name, '.')+1:]
		switch meth {
		case "Validate", "ValidateAll":
			if _, own := x.Unit.Funcs[name]; !own || m.Ref.Op != "var" || !strings.HasPrefix(m.Ref.Name, "self") {
				h.use("embedded messages: Validate/ValidateAll of the field's message return nil exactly on valid values (each message's own obligation)")
				return sym.ErrV{NonNil: smt.Not(model.EmbValid(m.Ref)), Src: "embedded", Arg: m}, true
			}
			return nil, false
		case "AsDuration":
			h.use("durationpb: AsDuration saturates to int64 nanoseconds; CheckValid accepts exactly the documented range")
			s, n := h.secNanos(m)
			return sym.TV{T: smt.Ite(DurValid(s, n), Clamp(NS(s, n)), smt.App("durraw", smt.Int, s, n)), Y: durT}, true
		case "AsTime":
			h.use("timestamppb: AsTime is seconds+nanos since the epoch; CheckValid accepts exactly years 1..9999")
			s, n := h.secNanos(m)
			return timeV(smt.Ite(TSValid(s, n), NS(s, n), smt.App("tsraw", smt.Int, s, n))), true
		case "CheckValid", "IsValid":
			s, n := h.secNanos(m)
			var ok *Term
			switch gm.Desc.FullName() {
			case "google.protobuf.Duration":
				ok = DurValid(s, n)
			case "google.protobuf.Timestamp":
				ok = TSValid(s, n)
			default:
				return nil, false
			}
			ok = smt.And(ok, smt.Not(model.IsNil(m.Ref)))
			if meth == "IsValid" {
				return sym.BoolV(ok), true
			}
			return sym.ErrV{NonNil: smt.Not(ok), Src: "invalid"}, true
		}
		if strings.HasPrefix(meth, "Get") && !strings.HasPrefix(name, "(interface") {
			n := meth[3:]
			h.use("protoc-gen-go: GetX returns the field, or its default on a nil message or an unset oneof member")
			for _, f := range gm.Fields {
				if f.GoName == n {
					return FieldVal(m.Ref, f), true
				}
			}
			for _, oo := range gm.Oneofs {
				if oo.GoName == n {
					return sym.OneofV{Ref: m.Ref, Go: m.Go, OO: oo}, true
				}
			}
		}
		return nil, false
	}
	if i := strings.LastIndexByte(name, '.'); i >= 0 && recv != nil {
		if v, ok := h.method(x, st, name, name[i+1:], recv, args, at); ok {
			return v, true
		}
		return nil, false
	}
	if v, ok := h.fn(x, st, name, args, at); ok {
		h.use(libDoc(name))
		return v, true
	}
	return nil, false
}

func libDoc(name string) string {
	switch {
	case name == "errors.New" || name == "fmt.Errorf":
		return errNew
	}
	return name + " as documented"
}

func (h *Hooks) method(x *sym.X, st *sym.State, name, meth string, recv Val, args []Val, at string) (Val, bool) {
	switch r := recv.(type) {
	case sym.RegexV:
		switch meth {
		case "MatchString", "Match":
			if s, ok := str(args[0]); ok {
				h.use("regexp: MatchString is unanchored RE2 search")
				return sym.BoolV(model.ReMatch(r.Pat, s)), true
			}
		case "String":
			return sym.StrV(smt.StrC(r.Pat)), true
		}
	case sym.ErrV:
		if meth == "Error" {
			return sym.OpaqueV{Kind: "errtext", T: smt.True, Args: []Val{recv}}, true
		}
	case sym.OpaqueV:
		switch r.Kind {
		case "iptext":
			h.use("net.IP.To4/To16 as documented")
			switch meth {
			case "To4":
				x.Oblige(st, smt.True, at, "")
				return sym.OpaqueV{Kind: "ipaddr", T: smt.Eq(r.T, smt.IntC(4))}, true
			case "To16":
				return sym.OpaqueV{Kind: "ipaddr", T: smt.Not(smt.Eq(r.T, smt.IntC(0)))}, true
			}
		case "url":
			if meth == "IsAbs" {
				x.Oblige(st, model.URLOK(r.T), at, "nil dereference (IsAbs)")
				h.use("net/url: Parse and IsAbs")
				return sym.BoolV(model.URLAbs(r.T)), true
			}
		case "errorElem":
			if meth == "Error" {
				return sym.OpaqueV{Kind: "errtext", T: r.T}, true
			}
		case "time":
			h.use("time: Time is a point on the nanosecond line; Sub saturates, Equal/Before/After compare, Add shifts")
			switch meth {
			case "Sub":
				if t, ok := isTime(args[0]); ok {
					return sym.TV{T: Clamp(smt.Sub(r.T, t)), Y: durT}, true
				}
			case "Equal":
				if t, ok := isTime(args[0]); ok {
					return sym.BoolV(smt.Eq(r.T, t)), true
				}
			case "Before":
				if t, ok := isTime(args[0]); ok {
					return sym.BoolV(smt.Lt(r.T, t)), true
				}
			case "After":
				if t, ok := isTime(args[0]); ok {
					return sym.BoolV(smt.Lt(t, r.T)), true
				}
			case "Compare":
				if t, ok := isTime(args[0]); ok {
					return sym.IntV(smt.Ite(smt.Lt(r.T, t), smt.IntC(-1), smt.Ite(smt.Lt(t, r.T), smt.IntC(1), smt.IntC(0)))), true
				}
			case "Add":
				return timeV(smt.Add(r.T, x.Term(args[0], at))), true
			case "UTC", "Local":
				return recv, true
			}
		}
	case sym.TV:
		if r.T.Sort == smt.Str {
			four := smt.Eq(model.BLen(r.T), smt.IntC(4))
			switch name {
			case "(net.IP).To4":
				h.use("net.IP.To4/To16 as documented")
				return sym.OpaqueV{Kind: "ipaddr", T: smt.Or(four, model.V4Mapped(r.T))}, true
			case "(net.IP).To16":
				h.use("net.IP.To4/To16 as documented")
				return sym.OpaqueV{Kind: "ipaddr", T: smt.Or(four, smt.Eq(model.BLen(r.T), smt.IntC(16)))}, true
			}
		}
		if name == "(time.Duration).String" {
			return sym.OpaqueV{Kind: "durtext", T: r.T}, true
		}
	}
	return nil, false
}

func (h *Hooks) fn(x *sym.X, st *sym.State, name string, args []Val, at string) (Val, bool) {
	ss := make([]*Term, len(args))
	all := true
	for i, a := range args {
		s, ok := str(a)
		ss[i] = s
		all = all && ok
	}
	yT := func(i int) *ir.T {
		if t, ok := args[i].(sym.TV); ok {
			return t.Y
		}
		return &ir.T{K: ir.KStr, Name: "string"}
	}
	if all {
		switch name {
		case "strings.HasPrefix", "bytes.HasPrefix":
			return sym.BoolV(model.HasPrefix(ss[0], ss[1])), true
		case "strings.HasSuffix", "bytes.HasSuffix":
			return sym.BoolV(model.HasSuffix(ss[0], ss[1])), true
		case "strings.Contains", "bytes.Contains":
			return sym.BoolV(model.Contains(ss[0], ss[1])), true
		case "bytes.Equal":
			return sym.BoolV(smt.Eq(ss[0], ss[1])), true
		case "strings.TrimSuffix", "bytes.TrimSuffix":
			return sym.TV{T: model.TrimSuffix(ss[0], ss[1]), Y: yT(0)}, true
		case "strings.TrimPrefix", "bytes.TrimPrefix":
			return sym.TV{T: model.TrimPrefix(ss[0], ss[1]), Y: yT(0)}, true
		case "strings.ToLower":
			return sym.StrV(smt.App("tolower", smt.Str, ss[0])), true
		case "strings.ToUpper":
			return sym.StrV(smt.App("toupper", smt.Str, ss[0])), true
		case "strings.LastIndex", "bytes.LastIndex":
			return sym.IntV(model.LastIdx(ss[0], ss[1])), true
		case "strings.Index", "bytes.Index":
			return sym.IntV(model.FirstIdx(ss[0], ss[1])), true
		case "strings.Split":
			return sym.ListV{Tag: fmt.Sprintf("split:%d:%d", ss[0].ID, ss[1].ID), Len: model.SplitN(ss[0], ss[1]), At: func(i *Term) Val { return sym.StrV(model.SplitAt(ss[0], ss[1], i)) }}, true
		case "utf8.RuneCountInString", "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
			return sym.IntV(model.Runes(ss[0])), true
		case "net.ParseIP":
			return sym.OpaqueV{Kind: "iptext", T: model.IPKind(ss[0])}, true
		case "net/url.Parse":
			return sym.TupleV{sym.OpaqueV{Kind: "url", T: ss[0]}, sym.ErrV{NonNil: smt.Not(model.URLOK(ss[0])), Src: "url"}}, true
		case "net/mail.ParseAddress":
			return sym.TupleV{sym.OpaqueV{Kind: "mailaddr", T: ss[0]}, sym.ErrV{NonNil: smt.Not(model.MailOK(ss[0])), Src: "mail"}}, true
		case "regexp.MustCompile", "regexp.Compile":
			if ss[0].Op == "str" {
				_, err := syntax.Parse(ss[0].Name, syntax.Perl)
				if name == "regexp.MustCompile" {
					x.Oblige(st, smt.B(err == nil), at, "pattern compiles")
					return sym.RegexV{Pat: ss[0].Name}, true
				}
				return sym.TupleV{sym.RegexV{Pat: ss[0].Name}, sym.ErrV{NonNil: smt.B(err != nil), Src: "regexp"}}, true
			}
		case "regexp.MatchString":
			if ss[0].Op == "str" {
				if _, err := syntax.Parse(ss[0].Name, syntax.Perl); err == nil {
					return sym.TupleV{sym.BoolV(model.ReMatch(ss[0].Name, ss[1])), sym.ErrV{NonNil: smt.False, Src: "regexp"}}, true
				}
			}
		}
	}
	byteArg := func(i int) (string, bool) {
		if t, ok := args[i].(sym.TV); ok && t.T.Op == "int" && t.T.I.IsInt64() && t.T.I.Int64() >= 0 && t.T.I.Int64() < 128 {
			return string(rune(t.T.I.Int64())), true
		}
		return "", false
	}
	switch name {
	case "strings.IndexByte", "strings.IndexRune", "strings.LastIndexByte", "bytes.IndexByte", "bytes.LastIndexByte":
		if b, ok := byteArg(1); ok && ss[0] != nil {
			if strings.Contains(name, "Last") {
				return sym.IntV(model.LastIdx(ss[0], smt.StrC(b))), true
			}
			return sym.IntV(model.FirstIdx(ss[0], smt.StrC(b))), true
		}
	case "strings.ContainsRune":
		if b, ok := byteArg(1); ok && ss[0] != nil {
			return sym.BoolV(model.Contains(ss[0], smt.StrC(b))), true
		}
	case "strings.SplitN":
		if n, ok := args[2].(sym.TV); ok && n.T == smt.IntC(2) && ss[0] != nil && ss[1] != nil {
			c := model.Contains(ss[0], ss[1])
			return sym.ListV{Tag: fmt.Sprintf("split2:%d:%d", ss[0].ID, ss[1].ID), Len: smt.Ite(c, smt.IntC(2), smt.IntC(1)), At: func(i *Term) Val {
				if i == smt.IntC(0) {
					return sym.StrV(model.Before(ss[0], ss[1]))
				}
				if i == smt.IntC(1) {
					return sym.StrV(model.After(ss[0], ss[1]))
				}
				return sym.StrV(smt.Ite(smt.Eq(i, smt.IntC(0)), model.Before(ss[0], ss[1]), model.After(ss[0], ss[1])))
			}}, true
		}
	case "strings.Cut":
		if all {
			c := model.Contains(ss[0], ss[1])
			return sym.TupleV{sym.StrV(model.Before(ss[0], ss[1])), sym.StrV(smt.Ite(c, model.After(ss[0], ss[1]), smt.StrC(""))), sym.BoolV(c)}, true
		}
	case "math.Inf":
		if n, ok := args[0].(sym.TV); ok && n.T.Op == "int" {
			return sym.TV{T: smt.F64C(math.Inf(n.T.I.Sign())), Y: &ir.T{K: ir.KFloat, Bits: 64, Name: "float64"}}, true
		}
	case "math.NaN":
		return sym.TV{T: smt.F64C(math.NaN()), Y: &ir.T{K: ir.KFloat, Bits: 64, Name: "float64"}}, true
	case "math.IsNaN":
		if n, ok := args[0].(sym.TV); ok && n.T.Sort == smt.F64 {
			return sym.BoolV(smt.IsNaN(n.T)), true
		}
	case "errors.New", "fmt.Errorf":
		return sym.ErrV{NonNil: smt.True, Src: name, Arg: nil}, true
	case "fmt.Sprint", "fmt.Sprintln":
		if name == "fmt.Sprint" && len(args) == 1 {
			return sym.Cat(sym.Part{Arg: fmtArg('v', args[0])}), true
		}
	case "fmt.Sprintf":
		if ss[0] != nil && ss[0].Op == "str" {
			return sprintf(x, ss[0].Name, args[1:], at)
		}
	case "strconv.Itoa":
		return sym.Cat(sym.Part{Arg: args[0]}), true
	case "strconv.Quote":
		return sym.Cat(sym.Part{Arg: fmtArg('q', args[0])}), true
	case "time.Now":
		return timeV(model.Now()), true
	case "time.Unix":
		return timeV(NS(x.Term(args[0], at), x.Term(args[1], at))), true
	case "strings.Join":
		if ss[1] != nil && ss[1].Op == "str" {
			return sym.OpaqueV{Kind: "join", T: ss[1], Args: []Val{args[0]}}, true
		}
	}
	return nil, false
}

func fmtArg(verb byte, v Val) Val {
	if verb == 'v' || verb == 'd' || verb == 's' {
		return v
	}
	return sym.OpaqueV{Kind: "%" + string(verb), T: smt.True, Args: []Val{v}}
}

func sprintf(x *sym.X, f string, args []Val, at string) (Val, bool) {
	var parts []sym.Part
	lit := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if strings.IndexByte("vsdqxXt", f[i]) < 0 || k >= len(args) {
			return nil, false
		}
		a := args[k]
		k++
		if s, ok := a.(sym.TV); ok && s.T.Op == "str" && (f[i] == 's' || f[i] == 'v') {
			lit += s.T.Name
			continue
		}
		parts = append(parts, sym.Part{Lit: lit}, sym.Part{Arg: fmtArg(f[i], a)})
		lit = ""
	}
	if k != len(args) {
		return nil, false
	}
	parts = append(parts, sym.Part{Lit: lit})
	return sym.Cat(parts...), true
}

// Binary: string pieces that are opaque.
func (h *Hooks) Binary(x *sym.X, st *sym.State, op string, a, b Val, t *ir.T, at string) (Val, bool) {
	if op == "+" {
		_, o1 := a.(sym.OpaqueV)
		_, o2 := b.(sym.OpaqueV)
		if o1 || o2 {
			return sym.Cat(sym.Part{Arg: a}, sym.Part{Arg: b}), true
		}
	}
	return nil, false
}

var _ = fmt.Sprint
