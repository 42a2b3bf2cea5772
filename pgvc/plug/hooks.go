package plug

import (
	"fmt"
	"regexp/syntax"
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvc/gen"
	"pgvc/govc"
	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/sym"
)

type Val = sym.Val

func init() {
	smt.Funcs["re2ok"] = &smt.Func{Eval: func(_ string, a []any) any {
		_, err := syntax.Parse(a[0].(string), syntax.Perl)
		return err == nil
	}}
}

// Hooks gives the contracts of what the rule checker calls.
type Hooks struct {
	*govc.Hooks
	S    *S
	Pkg  string // import path of the module package
	Kind *string
	// own is the function being verified: its recursive calls use the contract
	Own string
	Mut map[string]bool // "type.Field" assigned somewhere in the package
	// Unit is the templates package being verified, TplName the template's name
	Unit    string
	TplName *string
}

const pgs = "github.com/lyft/protoc-gen-star."
const val = "github.com/envoyproxy/protoc-gen-validate/validate."

func NewHooks(w *gen.World, pkg string) (*Hooks, error) {
	d, err := w.Reg.FindDescriptorByName("validate.FieldRules")
	if err != nil {
		return nil, err
	}
	return &Hooks{Hooks: govc.NewHooks(w), S: &S{d.(protoreflect.MessageDescriptor)}, Pkg: pkg, Mut: map[string]bool{}}, nil
}

func op(kind string, t *smt.Term) sym.OpaqueV { return sym.OpaqueV{Kind: kind, T: t} }

func optptr(has *smt.Term, v Val) Val { return sym.OpaqueV{Kind: "optptr", T: has, Args: []Val{v}} }

var elemMethods = map[string]bool{"ParentType": true, "ProtoType": true, "IsEmbed": true, "IsEnum": true, "Imports": true, "Enum": true, "Embed": true, "setType": true}
var fieldMethods = map[string]bool{"Field": true, "IsRepeated": true, "IsMap": true, "IsEnum": true, "IsEmbed": true, "IsOptional": true, "IsRequired": true,
	"ProtoType": true, "ProtoLabel": true, "Imports": true, "Enum": true, "Embed": true, "Element": true, "Key": true, "setField": true, "toElem": true}

func (h *Hooks) Matches(x *sym.X, v Val, t *ir.T) (*smt.Term, Val, bool) {
	switch u := v.(type) {
	case sym.OpaqueV:
		if u.Kind == "ftype" && t.K == ir.KIface {
			elem, fld := true, true
			for _, m := range t.Methods {
				elem = elem && elemMethods[m]
				fld = fld && fieldMethods[m]
			}
			c := smt.Or(smt.And(smt.B(fld), tyField(u.T)), smt.And(smt.B(elem), smt.Not(tyField(u.T))))
			return c, v, true
		}
	case sym.OneofV:
		if h.Kind != nil && t != nil {
			oo := h.S.typeOO()
			for i := 0; i < oo.Fields().Len(); i++ {
				fd := oo.Fields().Get(i)
				c, b, ok := h.Hooks.Matches(x, v, t)
				if ok && c == smt.Eq(model.Which(u.Ref, oo), smt.IntC(int64(fd.Number()))) {
					return smt.B(string(fd.Name()) == *h.Kind), b, true
				}
			}
		}
	}
	return h.Hooks.Matches(x, v, t)
}

func (h *Hooks) IsNil(x *sym.X, v Val) (*smt.Term, bool) {
	switch u := v.(type) {
	case sym.ListV:
		if strings.HasPrefix(u.Tag, "tpls:") { // the list under a known key
			return smt.False, true
		}
	case sym.OpaqueV:
		switch u.Kind {
		case "pmsg", "penum":
			return model.IsNil(u.T), true
		case "pfopts":
			return model.IsNil(fOpts(u.T)), true
		case "ftype", "pfield", "module", "rval", "ext", "newdur", "pfile", "tpl", "pfdesc", "params", "psvc", "ppkg", "poneof", "artifacts", "goctx":
			return smt.False, true
		}
	case sym.OneofV:
		if h.Kind != nil {
			return smt.B(*h.Kind == ""), true
		}
	}
	return h.Hooks.IsNil(x, v)
}

func (h *Hooks) Deref(x *sym.X, st *sym.State, v Val, at string) (Val, bool) {
	switch u := v.(type) {
	case sym.UnionV:
		var out sym.UnionV
		for _, a := range u {
			if n := x.IsNilVal(a.V); n.IsTrue() {
				x.Oblige(st, smt.Not(a.G), at, "nil dereference")
				continue
			} else if !n.IsFalse() {
				x.Oblige(st, smt.Not(smt.And(a.G, n)), at, "nil dereference")
			}
			var y Val
			switch p := a.V.(type) {
			case sym.OpaqueV:
				if p.Kind != "optptr" {
					return nil, false
				}
				y = p.Args[0]
			case sym.PtrV:
				y = st.Env[p.ID]
			default:
				return nil, false
			}
			out = append(out, sym.Alt{G: a.G, V: y})
		}
		if len(out) == 0 {
			return nil, false
		}
		r := out[len(out)-1].V
		for i := len(out) - 2; i >= 0; i-- {
			r = sym.Merge(out[i].G, out[i].V, r)
		}
		return r, true
	}
	return h.Hooks.Deref(x, st, v, at)
}

func (h *Hooks) AddrOf(x *sym.X, v Val) (Val, bool) {
	if t, ok := v.(sym.TV); ok {
		return optptr(smt.True, t), true
	}
	return nil, false
}

func (h *Hooks) Global(x *sym.X, name string, t *ir.T) (Val, bool) {
	if strings.HasPrefix(name, val+"E_") {
		return sym.OpaqueV{Kind: "ext", T: smt.StrC(strings.TrimPrefix(name, val+"E_"))}, true
	}
	return h.Hooks.Global(x, name, t)
}

func fldKey(ref *smt.Term, name string) string { return fmt.Sprintf("fld:%d:%s", ref.ID, name) }

func (h *Hooks) Field(x *sym.X, st *sym.State, v Val, name, at string) (Val, bool) {
	switch u := v.(type) {
	case sym.OpaqueV:
		if u.Kind == "module" {
			switch name {
			case "ModuleBase", "BuildContext":
				return v, true
			case "ctx":
				return op("goctx", smt.True), true
			}
			return nil, false
		}
		switch u.Kind + "." + name {
		case "pfdesc.Dependency":
			return h.deps(u.T), true
		case "pfopts.JavaOuterClassname", "pfopts.JavaPackage":
			x.Oblige(st, smt.Not(model.IsNil(fOpts(u.T))), at, "nil dereference ."+name)
			return optptr(optHas(name, u.T), sym.StrV(optStr(name, u.T))), true
		}
	case sym.PtrV:
		if w, ok := st.Env[u.ID]; ok {
			return h.Field(x, st, w, name, at)
		}
	case sym.MsgV:
		if st != nil {
			if w, ok := st.Env[fldKey(u.Ref, name)]; ok {
				return w, true
			}
		}
	}
	return h.Hooks.Field(x, st, v, name, at)
}

func (h *Hooks) StoreField(x *sym.X, st *sym.State, base Val, name string, v Val, at string) bool {
	m, ok := base.(sym.MsgV)
	if !ok {
		return false
	}
	k := fldKey(m.Ref, name)
	if _, ok := st.Env[k]; !ok {
		return false
	}
	x.Oblige(st, smt.Not(model.IsNil(m.Ref)), at, "nil dereference ."+name)
	st.Env[k] = v
	return true
}

// Prepare enters the mutable fields of a rule message into the state.
func (h *Hooks) Prepare(x *sym.X, st *sym.State, m sym.MsgV) {
	gm := h.W.GoMsg[m.Go]
	if gm == nil {
		return
	}
	for _, f := range gm.Fields {
		if h.Mut[m.Go+"."+f.GoName] {
			if v, ok := h.Hooks.Field(x, sym.NewState(), m, f.GoName, ""); ok {
				st.Env[fldKey(m.Ref, f.GoName)] = v
			}
		}
	}
}

func noop(meth string) bool {
	switch meth {
	case "Push", "PushDir", "Pop", "PopDir", "Debug", "Debugf", "Log", "Logf":
		return true
	}
	return false
}

func (h *Hooks) use(n string) { h.Hooks.Use(n) }

func (h *Hooks) Call(x *sym.X, st *sym.State, name string, recv Val, args []Val, c *ir.Call) (Val, bool) {
	at := ""
	if c != nil {
		at = c.At
	}
	if p, ok := recv.(sym.PtrV); ok {
		if w, ok := st.Env[p.ID]; ok {
			if _, ok := w.(sym.MsgV); ok {
				recv = w
			}
		}
	}
	meth := name[strings.LastIndexByte(name, '.')+1:]
	if m, ok := recv.(sym.MsgV); ok && strings.HasPrefix(meth, "Get") {
		// an accessor sees assignments to the field
		if w, ok := st.Env[fldKey(m.Ref, meth[3:])]; ok {
			old := h.fieldVal(m, meth[3:])
			if old == nil {
				return nil, false
			}
			n := x.IsNilVal(w)
			if n.IsTrue() {
				return sym.StrV(smt.StrC("")), true
			}
			d, ok := h.Deref(x, sym.NewState(), w, at)
			if !ok {
				return nil, false
			}
			return sym.Merge(n, sym.StrV(smt.StrC("")), d), true
		}
	}
	switch r := recv.(type) {
	case sym.OpaqueV:
		switch r.Kind {
		case "module":
			if noop(meth) {
				return recv, true
			}
			switch meth {
			case "Assert":
				h.use("protoc-gen-star: Assert(c) ends the run when c is false; Fail/Failf always; CheckErr(err) when err is non-nil")
				x.ThrowIf(st, smt.Not(x.IsTrue(args[0])), nil, at)
				return sym.TupleV{}, true
			case "Fail", "Failf", "Exit":
				x.Throw(st, nil, at)
				return sym.TupleV{}, true
			case "CheckErr":
				x.ThrowIf(st, smt.Not(x.IsNilVal(args[0])), nil, at)
				return sym.TupleV{}, true
			case "CheckFieldRules":
				// recursion, and the calls from other functions: by contract
				if h.inside(x, "CheckFieldRules") || h.Own != "CheckFieldRules" {
					t, ok1 := args[0].(sym.OpaqueV)
					rv := args[1]
					if p, ok := rv.(sym.PtrV); ok {
						rv = st.Env[p.ID]
					}
					m, ok2 := rv.(sym.MsgV)
					if !ok1 || !ok2 || t.Kind != "ftype" {
						return nil, false
					}
					x.ThrowIf(st, badRules(t.T, m.Ref), nil, at)
					return sym.TupleV{}, true
				}
			case "CheckRules":
				if m, ok := args[0].(sym.OpaqueV); ok && h.Own != "CheckRules" && m.Kind == "pmsg" {
					x.ThrowIf(st, smt.App("badmsg", smt.Bool, m.T), nil, at)
					return sym.TupleV{}, true
				}
			case "MustType":
				// recursion by contract
				if h.inside(x, "MustType") && len(args) == 3 {
					t, ok1 := args[0].(sym.OpaqueV)
					pt, w := x.Term(args[1], at), x.Term(args[2], at)
					if !ok1 || t.Kind != "ftype" {
						return nil, false
					}
					x.ThrowIf(st, smt.Not(MustOK(t.T, pt, w)), nil, at)
					return sym.TupleV{}, true
				}
			}
			return h.executeCall(x, st, name, meth, recv, args, at)
		case "ftype":
			h.use("protoc-gen-star: FieldType/FieldTypeElem describe the field (label, map, type, message, enum, element, key)")
			switch meth {
			case "IsRepeated":
				return sym.BoolV(tyRep(r.T)), true
			case "IsMap":
				return sym.BoolV(tyMap(r.T)), true
			case "IsEmbed":
				return sym.BoolV(smt.And(smt.Not(tyRep(r.T)), smt.Not(tyMap(r.T)), isEmbed(r.T))), true
			case "IsEnum":
				return sym.BoolV(smt.And(smt.Not(tyRep(r.T)), smt.Not(tyMap(r.T)), smt.Eq(tyProto(r.T), smt.IntC(14)))), true
			case "ProtoType":
				return sym.TV{T: tyProto(r.T), Y: &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: pgs + "ProtoType"}}, true
			case "Embed":
				return op("pmsg", tyMsg(r.T)), true
			case "Enum":
				return op("penum", tyEnum(r.T)), true
			case "Element":
				x.Oblige(st, smt.Or(tyRep(r.T), tyMap(r.T)), at, "element type of a plain field")
				return op("ftype", tyElem(r.T)), true
			case "Key":
				x.Oblige(st, tyMap(r.T), at, "key type of a field that is no map")
				return op("ftype", tyKey(r.T)), true
			}
			return nil, false
		case "pmsg":
			x.Oblige(st, smt.Not(model.IsNil(r.T)), at, "nil message ."+meth)
			switch meth {
			case "IsWellKnown":
				return sym.BoolV(smt.Not(smt.Eq(msgWKT(r.T), smt.StrC("Unknown")))), true
			case "WellKnownType":
				return sym.TV{T: msgWKT(r.T), Y: &ir.T{K: ir.KStr, Name: pgs + "WellKnownType"}}, true
			case "Fields":
				return sym.ListV{Tag: "fields:" + r.T.String(), Len: nFields(r.T), At: func(i *smt.Term) Val {
					return op("pfield", fieldOf(r.T, i))
				}}, true
			case "Name", "FullyQualifiedName":
				return op("pname", r.T), true
			case "Extension":
				return h.extension(x, st, r, args)
			}
			return nil, false
		case "pfield":
			switch meth {
			case "Name", "FullyQualifiedName":
				return op("pname", r.T), true
			case "Type":
				return op("ftype", fieldType(r.T)), true
			case "Extension":
				return h.extension(x, st, r, args)
			}
			return nil, false
		case "penum":
			if meth == "Values" {
				x.Oblige(st, smt.Not(model.IsNil(r.T)), at, "nil enum")
				return sym.ListV{Tag: "enum:" + r.T.String(), Len: enumN(r.T), At: func(i *smt.Term) Val { return sym.OpaqueV{Kind: "penumv", T: enumV(r.T, i)} }}, true
			}
		case "penumv":
			if meth == "Value" {
				return sym.TV{T: r.T, Y: &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: "int32"}}, true
			}
		case "pname":
			if meth == "String" || meth == "UpperCamelCase" {
				return sym.StrV(smt.App("pname", smt.Str, r.T)), true
			}
		case "rval":
			switch meth {
			case "IsNil":
				h.use("reflect: ValueOf(p).IsNil and DeepEqual on pointers to scalars")
				return sym.BoolV(x.IsNilVal(r.Args[0])), true
			case "IsValid":
				if _, isNil := r.Args[0].(sym.NilV); isNil {
					return sym.BoolV(smt.False), true
				}
				return sym.BoolV(smt.True), true
			}
		}
	case sym.TV:
		if r.Y != nil && r.Y.Name == pgs+"ProtoType" {
			switch meth {
			case "Proto", "String":
				return sym.PoisonV{Why: "type name for a message"}, true
			}
		}
		if r.Y != nil && r.Y.Name == pgs+"WellKnownType" {
			switch meth {
			case "Valid":
				return sym.BoolV(smt.Not(smt.Eq(r.T, smt.StrC("Unknown")))), true
			case "Name":
				return op("pname", r.T), true
			}
		}
		if en := h.enumOf(r.Y); en != nil && meth == "String" {
			t := smt.App("enumtext", smt.Str, r.T)
			for i := en.Values().Len() - 1; i >= 0; i-- {
				v := en.Values().Get(i)
				t = smt.Ite(smt.Eq(r.T, smt.IntC(int64(v.Number()))), smt.StrC(string(v.Name())), t)
			}
			h.use("protoc-gen-go: an enum's String is the name of the value")
			return sym.StrV(t), true
		}
	}
	if v, ok := h.executeCall(x, st, name, meth, recv, args, at); ok {
		return v, true
	}
	if v, ok := h.tmplCall(x, st, name, meth, recv, args, at); ok {
		return v, true
	}
	switch name {
	case "reflect.ValueOf":
		return sym.OpaqueV{Kind: "rval", T: smt.True, Args: args}, true
	case "reflect.DeepEqual":
		return h.deepEqual(x, args[0], args[1])
	case "google.golang.org/protobuf/proto.Int64", "google.golang.org/protobuf/proto.String", "google.golang.org/protobuf/proto.Uint64", "google.golang.org/protobuf/proto.Bool":
		return optptr(smt.True, args[0]), true
	case "google.golang.org/protobuf/types/known/durationpb.New":
		return op("newdur", x.Term(args[0], at)), true
	case "google.golang.org/protobuf/proto.Equal":
		a, b := args[0], args[1]
		if _, ok := a.(sym.MsgV); ok {
			a, b = b, a
		}
		d, ok1 := a.(sym.OpaqueV)
		m, ok2 := b.(sym.MsgV)
		if ok1 && ok2 && d.Kind == "newdur" {
			gm := h.W.GoMsg[m.Go]
			if gm != nil && gm.Desc.FullName() == "google.protobuf.Duration" {
				h.use("durationpb.New(d) is the canonical message of d; proto.Equal compares field by field")
				s, n := secNanos(gm.Desc, m.Ref)
				canon := smt.And(smt.Lt(smt.Sub(smt.IntC(0), billion), n), smt.Lt(n, billion),
					smt.Not(smt.And(smt.Lt(smt.IntC(0), s), smt.Lt(n, smt.IntC(0)))), smt.Not(smt.And(smt.Lt(s, smt.IntC(0)), smt.Lt(smt.IntC(0), n))))
				return sym.BoolV(smt.And(smt.Not(model.IsNil(m.Ref)), canon, smt.Eq(d.T, nsOf(gm.Desc, m.Ref)))), true
			}
		}
		return nil, false
	case "regexp.Compile", "regexp/syntax.Parse":
		if s, ok := termOf(args[0]); ok && s.Sort == smt.Str {
			h.use("regexp: Compile fails exactly on texts that are not RE2 expressions")
			return sym.TupleV{sym.PoisonV{Why: "compiled pattern"}, sym.ErrV{NonNil: smt.Not(re2ok(s)), Src: "regexp"}}, true
		}
	}
	if strings.HasPrefix(name, "(time.Time).") && meth == "UnixNano" {
		if o, ok := recv.(sym.OpaqueV); ok && o.Kind == "time" {
			h.use("time: UnixNano wraps at 64 bits")
			return sym.TV{T: sym.Wrap(o.T, i64), Y: i64}, true
		}
	}
	return h.Hooks.Call(x, st, name, recv, args, c)
}

var i64 = &ir.T{K: ir.KInt, Bits: 64, Signed: true, Name: "int64"}

func termOf(v Val) (*smt.Term, bool) {
	switch u := v.(type) {
	case sym.TV:
		return u.T, true
	case sym.TypedV:
		return termOf(u.V)
	}
	return nil, false
}

func (h *Hooks) inside(x *sym.X, meth string) bool {
	for _, s := range x.Stack() {
		if strings.HasSuffix(s, ")."+meth) {
			return true
		}
	}
	return false
}

func (h *Hooks) fieldVal(m sym.MsgV, name string) Val {
	gm := h.W.GoMsg[m.Go]
	if gm == nil {
		return nil
	}
	for _, f := range gm.Fields {
		if f.GoName == name {
			return govc.FieldVal(m.Ref, f)
		}
	}
	return nil
}

func (h *Hooks) enumOf(t *ir.T) protoreflect.EnumDescriptor {
	if t == nil {
		return nil
	}
	if en, ok := h.W.GoEnum[t.Name]; ok {
		return en.Desc
	}
	return nil
}

func (h *Hooks) extension(x *sym.X, st *sym.State, on sym.OpaqueV, args []Val) (Val, bool) {
	e, ok1 := args[0].(sym.OpaqueV)
	p, ok2 := args[1].(sym.PtrV)
	if !ok1 || !ok2 || e.Kind != "ext" {
		return nil, false
	}
	h.use("protoc-gen-star: Extension reads the option (decoding of options by protoc is trusted not to fail)")
	var v Val
	switch e.T.Name + "/" + on.Kind {
	case "Rules/pfield":
		v = sym.MsgV{Ref: fieldRules(on.T), Go: strings.TrimSuffix(val, ".") + ".FieldRules"}
	case "Disabled/pmsg":
		v = sym.BoolV(disabled(on.T))
	case "Ignored/pmsg":
		v = sym.BoolV(smt.App("pm.ignored", smt.Bool, on.T))
	case "Required/poneof":
		v = sym.BoolV(smt.App("oo.required", smt.Bool, on.T))
	default:
		return nil, false
	}
	st.Env[p.ID] = v
	return sym.TupleV{sym.BoolV(smt.App("pf.has"+e.T.Name, smt.Bool, on.T)), sym.ErrV{NonNil: smt.False, Src: "extension"}}, true
}

// deepEqual of two pointers to scalars (or times).
func (h *Hooks) deepEqual(x *sym.X, a, b Val) (Val, bool) {
	pa, ok1 := pointee(x, a)
	pb, ok2 := pointee(x, b)
	if !ok1 || !ok2 {
		return nil, false
	}
	na, nb := x.IsNilVal(a), x.IsNilVal(b)
	eq := smt.True
	if pa != nil && pb != nil {
		if pa.Sort != pb.Sort {
			return nil, false
		}
		eq = numEq(pa, pb)
	}
	return sym.BoolV(smt.Or(smt.And(na, nb), smt.And(smt.Not(na), smt.Not(nb), eq))), true
}

func pointee(x *sym.X, v Val) (*smt.Term, bool) {
	switch u := v.(type) {
	case sym.NilV:
		return nil, true
	case sym.OpaqueV:
		switch u.Kind {
		case "optptr":
			switch w := u.Args[0].(type) {
			case sym.TV:
				return w.T, true
			case sym.OpaqueV:
				if w.Kind == "time" {
					return w.T, true
				}
			}
		}
	case sym.UnionV:
		var r *smt.Term
		for _, a := range u {
			t, ok := pointee(x, a.V)
			if !ok {
				return nil, false
			}
			if t == nil {
				continue
			}
			if r == nil {
				r = t
			} else if r.Sort != t.Sort {
				return nil, false
			} else {
				r = smt.Ite(a.G, t, r)
			}
		}
		return r, true
	case sym.TypedV:
		return pointee(x, u.V)
	}
	return nil, false
}

// MustOK is the contract of MustType: the field has this type, or the wrapper.
func MustOK(t, pt, w *smt.Term) *smt.Term {
	wk := smt.And(smt.Not(model.IsNil(tyMsg(t))), smt.Not(smt.Eq(msgWKT(tyMsg(t)), smt.StrC("Unknown"))), smt.Eq(msgWKT(tyMsg(t)), w))
	f0 := msgF0(tyMsg(t))
	return smt.Ite(wk, smt.And(smt.Not(tyRep(f0)), smt.Eq(tyProto(f0), pt)), smt.And(smt.Not(tyRep(t)), smt.Eq(tyProto(t), pt)))
}
