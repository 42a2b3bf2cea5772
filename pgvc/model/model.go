// Package model fixes the mathematical reading of protobuf messages and of
// the library functions that specifications and code share.
package model

import (
	"fmt"
	"math/big"
	"sync"

	"google.golang.org/protobuf/reflect/protoreflect"

	. "pgvc/smt"
)

type FD = protoreflect.FieldDescriptor
type MD = protoreflect.MessageDescriptor

// KindTag is the term sort tag of a scalar kind.
func KindTag(k protoreflect.Kind) string {
	switch k {
	case protoreflect.BoolKind:
		return "b"
	case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind, protoreflect.EnumKind:
		return "i32"
	case protoreflect.Int64Kind, protoreflect.Sint64Kind, protoreflect.Sfixed64Kind:
		return "i64"
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
		return "u32"
	case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return "u64"
	case protoreflect.FloatKind:
		return "f32"
	case protoreflect.DoubleKind:
		return "f64"
	case protoreflect.StringKind, protoreflect.BytesKind:
		return "s"
	}
	return "r"
}

func tagSort(tag string) Sort {
	switch tag {
	case "b":
		return Bool
	case "f32":
		return F32
	case "f64":
		return F64
	case "s":
		return Str
	case "r":
		return Ref
	}
	return Int
}

// SortOf is the sort of a value of the field (element).
func SortOf(fd FD) Sort { return tagSort(KindTag(fd.Kind())) }

// Get is the value of a singular field as its accessor yields it: the field's
// default when unset or when the message is nil; a (possibly nil) reference
// for message fields.
func Get(ref *Term, fd FD) *Term {
	tag := KindTag(fd.Kind())
	return App("f"+tag+"#"+string(fd.FullName()), tagSort(tag), ref)
}

// Has is presence of a singular field.
func Has(ref *Term, fd FD) *Term {
	if fd.Kind() == protoreflect.MessageKind && fd.ContainingOneof() == nil {
		return Not(IsNil(Get(ref, fd)))
	}
	if oo := fd.ContainingOneof(); oo != nil && !oo.IsSynthetic() {
		return Eq(Which(ref, oo), IntC(int64(fd.Number())))
	}
	return App("has#"+string(fd.FullName()), Bool, ref)
}

func ListLen(ref *Term, fd FD) *Term { return App("llen#"+string(fd.FullName()), Int, ref) }
func ListAt(ref *Term, fd FD, i *Term) *Term {
	tag := KindTag(fd.Kind())
	return App("l"+tag+"#"+string(fd.FullName()), tagSort(tag), ref, i)
}
func MapLen(ref *Term, fd FD) *Term { return App("mlen#"+string(fd.FullName()), Int, ref) }
func MapKey(ref *Term, fd FD, i *Term) *Term {
	tag := KindTag(fd.MapKey().Kind())
	return App("k"+tag+"#"+string(fd.FullName()), tagSort(tag), ref, i)
}
func MapVal(ref *Term, fd FD, i *Term) *Term {
	tag := KindTag(fd.MapValue().Kind())
	return App("v"+tag+"#"+string(fd.FullName()), tagSort(tag), ref, i)
}

// Which is the field number of the set member (0: none).
func Which(ref *Term, oo protoreflect.OneofDescriptor) *Term {
	n := "which#" + string(oo.FullName())
	if _, ok := members.Load(n); !ok {
		var nums []string
		for i := 0; i < oo.Fields().Len(); i++ {
			nums = append(nums, fmt.Sprint(oo.Fields().Get(i).Number()))
		}
		members.Store(n, nums)
	}
	return App(n, Int, ref)
}

// members lists the field numbers of each oneof by its symbol.
var members sync.Map

func IsNil(ref *Term) *Term { return App("isnil", Bool, ref) }

// EmbValid is the contract of the embedded message's own validation.
func EmbValid(ref *Term) *Term { return App("valid", Bool, ref) }

// Now is the clock reading during validation, in nanoseconds since the epoch.
func Now() *Term { return App("now", Int) }

// Inst is a concrete message.
type Inst struct {
	MD  MD
	Nil bool
	F   map[protoreflect.Name]any // scalar | *Inst | []any | []KV
}
type KV struct{ K, V any }

func NewInst(md MD) *Inst { return &Inst{MD: md, F: map[protoreflect.Name]any{}} }

// Zero is the default of a scalar kind.
func Zero(fd FD) any {
	switch KindTag(fd.Kind()) {
	case "b":
		return false
	case "f32":
		return float32(0)
	case "f64":
		return float64(0)
	case "s":
		return ""
	case "r":
		return &Inst{MD: fd.Message(), Nil: true}
	}
	return new(big.Int)
}

// InstInterp gives the meaning of message terms on concrete instances.
func InstInterp(now *big.Int, valid func(*Inst) bool) Interp_ {
	return func(name string, args []any) (any, bool) {
		if name == "now" {
			return now, true
		}
		base := BaseName(name)
		ins := func() *Inst {
			r, _ := args[0].(RefVal)
			if r.Ptr == nil {
				return &Inst{Nil: true}
			}
			return r.Ptr.(*Inst)
		}
		wrap := func(v any) any {
			if m, ok := v.(*Inst); ok {
				return RefVal{Ptr: m}
			}
			return v
		}
		switch base {
		case "isnil":
			return ins().Nil, true
		case "valid":
			return valid(ins()), true
		}
		if len(name) == len(base) {
			return nil, false
		}
		fn := protoreflect.FullName(name[len(base)+1:]).Name()
		m := ins()
		switch base {
		case "has":
			if m.Nil {
				return false, true
			}
			_, ok := m.F[fn]
			return ok, true
		case "which":
			if m.Nil {
				return new(big.Int), true
			}
			oo := m.MD.Oneofs().ByName(fn)
			for i := 0; i < oo.Fields().Len(); i++ {
				if _, ok := m.F[oo.Fields().Get(i).Name()]; ok {
					return big.NewInt(int64(oo.Fields().Get(i).Number())), true
				}
			}
			return new(big.Int), true
		case "llen":
			l, _ := m.F[fn].([]any)
			return big.NewInt(int64(len(l))), true
		case "mlen":
			l, _ := m.F[fn].([]KV)
			return big.NewInt(int64(len(l))), true
		}
		switch base[0] {
		case 'f':
			if v, ok := m.F[fn]; ok && !m.Nil {
				return wrap(v), true
			}
			if m.MD != nil {
				if fd := m.MD.Fields().ByName(fn); fd != nil {
					if fd.HasDefault() || fd.Kind() == protoreflect.EnumKind { // proto2: the first value
						return FromPR(fd, fd.Default()), true
					}
					return wrap(Zero(fd)), true
				}
			}
			return zeroTag(base[1:]), true
		case 'l':
			l, _ := m.F[fn].([]any)
			i := args[1].(*big.Int)
			if i.Sign() >= 0 && i.IsInt64() && i.Int64() < int64(len(l)) {
				return wrap(l[i.Int64()]), true
			}
			return zeroTag(base[1:]), true
		case 'k', 'v':
			l, _ := m.F[fn].([]KV)
			i := args[1].(*big.Int)
			if i.Sign() >= 0 && i.IsInt64() && i.Int64() < int64(len(l)) {
				if base[0] == 'k' {
					return wrap(l[i.Int64()].K), true
				}
				return wrap(l[i.Int64()].V), true
			}
			return zeroTag(base[1:]), true
		}
		return nil, false
	}
}

type Interp_ = func(name string, args []any) (any, bool)

func zeroTag(tag string) any {
	switch tag {
	case "b":
		return false
	case "f32":
		return float32(0)
	case "f64":
		return float64(0)
	case "s":
		return ""
	case "r":
		return RefVal{}
	}
	return new(big.Int)
}

// FromPR converts a protoreflect scalar.
func FromPR(fd FD, v protoreflect.Value) any {
	switch fd.Kind() {
	case protoreflect.BoolKind:
		return v.Bool()
	case protoreflect.EnumKind:
		return big.NewInt(int64(v.Enum()))
	case protoreflect.FloatKind:
		return float32(v.Float())
	case protoreflect.DoubleKind:
		return v.Float()
	case protoreflect.StringKind:
		return v.String()
	case protoreflect.BytesKind:
		return string(v.Bytes())
	case protoreflect.Uint32Kind, protoreflect.Fixed32Kind, protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
		return new(big.Int).SetUint64(v.Uint())
	default:
		return big.NewInt(v.Int())
	}
}

// ConstTerm is the literal term of a concrete scalar.
func ConstTerm(v any) *Term {
	switch x := v.(type) {
	case bool:
		return B(x)
	case *big.Int:
		return BigC(x)
	case string:
		return StrC(x)
	case float32:
		return F32C(x)
	case float64:
		return F64C(x)
	}
	panic(fmt.Sprintf("ConstTerm %T", v))
}

// Bounds of the integer tags.
func TagBounds(tag string) (lo, hi string) {
	switch tag {
	case "i32":
		return "(- 2147483648)", "2147483647"
	case "i64":
		return "(- 9223372036854775808)", "9223372036854775807"
	case "u32":
		return "0", "4294967295"
	case "u64":
		return "0", "18446744073709551615"
	}
	return "", ""
}

func init() {
	for _, tag := range []string{"b", "i32", "i64", "u32", "u64", "f32", "f64", "s", "r"} {
		tag := tag
		zero := map[string]string{"b": "false", "s": SymOf(StrC("")), "f32": "(_ +zero 8 24)", "f64": "(_ +zero 11 53)"}[tag]
		if zero == "" {
			zero = "0"
		}
		lo, hi := TagBounds(tag)
		Funcs["f"+tag] = &Func{Axioms: func(name string) []string {
			s := SymName(name)
			var ax []string
			if lo != "" {
				ax = append(ax, fmt.Sprintf("(forall ((r Ref)) (! (and (<= %s (%s r)) (<= (%s r) %s)) :pattern ((%s r))))", lo, s, s, hi, s))
			}
			if tag == "r" {
				ax = append(ax, fmt.Sprintf("(forall ((r Ref)) (! (=> (isnil r) (isnil (%s r))) :pattern ((%s r))))", s, s))
			} else if tag != "f32" && tag != "f64" {
				ax = append(ax, fmt.Sprintf("(forall ((r Ref)) (! (=> (isnil r) (= (%s r) %s)) :pattern ((%s r))))", s, zero, s))
			}
			return ax
		}}
		for _, p := range []string{"l", "k", "v"} {
			Funcs[p+tag] = &Func{Axioms: func(name string) []string {
				s := SymName(name)
				if lo == "" {
					return nil
				}
				return []string{fmt.Sprintf("(forall ((r Ref) (i Int)) (! (and (<= %s (%s r i)) (<= (%s r i) %s)) :pattern ((%s r i))))", lo, s, s, hi, s)}
			}}
		}
	}
	for _, n := range []string{"llen", "mlen"} {
		Funcs[n] = &Func{Axioms: func(name string) []string {
			s := SymName(name)
			return []string{fmt.Sprintf("(forall ((r Ref)) (! (and (<= 0 (%s r)) (<= (%s r) 4611686018427387904) (=> (isnil r) (= (%s r) 0))) :pattern ((%s r))))", s, s, s, s)}
		}}
	}
	Funcs["which"] = &Func{Axioms: func(name string) []string {
		s := SymName(name)
		or := ""
		if v, ok := members.Load(name); ok {
			for _, n := range v.([]string) {
				or += fmt.Sprintf(" (= (%s r) %s)", s, n)
			}
		}
		return []string{fmt.Sprintf("(forall ((r Ref)) (! (and (or (= (%s r) 0)%s) (=> (isnil r) (= (%s r) 0))) :pattern ((%s r))))", s, or, s, s)}
	}}
	Funcs["has"] = &Func{Axioms: func(name string) []string {
		s := SymName(name)
		return []string{fmt.Sprintf("(forall ((r Ref)) (! (=> (isnil r) (not (%s r))) :pattern ((%s r))))", s, s)}
	}}
	Funcs["valid"] = &Func{Axioms: func(name string) []string {
		return []string{"(forall ((r Ref)) (! (=> (isnil r) (valid r)) :pattern ((valid r))))"}
	}}
	Funcs["isnil"] = &Func{}
	// the clock: a Go time.Time between years 1 and 9999, say
	Funcs["now"] = &Func{Axioms: func(name string) []string {
		return []string{"(and (<= (- 62135596800000000000) now) (<= now 253402300799999999999))"}
	}}
	DeclareAux("isnil", "(declare-fun isnil (Ref) Bool)")
}
