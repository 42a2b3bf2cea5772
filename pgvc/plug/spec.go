// Package plug states the contracts of the plugin's rule checker
// (module/checker.go) and verifies the checker's own code against them.
package plug

import (
	"math/big"

	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvc/model"
	. "pgvc/smt"
)

// Field types are references; these are what protoc-gen-star says about one.
func tyField(t *Term) *Term     { return App("ty.field", Bool, t) } // a FieldType, not an element type
func tyRep(t *Term) *Term       { return App("ty.rep", Bool, t) }
func tyMap(t *Term) *Term       { return App("ty.map", Bool, t) }
func tyProto(t *Term) *Term     { return App("ty.proto", Int, t) }
func tyMsg(t *Term) *Term       { return App("ty.msg", Ref, t) } // nil unless a singular message
func tyElem(t *Term) *Term      { return App("ty.elem", Ref, t) }
func tyKey(t *Term) *Term       { return App("ty.key", Ref, t) }
func tyEnum(t *Term) *Term      { return App("ty.enum", Ref, t) }
func msgWKT(m *Term) *Term      { return App("pm.wkt", Str, m) }
func msgF0(m *Term) *Term       { return fieldType(fieldOf(m, IntC(0))) }
func enumN(e *Term) *Term       { return App("en.n", Int, e) }
func enumV(e, i *Term) *Term    { return App("en.v", Int, e, i) }
func badRules(t, r *Term) *Term { return App("badrules", Bool, t, r) }
func re2ok(s *Term) *Term       { return App("re2ok", Bool, s) }
func disabled(m *Term) *Term    { return App("pm.disabled", Bool, m) }
func nFields(m *Term) *Term     { return App("pm.nfields", Int, m) }
func fieldOf(m, i *Term) *Term  { return App("pm.field", Ref, m, i) }
func fieldType(f *Term) *Term   { return App("pf.type", Ref, f) }
func fieldRules(f *Term) *Term  { return App("pf.rules", Ref, f) }

// wrappers maps a rule kind to the well-known wrapper it also fits.
var wrappers = map[string]string{"float": "FloatValue", "double": "DoubleValue", "int32": "Int32Value", "int64": "Int64Value",
	"uint32": "UInt32Value", "uint64": "UInt64Value", "bool": "BoolValue", "string": "StringValue", "bytes": "BytesValue"}

// protoTypes are the descriptor type numbers of the scalar rule kinds.
var protoTypes = map[string]int64{"double": 1, "float": 2, "int64": 3, "uint64": 4, "int32": 5, "fixed64": 6, "fixed32": 7, "bool": 8, "string": 9,
	"bytes": 12, "uint32": 13, "enum": 14, "sfixed32": 15, "sfixed64": 16, "sint32": 17, "sint64": 18}

var wktRules = map[string]string{"any": "Any", "duration": "Duration", "timestamp": "Timestamp"}

const messageT = 11

// wf is what protoc-gen-star guarantees about a field type (or element type).
func wf(t *Term) []*Term {
	plain := And(Not(tyRep(t)), Not(tyMap(t)))
	hs := []*Term{
		Implies(Not(tyField(t)), plain),
		Not(And(tyRep(t), tyMap(t))),
		Implies(tyMap(t), Eq(tyProto(t), IntC(messageT))),
		Implies(Not(plain), model.IsNil(tyMsg(t))),
		Implies(plain, Eq(Not(model.IsNil(tyMsg(t))), Eq(tyProto(t), IntC(messageT)))),
		Implies(plain, Eq(Not(model.IsNil(tyEnum(t))), Eq(tyProto(t), IntC(14)))),
		Implies(Or(tyRep(t), tyMap(t)), And(Not(tyField(tyElem(t))), Not(tyRep(tyElem(t))), Not(tyMap(tyElem(t))))),
		Implies(tyMap(t), And(Not(tyField(tyKey(t))), Not(tyRep(tyKey(t))), Not(tyMap(tyKey(t))))),
		Le(IntC(0), enumN(tyEnum(t))),
	}
	// the wrapper messages' only field
	f0 := msgF0(tyMsg(t))
	for k, w := range wrappers {
		hs = append(hs, Implies(And(Not(model.IsNil(tyMsg(t))), Eq(msgWKT(tyMsg(t)), StrC(w))),
			And(Eq(nFields(tyMsg(t)), IntC(1)), tyField(f0), Not(tyRep(f0)), Not(tyMap(f0)), Eq(tyProto(f0), IntC(protoTypes[k])), model.IsNil(tyMsg(f0)))))
	}
	return hs
}

// wfDeep adds the element and key types.
func wfDeep(t *Term) []*Term { return append(append(wf(t), wf(tyElem(t))...), wf(tyKey(t))...) }

func isEmbed(t *Term) *Term { return Not(model.IsNil(tyMsg(t))) }

// Clause is one reason to refuse a rule set.
type Clause struct {
	Prop, Name string
	Bad        *Term
}

// Rules of one FieldRules reference.
type S struct {
	MD protoreflect.MessageDescriptor // validate.FieldRules
}

func (s *S) fd(kind string) protoreflect.FieldDescriptor {
	return s.MD.Fields().ByName(protoreflect.Name(kind))
}

func (s *S) typeOO() protoreflect.OneofDescriptor { return s.MD.Oneofs().ByName("type") }

// Kinds of rules, in the order of the descriptor; "" is the absence of any.
func (s *S) Kinds() []string {
	out := []string{""}
	oo := s.typeOO()
	for i := 0; i < oo.Fields().Len(); i++ {
		out = append(out, string(oo.Fields().Get(i).Name()))
	}
	return out
}

func (s *S) which(r *Term, kind string) *Term {
	n := int64(0)
	if kind != "" {
		n = int64(s.fd(kind).Number())
	}
	return Eq(model.Which(r, s.typeOO()), IntC(n))
}

// fits: rules of this kind may be written on a field (element) of type t.
func fits(kind string, t *Term) *Term {
	plain := And(Not(tyRep(t)), Not(tyMap(t)))
	switch kind {
	case "":
		return True
	case "repeated":
		return And(tyField(t), tyRep(t))
	case "map":
		return And(tyField(t), tyMap(t))
	}
	if w, ok := wktRules[kind]; ok {
		return And(plain, isEmbed(t), Eq(msgWKT(tyMsg(t)), StrC(w)))
	}
	c := Eq(tyProto(t), IntC(protoTypes[kind]))
	if w, ok := wrappers[kind]; ok {
		c = Or(c, And(isEmbed(t), Eq(msgWKT(tyMsg(t)), StrC(w))))
	}
	return And(plain, c)
}

// sub is a rule message with its fields.
type sub struct {
	md protoreflect.MessageDescriptor
	r  *Term
}

func (m sub) fd(n string) protoreflect.FieldDescriptor {
	return m.md.Fields().ByName(protoreflect.Name(n))
}
func (m sub) get(n string) *Term { return model.Get(m.r, m.fd(n)) }
func (m sub) n(l string) *Term   { return model.ListLen(m.r, m.fd(l)) }
func (m sub) any(l string) *Term { return Lt(IntC(0), m.n(l)) }
func (m sub) has(n string) *Term {
	fd := m.fd(n)
	if fd.IsList() {
		return m.any(n)
	}
	return model.Has(m.r, fd)
}
func (m sub) ors(ns ...string) *Term {
	r := False
	for _, n := range ns {
		r = Or(r, m.has(n))
	}
	return r
}
func (m sub) both(p, name, a, b string) Clause {
	return Clause{p, name, And(m.has(a), m.has(b))}
}

func (s *S) sub(kind string, r *Term) sub {
	fd := s.fd(kind)
	return sub{fd.Message(), model.Get(r, fd)}
}

var bounds = []string{"lt", "lte", "gt", "gte"}

func (m sub) minmax(p, a, b string) Clause {
	return Clause{p, a + " above " + b, And(m.has(a), m.has(b), Lt(m.get(b), m.get(a)))}
}

func feq(a, b *Term) *Term { return Eq(a, b) }

func numEq(a, b *Term) *Term {
	if a.Sort == F32 || a.Sort == F64 {
		return And(Le(a, b), Le(b, a))
	}
	return Eq(a, b)
}

var maxI64 = BigC(new(big.Int).SetUint64(1<<63 - 1))
var minI64 = BigC(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 63)))

func secNanos(md protoreflect.MessageDescriptor, r *Term) (s, n *Term) {
	return model.Get(r, md.Fields().ByName("seconds")), model.Get(r, md.Fields().ByName("nanos"))
}

// durOK: a duration constant is valid and fits the time.Duration it becomes.
func durOK(md protoreflect.MessageDescriptor, r *Term) *Term {
	s, n := secNanos(md, r)
	ns := nsOf(md, r)
	return And(durValid(s, n), Le(minI64, ns), Le(ns, maxI64))
}

// Contra are the contradictory combinations of a kind.
func (s *S) Contra(kind string, t, rules *Term) []Clause {
	var cs []Clause
	add := func(c ...Clause) { cs = append(cs, c...) }
	if kind == "" || kind == "bool" {
		return nil
	}
	m := s.sub(kind, rules)
	c2 := func(name string, bad *Term) { add(Clause{"C02", name, bad}) }
	c3 := func(name string, bad *Term) { add(Clause{"C03", name, bad}) }
	rangeRules := func(in bool, val func(n string) *Term) {
		lists := False
		if in {
			lists = m.ors("in", "not_in")
			add(m.both("C02", "in with not_in", "in", "not_in"))
			c2("in with a range", And(m.any("in"), m.ors(bounds...)))
		}
		c2("const with another rule", And(m.has("const"), Or(lists, m.ors(bounds...))))
		add(m.both("C02", "lt with lte", "lt", "lte"), m.both("C02", "gt with gte", "gt", "gte"))
		for _, u := range []string{"lt", "lte"} {
			for _, l := range []string{"gt", "gte"} {
				c2(u+" equal to "+l, And(m.has(u), m.has(l), numEq(val(u), val(l))))
			}
		}
	}
	switch kind {
	case "string":
		pat := m.has("pattern")
		wk := m.fd("well_known_regex")
		known := And(model.Has(m.r, wk), Not(Eq(model.Get(m.r, wk), IntC(0))))
		for _, x := range [][3]string{{"len", "min_len", "max_len"}, {"len_bytes", "min_bytes", "max_bytes"}} {
			add(m.both("C03", x[0]+" with "+x[1], x[0], x[1]), m.both("C03", x[0]+" with "+x[2], x[0], x[2]), m.minmax("C03", x[1], x[2]))
		}
		add(m.both("C03", "in with not_in", "in", "not_in"))
		c3("in with pattern", And(m.any("in"), Or(pat, known)))
		c3("pattern with well-known regex", And(pat, known))
		c3("invalid pattern", And(pat, Not(re2ok(m.get("pattern")))))
		for _, a := range []string{"prefix", "suffix", "contains"} {
			c3(a+" longer than max_len", And(m.has("max_len"), Lt(m.get("max_len"), model.Runes(m.get(a)))))
			c3(a+" longer than max_bytes", And(m.has("max_bytes"), Lt(m.get("max_bytes"), model.BLen(m.get(a)))))
		}
		c3("max_len above max_bytes", And(m.has("max_len"), m.has("max_bytes"), Lt(m.get("max_bytes"), m.get("max_len"))))
	case "bytes":
		add(m.both("C03", "len with min_len", "len", "min_len"), m.both("C03", "len with max_len", "len", "max_len"), m.minmax("C03", "min_len", "max_len"))
		add(m.both("C03", "in with not_in", "in", "not_in"), m.both("C03", "in with pattern", "in", "pattern"))
		c3("invalid pattern", And(m.has("pattern"), Not(re2ok(m.get("pattern")))))
		for _, a := range []string{"prefix", "suffix", "contains"} {
			c3(a+" longer than max_len", And(m.has("max_len"), Lt(m.get("max_len"), model.BLen(m.get(a)))))
		}
	case "enum":
		add(m.both("C03", "in with not_in", "in", "not_in"))
		i, j := Fresh("i", Int), Fresh("i", Int)
		e := tyEnum(t)
		v := model.ListAt(m.r, m.fd("in"), i)
		c3("undefined in value with defined_only", And(m.get("defined_only"),
			Exists(i, IntC(0), m.n("in"), Forall(j, IntC(0), enumN(e), Not(Eq(enumV(e, j), v))))))
	case "any":
		add(m.both("C03", "in with not_in", "in", "not_in"))
	case "repeated":
		add(m.minmax("C03", "min_items", "max_items"))
		c3("unique on messages", And(m.get("unique"), isEmbed(tyElem(t))))
		add(Clause{"C01 C02 C03", "bad items rules", badRules(tyElem(t), m.get("items"))})
	case "map":
		add(m.minmax("C03", "min_pairs", "max_pairs"))
		c3("no_sparse on non-message values", And(m.get("no_sparse"), Not(isEmbed(tyElem(t)))))
		add(Clause{"C01 C02 C03", "bad keys rules", badRules(tyKey(t), m.get("keys"))},
			Clause{"C01 C02 C03", "bad values rules", badRules(tyElem(t), m.get("values"))})
	case "duration":
		dmd := m.fd("const").Message()
		rangeRules(true, func(n string) *Term { return nsOf(dmd, m.get(n)) })
		for _, n := range append([]string{"const"}, bounds...) {
			c2(n+" not representable", And(m.has(n), Not(durOK(dmd, m.get(n)))))
		}
		for _, l := range []string{"in", "not_in"} {
			i := Fresh("i", Int)
			v := model.ListAt(m.r, m.fd(l), i)
			c2(l+" value not representable", Exists(i, IntC(0), m.n(l), Or(model.IsNil(v), Not(durOK(dmd, v)))))
		}
	case "timestamp":
		tmd, dmd := m.fd("const").Message(), m.fd("within").Message()
		rangeRules(false, func(n string) *Term { return nsOf(tmd, m.get(n)) })
		for _, n := range append([]string{"const"}, bounds...) {
			s, x := secNanos(tmd, m.get(n))
			c2(n+" not representable", And(m.has(n), Not(tsValid(s, x))))
		}
		c2("now rule with absolute bound", And(m.ors("lt_now", "gt_now"), m.ors(bounds...)))
		c2("within with absolute bound", And(m.has("within"), m.ors(bounds...)))
		add(m.both("C02", "both now rules", "lt_now", "gt_now"))
		c2("within not positive", And(m.has("within"), Or(Not(durOK(dmd, m.get("within"))), Le(nsOf(dmd, m.get("within")), IntC(0)))))
	default: // numeric
		rangeRules(true, m.get)
	}
	return cs
}

// Owner is the property that says well-typed, consistent rules are accepted.
func Owner(kind string) string {
	switch kind {
	case "", "bool":
		return "C01"
	case "string", "bytes", "enum", "any", "repeated", "map":
		return "C03"
	}
	return "C02"
}

// msgOnElem: message rules beside the kind, at any nesting.
func (s *S) misfitMessage(t, rules *Term) *Term {
	return And(model.Has(rules, s.fd("message")), Not(And(Not(tyRep(t)), Not(tyMap(t)), isEmbed(t))))
}

// Bad unfolds badrules for a given kind.
func (s *S) Bad(kind string, t, rules *Term) *Term {
	r := Or(Not(fits(kind, t)), s.misfitMessage(t, rules))
	for _, c := range s.Contra(kind, t, rules) {
		r = Or(r, c.Bad)
	}
	return And(Not(model.IsNil(rules)), r)
}

// FieldClauses are the further conditions on a field of a message.
func (s *S) FieldClauses(t, rules *Term) []Clause {
	has := model.Has(rules, s.fd("message"))
	emb := And(Not(tyRep(t)), Not(tyMap(t)), isEmbed(t))
	own := False
	for _, w := range []string{"Any", "Duration", "Timestamp"} {
		own = Or(own, Eq(msgWKT(tyMsg(t)), StrC(w)))
	}
	mr := model.Get(rules, s.fd("message"))
	skip := model.Get(mr, s.fd("message").Message().Fields().ByName("skip"))
	return []Clause{
		{"C01", "message rules on a field that is no message", And(has, Not(emb))},
		{"C01", "message rules on an Any, Duration or Timestamp field", And(has, emb, own)},
		{"C03", "skip with a scalar rule", And(has, emb, Not(s.which(rules, "")), skip)},
	}
}

// BadField: the field's rules make the plugin refuse.
func (s *S) BadField(t, rules *Term) *Term {
	r := badRules(t, rules)
	for _, c := range s.FieldClauses(t, rules) {
		r = Or(r, c.Bad)
	}
	return r
}

var billion = IntC(1000000000)

func nsOf(md protoreflect.MessageDescriptor, r *Term) *Term {
	s, n := secNanos(md, r)
	return Add(Mul(s, billion), n)
}

func durValid(sec, nanos *Term) *Term {
	lim := IntC(315576000000)
	neg := func(t *Term) *Term { return Sub(IntC(0), t) }
	return And(Le(neg(lim), sec), Le(sec, lim), Lt(neg(billion), nanos), Lt(nanos, billion),
		Not(And(Lt(IntC(0), sec), Lt(nanos, IntC(0)))), Not(And(Lt(sec, IntC(0)), Lt(IntC(0), nanos))))
}

func tsValid(sec, nanos *Term) *Term {
	return And(Le(IntC(-62135596800), sec), Le(sec, IntC(253402300799)), Le(IntC(0), nanos), Lt(nanos, billion))
}
