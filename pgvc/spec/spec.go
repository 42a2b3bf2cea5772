// Package spec reads the validation rules of a message from its descriptor
// (with protobuf's own extension decoding, not the plugin's) and states, as
// terms over the message, which constraints exist and when each is broken.
// It follows the documentation in README.md and validate.proto.
package spec

import (
	"fmt"
	"math/big"
	"strings"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvc/gen"
	"pgvc/model"
	. "pgvc/smt"
)

// Loop says the constraint exists once for every index I in [0,N).
type Loop struct {
	I, N *Term
	Map  bool
}

// Viol is one constraint of a message and the condition under which it is
// broken.
type Viol struct {
	Prop  string // numeric, string, known, bytes, bool, enum, repeated, map, message, oneof, wrapper, wkt
	Rule  string
	Field string // Go name
	Loop  *Loop
	Idx   *Term // index or key shown in brackets
	Key   bool
	Cause string // "", "embedded", "format" (a cause is allowed but not demanded)
	Ref   *Term  // the embedded message
	Cond  *Term
	// NaN: the hypothesis under which Cond is demanded (floating-point ranges
	// are demanded for numbers; see the known findings for NaN).
	Hyp *Term
	// Alt is the condition demanded when Hyp does not hold.
	FD protoreflect.FieldDescriptor
}

func (v *Viol) Loc() string {
	if v.Loop != nil {
		return v.Field + "[]"
	}
	return v.Field
}

func (v *Viol) String() string {
	s := v.Loc() + "/" + v.Rule
	if v.Key {
		s += "/key"
	}
	return s
}

// Msg is the specification of one message.
type Msg struct {
	M        *protogen.Message
	Self     *Term
	Disabled bool
	Ignored  bool
	Viols    []*Viol
	Floats   []*Term // values subject to a floating-point range
}

type builder struct {
	w    *gen.World
	out  *Msg
	self *Term
	cc   func(*protogen.Message) bool // nil: Go
	// member: messages that are members of oneofs
	member map[*Term]bool
}

type pos struct {
	field string
	fd    protoreflect.FieldDescriptor
	loop  *Loop
	idx   *Term
	key   bool
	guard *Term
}

type rules struct{ m protoreflect.Message }

func (r rules) fd(n string) protoreflect.FieldDescriptor {
	return r.m.Descriptor().Fields().ByName(protoreflect.Name(n))
}
func (r rules) has(n string) bool {
	fd := r.fd(n)
	return fd != nil && r.m.IsValid() && r.m.Has(fd)
}
func (r rules) get(n string) any { fd := r.fd(n); return model.FromPR(fd, r.m.Get(fd)) }
func (r rules) term(n string) *Term {
	return model.ConstTerm(r.get(n))
}
func (r rules) flag(n string) bool {
	fd := r.fd(n)
	return fd != nil && r.m.IsValid() && r.m.Get(fd).Bool()
}
func (r rules) sub(n string) rules {
	return rules{r.m.Get(r.fd(n)).Message()}
}
func (r rules) list(n string) []any {
	if !r.has(n) {
		return nil
	}
	fd := r.fd(n)
	l := r.m.Get(fd).List()
	var out []any
	for i := 0; i < l.Len(); i++ {
		out = append(out, model.FromPR(fd, l.Get(i)))
	}
	return out
}
func (r rules) msgs(n string) []rules {
	if !r.has(n) {
		return nil
	}
	l := r.m.Get(r.fd(n)).List()
	var out []rules
	for i := 0; i < l.Len(); i++ {
		out = append(out, rules{l.Get(i).Message()})
	}
	return out
}

// typ is the set member of FieldRules.type.
func (r rules) typ() string {
	if r.m == nil || !r.m.IsValid() {
		return ""
	}
	fd := r.m.WhichOneof(r.m.Descriptor().Oneofs().ByName("type"))
	if fd == nil {
		return ""
	}
	return string(fd.Name())
}

// FieldRules reads the rules of a field (m nil when there are none).
func FieldRules(w *gen.World, f *protogen.Field) protoreflect.Message {
	v := w.Option(f.Desc.Options(), "validate.rules")
	if !v.IsValid() {
		return nil
	}
	return v.Message()
}

// MsgFlag reads disabled / ignored.
func MsgFlag(w *gen.World, m *protogen.Message, n string) bool {
	v := w.Option(m.Desc.Options(), "validate."+n)
	return v.IsValid() && v.Bool()
}

var wrapperOf = map[protoreflect.FullName]string{
	"google.protobuf.DoubleValue": "double", "google.protobuf.FloatValue": "float",
	"google.protobuf.Int64Value": "int64", "google.protobuf.UInt64Value": "uint64",
	"google.protobuf.Int32Value": "int32", "google.protobuf.UInt32Value": "uint32",
	"google.protobuf.BoolValue": "bool", "google.protobuf.StringValue": "string", "google.protobuf.BytesValue": "bytes",
}

// WrapperOf names the scalar kind wrapped by a well-known type.
func WrapperOf(n protoreflect.FullName) string { return wrapperOf[n] }

// Validated says the type of the message has generated validation.
func Validated(w *gen.World, m *protogen.Message) bool {
	name := m.Desc.ParentFile().Path()
	for _, f := range w.Files {
		if f.Name+".proto" == name {
			return w.Refused[f.Name] == "" && !MsgFlag(w, m, "ignored")
		}
	}
	return false
}

// Build states the specification of m for Go.
func Build(w *gen.World, m *protogen.Message, self *Term) *Msg {
	return build(w, m, self, nil)
}

// BuildCC states it for C++: messages in lists, maps and oneofs exist, patterns
// match the whole string, and addresses are those of inet_pton. validated says
// which message types have their validation called.
func BuildCC(w *gen.World, m *protogen.Message, self *Term, validated func(*protogen.Message) bool) *Msg {
	return build(w, m, self, validated)
}

func build(w *gen.World, m *protogen.Message, self *Term, cc func(*protogen.Message) bool) *Msg {
	out := &Msg{M: m, Self: self}
	b := &builder{w: w, out: out, self: self, cc: cc, member: map[*Term]bool{}}
	out.Ignored = MsgFlag(w, m, "ignored")
	out.Disabled = MsgFlag(w, m, "disabled")
	if out.Ignored || out.Disabled {
		return out
	}
	for _, f := range m.Fields {
		if f.Oneof == nil || f.Oneof.Desc.IsSynthetic() {
			b.field(f, True)
		}
	}
	for _, oo := range m.Oneofs {
		if oo.Desc.IsSynthetic() {
			continue
		}
		for _, f := range oo.Fields {
			if f.Message != nil {
				b.member[model.Get(self, f.Desc)] = true
			}
			b.field(f, Eq(model.Which(self, oo.Desc), IntC(int64(f.Desc.Number()))))
		}
		v := w.Option(oo.Desc.Options(), "validate.required")
		if v.IsValid() && v.Bool() {
			b.add(&Viol{Prop: "oneof", Rule: "required", Field: oo.GoName, Cond: Eq(model.Which(self, oo.Desc), IntC(0))})
		}
	}
	return out
}

// isNil: C++ has no absent list elements, map values and oneof members.
func (b *builder) isNil(ref *Term) *Term {
	if b.cc != nil && (ref.Op != "app" || !strings.HasPrefix(ref.Name, "f") || b.member[ref]) {
		return False
	}
	return model.IsNil(ref)
}

func (b *builder) pattern(p string, v *Term) *Term {
	if b.cc != nil {
		p = `\A(?:` + p + `)\z`
	}
	return model.ReMatch(p, v)
}

func (b *builder) ip(v *Term) *Term {
	if b.cc != nil {
		return model.IPText(v)
	}
	return model.IPKind(v)
}

func (b *builder) validated(m *protogen.Message) bool {
	if b.cc != nil {
		return b.cc(m)
	}
	return Validated(b.w, m)
}

func (b *builder) add(v *Viol) {
	if v.Hyp == nil {
		v.Hyp = True
	}
	b.out.Viols = append(b.out.Viols, v)
}

func (b *builder) viol(p pos, prop, rule string, cond *Term) *Viol {
	v := &Viol{Prop: prop, Rule: rule, Field: p.field, Loop: p.loop, Idx: p.idx, Key: p.key, Cond: And(p.guard, cond), FD: p.fd}
	b.add(v)
	return v
}

func (b *builder) field(f *protogen.Field, guard *Term) {
	rm := FieldRules(b.w, f)
	r := rules{rm}
	var mr rules
	if rm != nil && r.has("message") {
		mr = r.sub("message")
	}
	p := pos{field: f.GoName, fd: f.Desc, guard: guard}
	d := f.Desc
	switch {
	case d.IsMap():
		b.mapField(f, r, p)
	case d.IsList():
		b.listField(f, r, p)
	case f.Message != nil:
		b.message(f, model.Get(b.self, d), r, mr, p)
	default:
		b.scalar(f, model.Get(b.self, d), r, p)
	}
}

func (b *builder) count(p pos, prop string, n *Term, r rules, min, max, what string) {
	if !r.has(min) && !r.has(max) {
		return
	}
	ok := True
	if r.has(min) {
		ok = And(ok, Le(r.term(min), n))
	}
	if r.has(max) {
		ok = And(ok, Le(n, r.term(max)))
	}
	b.viol(p, prop, what, Not(ok))
}

func (b *builder) listField(f *protogen.Field, r rules, p pos) {
	var rr, items rules
	if r.typ() == "repeated" {
		rr = r.sub("repeated")
		if rr.has("items") {
			items = rr.sub("items")
		}
	}
	n := model.ListLen(b.self, f.Desc)
	i := Var("i!"+string(f.Desc.FullName()), Int)
	if rr.m != nil {
		if rr.flag("ignore_empty") {
			p.guard = And(p.guard, Lt(IntC(0), n))
		}
		b.count(p, "repeated", n, rr, "min_items", "max_items", "items count")
	}
	pi := p
	pi.loop = &Loop{I: i, N: n}
	pi.idx = i
	item := model.ListAt(b.self, f.Desc, i)
	if rr.m != nil && rr.flag("unique") {
		j := Var("j!"+string(f.Desc.FullName()), Int)
		b.viol(pi, "repeated", "unique", Exists(j, IntC(0), i, Eq(model.ListAt(b.self, f.Desc, j), item)))
	}
	b.elem(f, f.Message, item, items, pi)
}

func (b *builder) elem(f *protogen.Field, msg *protogen.Message, item *Term, r rules, p pos) {
	var mr rules
	if r.m != nil && r.has("message") {
		mr = r.sub("message")
	}
	if msg != nil {
		b.message(f, item, r, mr, p)
		return
	}
	b.scalar(f, item, r, p)
}

func (b *builder) mapField(f *protogen.Field, r rules, p pos) {
	var rr, keys, vals rules
	if r.typ() == "map" {
		rr = r.sub("map")
		if rr.has("keys") {
			keys = rr.sub("keys")
		}
		if rr.has("values") {
			vals = rr.sub("values")
		}
	}
	n := model.MapLen(b.self, f.Desc)
	i := Var("i!"+string(f.Desc.FullName()), Int)
	kf, vf := f.Message.Fields[0], f.Message.Fields[1]
	if rr.m != nil {
		if rr.flag("ignore_empty") {
			p.guard = And(p.guard, Lt(IntC(0), n))
		}
		b.count(p, "map", n, rr, "min_pairs", "max_pairs", "pairs count")
	}
	key := model.MapKey(b.self, f.Desc, i)
	val := model.MapVal(b.self, f.Desc, i)
	pi := p
	pi.loop = &Loop{I: i, N: n, Map: true}
	pi.idx = key
	if rr.m != nil && rr.flag("no_sparse") && vf.Message != nil {
		b.viol(pi, "map", "no_sparse", b.isNil(val))
	}
	pk := pi
	pk.key = true
	b.elem(kf, nil, key, keys, pk)
	b.elem(vf, vf.Message, val, vals, pi)
}

func (b *builder) message(f *protogen.Field, ref *Term, r, mr rules, p pos) {
	full := f.Message.Desc.FullName()
	required := mr.m != nil && mr.flag("required")
	nilT := b.isNil(ref)
	t := r.typ()
	set := p
	set.guard = And(p.guard, Not(nilT))
	field := func(n int) *Term { return model.Get(ref, f.Message.Fields[n].Desc) }
	switch {
	case t != "" && wrapperOf[full] == t:
		if required {
			b.viol(p, "wrapper", "required", nilT)
		}
		inner := f.Message.Fields[0]
		k := len(b.out.Viols)
		b.scalar(inner, field(0), r, set)
		for _, v := range b.out.Viols[k:] {
			v.Prop = "wrapper"
		}
		return
	case full == "google.protobuf.Any" && t == "any":
		rr := r.sub("any")
		if rr.flag("required") {
			b.viol(p, "wkt", "required", nilT)
		}
		b.inList(set, "wkt", field(0), consts(rr.list("in")), consts(rr.list("not_in")))
		return
	case full == "google.protobuf.Duration" && t == "duration":
		b.duration(ref, field(0), field(1), r.sub("duration"), p, set)
		return
	case full == "google.protobuf.Timestamp" && t == "timestamp":
		b.timestamp(ref, field(0), field(1), r.sub("timestamp"), p, set)
		return
	}
	if required {
		b.viol(p, "message", "required", nilT)
	}
	if !(mr.m != nil && mr.flag("skip")) && b.validated(f.Message) {
		v := b.viol(p, "message", "embedded", Not(model.EmbValid(ref)))
		v.Cause, v.Ref = "embedded", ref
	}
}

func consts(vs []any) []*Term {
	var out []*Term
	for _, v := range vs {
		out = append(out, model.ConstTerm(v))
	}
	return out
}

func oneOf(v *Term, vs []*Term) *Term {
	r := False
	for _, c := range vs {
		r = Or(r, Eq(v, c))
	}
	return r
}

func (b *builder) inList(p pos, prop string, v *Term, in, notIn []*Term) {
	if len(in) > 0 {
		b.viol(p, prop, "in", Not(oneOf(v, in)))
	}
	if len(notIn) > 0 {
		b.viol(p, prop, "not_in", oneOf(v, notIn))
	}
}

// Range is the violation of the interval: lo/hi nil when absent.
func Range(v, lo, hi *Term, loInc, hiInc, reversed bool) *Term {
	above := func() *Term { // v respects lo
		if loInc {
			return Le(lo, v)
		}
		return Lt(lo, v)
	}
	below := func() *Term {
		if hiInc {
			return Le(v, hi)
		}
		return Lt(v, hi)
	}
	switch {
	case lo == nil && hi == nil:
		return False
	case lo == nil:
		return Not(below())
	case hi == nil:
		return Not(above())
	case reversed: // lo >= hi: the values between are excluded
		return And(Not(above()), Not(below()))
	}
	return Or(Not(above()), Not(below()))
}

// bounds picks the interval of the rules through get.
func bounds(r rules, get func(string) *Term) (lo, hi *Term, loInc, hiInc bool) {
	if r.has("gt") {
		lo = get("gt")
	}
	if r.has("gte") {
		lo, loInc = get("gte"), true
	}
	if r.has("lt") {
		hi = get("lt")
	}
	if r.has("lte") {
		hi, hiInc = get("lte"), true
	}
	return
}

func (b *builder) scalar(f *protogen.Field, v *Term, r rules, p pos) {
	switch t := r.typ(); t {
	case "":
	case "bool":
		rr := r.sub(t)
		if rr.has("const") {
			b.viol(p, "bool", "const", Not(Eq(v, rr.term("const"))))
		}
	case "string":
		b.str(v, r.sub(t), p)
	case "bytes":
		b.bytes(v, r.sub(t), p)
	case "enum":
		rr := r.sub(t)
		if rr.has("const") {
			b.viol(p, "enum", "const", Not(Eq(v, rr.term("const"))))
		}
		b.inList(p, "enum", v, consts(rr.list("in")), consts(rr.list("not_in")))
		if rr.flag("defined_only") {
			def := False
			vs := f.Enum.Desc.Values()
			for i := 0; i < vs.Len(); i++ {
				def = Or(def, Eq(v, IntC(int64(vs.Get(i).Number()))))
			}
			b.viol(p, "enum", "defined_only", Not(def))
		}
	case "repeated", "map", "any", "duration", "timestamp":
	default:
		b.num(v, r.sub(t), p)
	}
}

func (b *builder) num(v *Term, r rules, p pos) {
	if r.flag("ignore_empty") {
		var zero *Term
		switch v.Sort {
		case F32:
			zero = F32C(0)
		case F64:
			zero = F64C(0)
		default:
			zero = IntC(0)
		}
		p.guard = And(p.guard, Not(Eq(v, zero)))
	}
	if r.has("const") {
		b.viol(p, "numeric", "const", Not(Eq(v, r.term("const"))))
	}
	lo, hi, li, hinc := bounds(r, r.term)
	if lo != nil || hi != nil {
		rev := false
		if lo != nil && hi != nil {
			rev = Le(hi, lo).IsTrue()
		}
		x := b.viol(p, "numeric", "range", Range(v, lo, hi, li, hinc, rev))
		if v.Sort == F32 || v.Sort == F64 {
			x.Hyp = Not(IsNaN(v))
			b.out.Floats = append(b.out.Floats, v)
		}
	}
	b.inList(p, "numeric", v, consts(r.list("in")), consts(r.list("not_in")))
}

func (b *builder) lengths(p pos, prop string, n *Term, r rules, eq, min, max, what string) {
	if !r.has(eq) && !r.has(min) && !r.has(max) {
		return
	}
	ok := True
	if r.has(eq) {
		ok = And(ok, Eq(n, r.term(eq)))
	}
	if r.has(min) {
		ok = And(ok, Le(r.term(min), n))
	}
	if r.has(max) {
		ok = And(ok, Le(n, r.term(max)))
	}
	b.viol(p, prop, what, Not(ok))
}

func (b *builder) affixes(p pos, prop string, v *Term, r rules) {
	if r.has("prefix") {
		b.viol(p, prop, "prefix", Not(model.HasPrefix(v, r.term("prefix"))))
	}
	if r.has("suffix") {
		b.viol(p, prop, "suffix", Not(model.HasSuffix(v, r.term("suffix"))))
	}
	if r.has("contains") {
		b.viol(p, prop, "contains", Not(model.Contains(v, r.term("contains"))))
	}
	if r.has("not_contains") {
		b.viol(p, prop, "not_contains", model.Contains(v, r.term("not_contains")))
	}
}

// HTTP header grammars of the documentation (RFC 7230; pseudo headers may
// begin with a colon).
const (
	HeaderName  = "^:?[0-9a-zA-Z!#$%&'*+\\-.^_|~\x60]+$"
	HeaderValue = "^[^\u0000-\u0008\u000A-\u001F\u007F]*$"
	HeaderLoose = "^[^\u0000\u000A\u000D]*$"
	UUID        = "^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$"
)

// HostnameOK is the documented hostname language.
func HostnameOK(h *Term) *Term {
	dot := StrC(".")
	s := model.TrimSuffix(h, dot)
	i := Var("hl", Int)
	k := Var("hk", Int)
	l := model.SplitAt(s, dot, i)
	c := model.RuneAt(l, k)
	in := func(a, z rune) *Term { return And(Le(IntC(int64(a)), c), Le(c, IntC(int64(z)))) }
	label := And(
		Le(IntC(1), model.BLen(l)), Le(model.BLen(l), IntC(63)),
		Not(Eq(model.ByteAt(l, IntC(0)), IntC('-'))),
		Not(Eq(model.ByteAt(l, Sub(model.BLen(l), IntC(1))), IntC('-'))),
		Forall(k, IntC(0), model.Runes(l), Or(in('a', 'z'), in('A', 'Z'), in('0', '9'), Eq(c, IntC('-')))))
	return And(Le(model.BLen(h), IntC(253)), Forall(i, IntC(0), model.SplitN(s, dot), label))
}

// EmailOK is the documented email language.
func EmailOK(s *Term) *Term {
	a := model.MailAddr(s)
	at := model.LastIdx(a, StrC("@"))
	dom := model.Substr(a, Add(at, IntC(1)), model.BLen(a))
	return And(model.MailOK(s), Le(model.BLen(a), IntC(254)), Le(at, IntC(64)), HostnameOK(dom))
}

func (b *builder) str(v *Term, r rules, p pos) {
	if r.flag("ignore_empty") {
		p.guard = And(p.guard, Not(Eq(v, StrC(""))))
	}
	if r.has("const") {
		b.viol(p, "string", "const", Not(Eq(v, r.term("const"))))
	}
	b.inList(p, "string", v, consts(r.list("in")), consts(r.list("not_in")))
	b.lengths(p, "string", model.Runes(v), r, "len", "min_len", "max_len", "length")
	b.lengths(p, "string", model.BLen(v), r, "len_bytes", "min_bytes", "max_bytes", "byte length")
	b.affixes(p, "string", v, r)
	known := func(rule string, ok *Term, cause string) {
		x := b.viol(p, "known", rule, Not(ok))
		x.Cause = cause
	}
	k := b.ip(v)
	switch {
	case r.flag("ip"):
		known("ip", Not(Eq(k, IntC(0))), "")
	case r.flag("ipv4"):
		known("ipv4", Eq(k, IntC(4)), "")
	case r.flag("ipv6"):
		known("ipv6", Eq(k, IntC(6)), "")
	case r.flag("email"):
		known("email", EmailOK(v), "format")
	case r.flag("hostname"):
		known("hostname", HostnameOK(v), "format")
	case r.flag("address"):
		known("address", Or(HostnameOK(v), Not(Eq(k, IntC(0)))), "format")
	case r.flag("uri"):
		known("uri", And(model.URLOK(v), model.URLAbs(v)), "format")
	case r.flag("uri_ref"):
		known("uri_ref", model.URLOK(v), "format")
	case r.flag("uuid"):
		known("uuid", model.ReMatch(UUID, v), "format")
	case r.has("well_known_regex"):
		loose := r.has("strict") && !r.flag("strict")
		switch n := r.get("well_known_regex").(*big.Int).Int64(); {
		case (n == 1 || n == 2) && loose:
			known("http header (loose)", model.ReMatch(HeaderLoose, v), "")
		case n == 1:
			known("http header name", model.ReMatch(HeaderName, v), "")
		case n == 2:
			known("http header value", model.ReMatch(HeaderValue, v), "")
		}
	}
	if r.has("pattern") {
		b.viol(p, "string", "pattern", Not(b.pattern(r.get("pattern").(string), v)))
	}
}

func (b *builder) bytes(v *Term, r rules, p pos) {
	n := model.BLen(v)
	if r.flag("ignore_empty") {
		p.guard = And(p.guard, Not(Eq(n, IntC(0))))
	}
	b.lengths(p, "bytes", n, r, "len", "min_len", "max_len", "length")
	b.affixes(p, "bytes", v, r)
	b.inList(p, "bytes", v, consts(r.list("in")), consts(r.list("not_in")))
	if r.has("const") {
		b.viol(p, "bytes", "const", Not(Eq(v, r.term("const"))))
	}
	four, sixteen := Eq(n, IntC(4)), Eq(n, IntC(16))
	mapped := model.V4Mapped(v)
	switch {
	case r.flag("ip"):
		b.viol(p, "bytes", "ip", Not(Or(four, sixteen)))
	case r.flag("ipv4"):
		b.viol(p, "bytes", "ipv4", Not(Or(four, mapped)))
	case r.flag("ipv6"):
		b.viol(p, "bytes", "ipv6", Not(And(sixteen, Not(mapped))))
	}
	if r.has("pattern") {
		b.viol(p, "bytes", "pattern", Not(b.pattern(r.get("pattern").(string), v)))
	}
}

// NSBig is seconds and nanos of a constant in nanoseconds.
func NSBig(m protoreflect.Message) *big.Int {
	s := m.Get(m.Descriptor().Fields().ByName("seconds")).Int()
	n := m.Get(m.Descriptor().Fields().ByName("nanos")).Int()
	b := new(big.Int).Mul(big.NewInt(s), big.NewInt(1000000000))
	return b.Add(b, big.NewInt(n))
}

func (r rules) ns(n string) *Term { return BigC(NSBig(r.sub(n).m)) }

func (b *builder) duration(ref, sec, nanos *Term, r rules, p, set pos) {
	if r.flag("required") {
		b.viol(p, "wkt", "required", b.isNil(ref))
	}
	lo, hi, li, hinc := bounds(r, r.ns)
	var in, notIn []*Term
	for _, m := range r.msgs("in") {
		in = append(in, BigC(NSBig(m.m)))
	}
	for _, m := range r.msgs("not_in") {
		notIn = append(notIn, BigC(NSBig(m.m)))
	}
	if lo == nil && hi == nil && len(in) == 0 && len(notIn) == 0 && !r.has("const") {
		return
	}
	ok := DurValid(sec, nanos)
	x := b.viol(set, "wkt", "valid duration", Not(ok))
	x.Cause = "format"
	set.guard = And(set.guard, ok)
	ns := NS(sec, nanos)
	if r.has("const") {
		b.viol(set, "wkt", "const", Not(Eq(ns, r.ns("const"))))
	}
	if lo != nil || hi != nil {
		b.viol(set, "wkt", "range", Range(ns, lo, hi, li, hinc, lo != nil && hi != nil && Le(hi, lo).IsTrue()))
	}
	b.inList(set, "wkt", ns, in, notIn)
}

func (b *builder) timestamp(ref, sec, nanos *Term, r rules, p, set pos) {
	if r.flag("required") {
		b.viol(p, "wkt", "required", b.isNil(ref))
	}
	lo, hi, li, hinc := bounds(r, r.ns)
	ltNow, gtNow := r.flag("lt_now"), r.flag("gt_now")
	if lo == nil && hi == nil && !r.has("const") && !r.has("lt_now") && !r.has("gt_now") && !r.has("within") {
		return
	}
	ok := TSValid(sec, nanos)
	x := b.viol(set, "wkt", "valid timestamp", Not(ok))
	x.Cause = "format"
	set.guard = And(set.guard, ok)
	ns := NS(sec, nanos)
	if r.has("const") {
		b.viol(set, "wkt", "const", Not(Eq(ns, r.ns("const"))))
	}
	if lo != nil || hi != nil {
		b.viol(set, "wkt", "range", Range(ns, lo, hi, li, hinc, lo != nil && hi != nil && Le(hi, lo).IsTrue()))
	}
	now := model.Now()
	var w *Term
	if r.has("within") {
		w = r.ns("within")
	}
	switch {
	case ltNow && w != nil:
		b.viol(set, "wkt", "lt_now within", Or(Le(now, ns), Lt(ns, Sub(now, w))))
	case ltNow:
		b.viol(set, "wkt", "lt_now", Le(now, ns))
	case gtNow && w != nil:
		b.viol(set, "wkt", "gt_now within", Or(Le(ns, now), Lt(Add(now, w), ns)))
	case gtNow:
		b.viol(set, "wkt", "gt_now", Le(ns, now))
	case w != nil:
		b.viol(set, "wkt", "within", Or(Le(Add(now, w), ns), Le(ns, Sub(now, w))))
	}
}

var billion = IntC(1000000000)

// DurValid is the valid range of google.protobuf.Duration.
func DurValid(sec, nanos *Term) *Term {
	lim := IntC(315576000000)
	neg := func(t *Term) *Term { return Sub(IntC(0), t) }
	return And(Le(neg(lim), sec), Le(sec, lim), Lt(neg(billion), nanos), Lt(nanos, billion),
		Not(And(Lt(IntC(0), sec), Lt(nanos, IntC(0)))), Not(And(Lt(sec, IntC(0)), Lt(IntC(0), nanos))))
}

// TSValid is the valid range of google.protobuf.Timestamp.
func TSValid(sec, nanos *Term) *Term {
	return And(Le(IntC(-62135596800), sec), Le(sec, IntC(253402300799)), Le(IntC(0), nanos), Lt(nanos, billion))
}

// NS is the value in nanoseconds.
func NS(sec, nanos *Term) *Term { return Add(Mul(sec, billion), nanos) }

// Violated evaluates the specification on a concrete message: for every
// violated constraint the list of indices (nil index when not in a loop).
type Hit struct {
	V   *Viol
	I   int64 // -1 outside loops
	Idx any
}

// Concrete lists the broken constraints of a concrete message in order of the
// specification.
func (m *Msg) Concrete(inst *model.Inst, now *big.Int, valid func(*model.Inst) bool) (hits []Hit, err error) {
	if inst.Nil || m.Disabled || m.Ignored {
		return nil, nil
	}
	in := model.InstInterp(now, valid)
	env := map[*Term]any{m.Self: RefVal{Ptr: inst}}
	for _, v := range m.Viols {
		if v.Loop == nil {
			r, err := Eval(v.Cond, env, in)
			if err != nil {
				return nil, fmt.Errorf("%s: %w", v, err)
			}
			if r.(bool) {
				h, err := m.hyp(v, env, in)
				if err != nil {
					return nil, err
				}
				if h {
					hits = append(hits, Hit{V: v, I: -1})
				}
			}
			continue
		}
		nv, err := Eval(v.Loop.N, env, in)
		if err != nil {
			return nil, err
		}
		for i := int64(0); i < nv.(*big.Int).Int64(); i++ {
			env[v.Loop.I] = big.NewInt(i)
			r, err := Eval(v.Cond, env, in)
			if err != nil {
				return nil, fmt.Errorf("%s: %w", v, err)
			}
			if r.(bool) {
				h, err := m.hyp(v, env, in)
				if err != nil {
					return nil, err
				}
				if h {
					idx, err := Eval(v.Idx, env, in)
					if err != nil {
						return nil, err
					}
					hits = append(hits, Hit{V: v, I: i, Idx: idx})
				}
			}
		}
		delete(env, v.Loop.I)
	}
	return hits, nil
}

func (m *Msg) hyp(v *Viol, env map[*Term]any, in Interp) (bool, error) {
	h, err := Eval(v.Hyp, env, in)
	if err != nil {
		return false, err
	}
	return h.(bool), nil
}
