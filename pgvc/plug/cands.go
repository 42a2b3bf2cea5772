package plug

import (
	"bytes"
	_ "embed"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"google.golang.org/protobuf/encoding/prototext"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/pluginpb"

	"pgvc/gen"
	"pgvc/model"
	"pgvc/smt"
)

//go:embed harness.go.txt
var harness string

// Ty is a concrete field type.
type Ty struct {
	Field, Rep, Map bool
	Proto           int
	Msg             *Msg
	Enum            []int64
	Elem, Key       *Ty
	Type            string // .proto spelling
	full            string // type name
}

// Msg is a concrete message type.
type Msg struct {
	WKT string
	F0  *Ty
}

var enumValues = []int64{0, 1, 2, 5}

// scalars by descriptor type number.
var scalarNames = map[int]string{1: "double", 2: "float", 3: "int64", 4: "uint64", 5: "int32", 6: "fixed64", 7: "fixed32", 8: "bool", 9: "string",
	12: "bytes", 13: "uint32", 15: "sfixed32", 16: "sfixed64", 17: "sint32", 18: "sint64"}

func elems() []*Ty {
	var out []*Ty
	for n := 1; n <= 18; n++ {
		if s, ok := scalarNames[n]; ok {
			out = append(out, &Ty{Proto: n, Type: s})
		}
	}
	out = append(out, &Ty{Proto: 14, Enum: enumValues, Type: "E", full: ".cand.E"}, &Ty{Proto: messageT, Msg: &Msg{WKT: "Unknown"}, Type: "Sub", full: ".cand.Sub"})
	for _, w := range []string{"Any", "Duration", "Timestamp", "DoubleValue", "FloatValue", "Int64Value", "UInt64Value", "Int32Value", "UInt32Value", "BoolValue", "StringValue", "BytesValue"} {
		m := &Msg{WKT: w}
		if k, ok := wrapperOf[w]; ok {
			m.F0 = &Ty{Field: true, Proto: int(protoTypes[k]), Type: k}
		}
		out = append(out, &Ty{Proto: messageT, Msg: m, Type: "google.protobuf." + w, full: ".google.protobuf." + w})
	}
	return out
}

func single(e *Ty) *Ty { t := *e; t.Field = true; return &t }
func repeated(e *Ty) *Ty {
	return &Ty{Field: true, Rep: true, Proto: e.Proto, Elem: e, Type: "repeated " + e.Type}
}
func mapOf(k, v *Ty) *Ty {
	return &Ty{Field: true, Map: true, Proto: messageT, Elem: v, Key: k, Type: "map<" + k.Type + ", " + v.Type + ">"}
}

func keyOK(e *Ty) bool {
	return e.Msg == nil && e.Enum == nil && e.Proto != 1 && e.Proto != 2 && e.Proto != 12
}

// Cand is one field with rules.
type Cand struct {
	T        *Ty
	Rules    string // text form of validate.FieldRules
	Disabled bool
	inst     *model.Inst
	raw      []byte
	Causes   []Clause // why it must be refused
	Kind     string   // innermost rule kind
}

// Inst converts a message to the calculus' concrete form.
func toInst(m protoreflect.Message) *model.Inst {
	i := model.NewInst(m.Descriptor())
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		conv := func(v protoreflect.Value) any {
			if fd.Kind() == protoreflect.MessageKind {
				return toInst(v.Message())
			}
			return model.FromPR(fd, v)
		}
		if fd.IsList() {
			l := []any{}
			for k := 0; k < v.List().Len(); k++ {
				l = append(l, conv(v.List().Get(k)))
			}
			i.F[fd.Name()] = l
		} else {
			i.F[fd.Name()] = conv(v)
		}
		return true
	})
	return i
}

func (s *S) kindOf(i *model.Inst) string {
	if i == nil || i.Nil {
		return ""
	}
	oo := s.typeOO()
	for k := 0; k < oo.Fields().Len(); k++ {
		if _, ok := i.F[oo.Fields().Get(k).Name()]; ok {
			return string(oo.Fields().Get(k).Name())
		}
	}
	return ""
}

var tVar, rVar = smt.Var("self!type", smt.Ref), smt.Var("self!rules", smt.Ref)

func ref[T any](p *T) smt.RefVal {
	if p == nil {
		return smt.RefVal{}
	}
	return smt.RefVal{Ptr: p}
}

// interp gives types and rules their concrete meaning.
func (s *S) interp() model.Interp_ {
	base := model.InstInterp(new(big.Int), func(*model.Inst) bool { return true })
	var in model.Interp_
	in = func(name string, a []any) (any, bool) {
		ptr := func(i int) any { r, _ := a[i].(smt.RefVal); return r.Ptr }
		ty := func() *Ty {
			if t, ok := ptr(0).(*Ty); ok {
				return t
			}
			return &Ty{}
		}
		n := func(i int) any { return big.NewInt(int64(i)) }
		switch name {
		case "isnil":
			if _, ok := ptr(0).(*model.Inst); !ok {
				return ptr(0) == nil, true
			}
		case "ty.field":
			return ty().Field, true
		case "ty.rep":
			return ty().Rep, true
		case "ty.map":
			return ty().Map, true
		case "ty.proto":
			return n(ty().Proto), true
		case "ty.msg":
			return ref(ty().Msg), true
		case "ty.elem":
			return ref(ty().Elem), true
		case "ty.key":
			return ref(ty().Key), true
		case "ty.enum":
			if t := ty(); t.Enum != nil {
				return smt.RefVal{Ptr: t}, true
			}
			return smt.RefVal{}, true
		case "en.n":
			return n(len(ty().Enum)), true
		case "en.v":
			return big.NewInt(ty().Enum[a[1].(*big.Int).Int64()]), true
		case "pm.wkt":
			if m, ok := ptr(0).(*Msg); ok {
				return m.WKT, true
			}
			return "", true
		case "badrules":
			i, _ := ptr(1).(*model.Inst)
			t, _ := ptr(0).(*Ty)
			if i == nil || i.Nil {
				return false, true
			}
			c, err := s.causes(t, i)
			if err != nil {
				panic(err)
			}
			return len(c) > 0, true
		}
		return base(name, a)
	}
	return in
}

// causes lists why the rules must be refused on the type.
func (s *S) causes(t *Ty, i *model.Inst) ([]Clause, error) {
	var out []Clause
	env := map[*smt.Term]any{tVar: ref(t), rVar: ref(i)}
	in := s.interp()
	eval := func(c Clause) error {
		v, err := smt.Eval(c.Bad, env, in)
		if err != nil {
			return fmt.Errorf("%s: %w", c.Name, err)
		}
		if v.(bool) {
			out = append(out, c)
		}
		return nil
	}
	kind := s.kindOf(i)
	cs := []Clause{{"C01", kind + " rules on a field they do not fit", smt.Not(fits(kind, tVar))}, {"C01", "message rules on what is no message", s.misfitMessage(tVar, rVar)}}
	for _, c := range append(cs, s.Contra(kind, tVar, rVar)...) {
		if strings.HasPrefix(c.Name, "bad ") {
			continue
		}
		if err := eval(c); err != nil {
			return nil, err
		}
	}
	sub := func(kind, n string, e *Ty) error {
		m, _ := i.F[protoreflect.Name(kind)].(*model.Inst)
		if m == nil || e == nil {
			return nil
		}
		r, _ := m.F[protoreflect.Name(n)].(*model.Inst)
		if r == nil {
			return nil
		}
		c, err := s.causes(e, r)
		for _, x := range c {
			out = append(out, Clause{x.Prop, n + ": " + x.Name, x.Bad})
		}
		return err
	}
	if len(out) == 0 {
		switch kind {
		case "repeated":
			return out, sub(kind, "items", t.Elem)
		case "map":
			if err := sub(kind, "keys", t.Key); err != nil {
				return nil, err
			}
			if err := sub(kind, "values", t.Elem); err != nil {
				return nil, err
			}
		}
	}
	return out, nil
}

func (s *S) fieldCauses(t *Ty, i *model.Inst) ([]Clause, error) {
	out, err := s.causes(t, i)
	if err != nil {
		return nil, err
	}
	env := map[*smt.Term]any{tVar: ref(t), rVar: ref(i)}
	for _, c := range s.FieldClauses(tVar, rVar) {
		v, err := smt.Eval(c.Bad, env, s.interp())
		if err != nil {
			return nil, err
		}
		if v.(bool) {
			out = append(out, c)
		}
	}
	return out, nil
}

func inner(k string, i *model.Inst, s *S) string {
	m, _ := i.F[protoreflect.Name(k)].(*model.Inst)
	if m == nil {
		return k
	}
	for _, n := range []string{"items", "keys", "values"} {
		if r, _ := m.F[protoreflect.Name(n)].(*model.Inst); r != nil {
			if kk := s.kindOf(r); kk != "" {
				return inner(kk, r, s)
			}
		}
	}
	return k
}

// prepare parses the rules and computes the expectation.
func (p *P) prepare(c *Cand) error {
	m := dynamicpb.NewMessage(p.H.S.MD)
	if err := prototext.Unmarshal([]byte(c.Rules), m); err != nil {
		return fmt.Errorf("%s: %w", c.Rules, err)
	}
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	if err != nil {
		return err
	}
	c.raw = b
	c.inst = toInst(m)
	c.Kind = inner(p.H.S.kindOf(c.inst), c.inst, p.H.S)
	if !c.Disabled {
		c.Causes, err = p.H.S.fieldCauses(c.T, c.inst)
	}
	return err
}

func fieldProto(t *Ty, n int32, raw []byte) (*descriptorpb.FieldDescriptorProto, *descriptorpb.DescriptorProto) {
	f := &descriptorpb.FieldDescriptorProto{Name: proto.String(fmt.Sprintf("f%d", n)), Number: proto.Int32(n), JsonName: proto.String(fmt.Sprintf("f%d", n)), Options: &descriptorpb.FieldOptions{}}
	e := t
	l := descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL
	var entry *descriptorpb.DescriptorProto
	if t.Rep {
		l, e = descriptorpb.FieldDescriptorProto_LABEL_REPEATED, t.Elem
	}
	set := func(f *descriptorpb.FieldDescriptorProto, e *Ty) {
		f.Type = descriptorpb.FieldDescriptorProto_Type(e.Proto).Enum()
		if e.full != "" {
			f.TypeName = proto.String(e.full)
		}
	}
	if t.Map {
		l = descriptorpb.FieldDescriptorProto_LABEL_REPEATED
		name := fmt.Sprintf("F%dEntry", n)
		k, _ := fieldProto(t.Key, 1, nil)
		v, _ := fieldProto(t.Elem, 2, nil)
		k.Name, v.Name = proto.String("key"), proto.String("value")
		k.Options, v.Options = nil, nil
		entry = &descriptorpb.DescriptorProto{Name: proto.String(name), Options: &descriptorpb.MessageOptions{MapEntry: proto.Bool(true)}, Field: []*descriptorpb.FieldDescriptorProto{k, v}}
		f.Type = descriptorpb.FieldDescriptorProto_TYPE_MESSAGE.Enum()
		f.TypeName = proto.String(name) // completed by the caller
	} else {
		set(f, e)
	}
	f.Label = l.Enum()
	if raw != nil {
		u := protowire.AppendTag(nil, 1071, protowire.BytesType)
		f.Options.ProtoReflect().SetUnknown(protowire.AppendBytes(u, raw))
	}
	return f, entry
}

// File builds the descriptor of candidate messages M0, M1, ...
func (p *P) file(cs []*Cand, name string) *descriptorpb.FileDescriptorProto {
	fd := &descriptorpb.FileDescriptorProto{Name: proto.String(name), Package: proto.String("cand"), Syntax: proto.String("proto3"),
		Dependency: []string{"validate/validate.proto", "google/protobuf/wrappers.proto", "google/protobuf/any.proto", "google/protobuf/duration.proto", "google/protobuf/timestamp.proto"},
		Options:    &descriptorpb.FileOptions{GoPackage: proto.String("pgvc.test/cand;cand")}}
	en := &descriptorpb.EnumDescriptorProto{Name: proto.String("E")}
	for _, v := range enumValues {
		en.Value = append(en.Value, &descriptorpb.EnumValueDescriptorProto{Name: proto.String(fmt.Sprintf("V%d", v)), Number: proto.Int32(int32(v))})
	}
	fd.EnumType = append(fd.EnumType, en)
	fd.MessageType = append(fd.MessageType, &descriptorpb.DescriptorProto{Name: proto.String("Sub")})
	for i, c := range cs {
		fd.MessageType = append(fd.MessageType, p.message(fmt.Sprintf("M%d", i), c))
	}
	return fd
}

func (p *P) message(name string, c *Cand) *descriptorpb.DescriptorProto {
	m := &descriptorpb.DescriptorProto{Name: proto.String(name)}
	// a plain field first: the bad one is not always the first
	m.Field = append(m.Field, &descriptorpb.FieldDescriptorProto{Name: proto.String("plain"), Number: proto.Int32(1), Type: descriptorpb.FieldDescriptorProto_TYPE_INT32.Enum(), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), JsonName: proto.String("plain")})
	f, e := fieldProto(c.T, 2, c.raw)
	if e != nil {
		f.TypeName = proto.String(".cand." + name + "." + f.GetTypeName())
		m.NestedType = append(m.NestedType, e)
	}
	m.Field = append(m.Field, f)
	if c.Disabled {
		m.Options = &descriptorpb.MessageOptions{}
		u := protowire.AppendTag(nil, 1071, protowire.VarintType)
		m.Options.ProtoReflect().SetUnknown(protowire.AppendVarint(u, 1))
	}
	return m
}

// Real runs the real checker.
type Real struct {
	p   *P
	bin string
}

// NewReal builds the harness against the repository.
func NewReal(p *P, e *gen.Env) (*Real, error) {
	d := filepath.Join(e.Dir, "plugcheck")
	os.MkdirAll(d, 0o755)
	if err := os.WriteFile(filepath.Join(d, "main.go"), []byte(harness), 0o644); err != nil {
		return nil, err
	}
	mod, err := os.ReadFile(filepath.Join(gen.Repo, "go.mod"))
	if err != nil {
		return nil, err
	}
	body := strings.Replace(string(mod), "module github.com/envoyproxy/protoc-gen-validate", "module pgvc.test/plugcheck", 1)
	body += "\nrequire github.com/envoyproxy/protoc-gen-validate v0.0.0\n\nreplace github.com/envoyproxy/protoc-gen-validate => " + gen.Repo + "\n"
	os.WriteFile(filepath.Join(d, "go.mod"), []byte(body), 0o644)
	sum, _ := os.ReadFile(filepath.Join(gen.Repo, "go.sum"))
	os.WriteFile(filepath.Join(d, "go.sum"), sum, 0o644)
	r := &Real{p: p, bin: filepath.Join(e.Dir, "plugcheck.bin")}
	if _, se, err := e.Go(d, "build", "-mod=mod", "-o", r.bin, "."); err != nil {
		return nil, fmt.Errorf("plugcheck: %v\n%s", err, se)
	}
	return r, nil
}

type realJob struct {
	Req     []byte
	Execute bool
}

// RealRes is what the real module did.
type RealRes struct {
	Refused map[string]string
	Outputs []string
	Fatal   string
}

func (r *Real) run(jobs []realJob) ([]RealRes, error) {
	var in, out, se bytes.Buffer
	enc := json.NewEncoder(&in)
	for _, j := range jobs {
		enc.Encode(j)
	}
	c := exec.Command("timeout", "-k", "5", "200", r.bin)
	c.Stdin, c.Stdout, c.Stderr = &in, &out, &se
	err := c.Run()
	var rs []RealRes
	dec := json.NewDecoder(&out)
	for dec.More() {
		var x RealRes
		if dec.Decode(&x) != nil {
			break
		}
		rs = append(rs, x)
	}
	if len(rs) < len(jobs) {
		t := se.String()
		if len(t) > 1500 {
			t = t[:1500]
		}
		return nil, fmt.Errorf("plugcheck stopped: %v %s", err, t)
	}
	return rs, nil
}

func (r *Real) request(fds []*descriptorpb.FileDescriptorProto, param string) []byte {
	req := &pluginpb.CodeGeneratorRequest{Parameter: proto.String(param)}
	for _, f := range r.p.W.FDS.File {
		if f.GetName() != "plug.proto" {
			req.ProtoFile = append(req.ProtoFile, f)
		}
	}
	for _, f := range fds {
		req.ProtoFile = append(req.ProtoFile, f)
		req.FileToGenerate = append(req.FileToGenerate, f.GetName())
	}
	b, err := proto.Marshal(req)
	if err != nil {
		panic(err)
	}
	return b
}

// Miss is a candidate the checker judged wrongly.
type Miss struct {
	C       *Cand
	Refused bool
	Why     string
	Prop    string
	Text    string
}

// Decl is the candidate as .proto text.
func (c *Cand) Decl() string {
	d := fmt.Sprintf("message M { int32 plain = 1; %s f2 = 2 [(validate.rules) = {%s}]; }", c.T.Type, c.Rules)
	if c.Disabled {
		d = strings.Replace(d, "{ int32", "{ option (validate.disabled) = true; int32", 1)
	}
	return d
}

// Run judges candidates with the real checker and compares.
func (r *Real) Run(cs []*Cand) ([]Miss, error) {
	all := cs
	cs = nil
	for _, c := range all {
		if err := r.p.prepare(c); err != nil {
			if strings.Contains(err.Error(), "oneof") { // not a rule set: two members
				continue
			}
			return nil, err
		}
		cs = append(cs, c)
	}
	const batch = 400
	var jobs []realJob
	for i := 0; i < len(cs); i += batch {
		e := i + batch
		if e > len(cs) {
			e = len(cs)
		}
		jobs = append(jobs, realJob{Req: r.request([]*descriptorpb.FileDescriptorProto{r.p.file(cs[i:e], "cand.proto")}, "lang=go")})
	}
	rs, err := r.run(jobs)
	if err != nil {
		return nil, err
	}
	var out []Miss
	for i, c := range cs {
		res := rs[i/batch]
		if res.Fatal != "" {
			return nil, fmt.Errorf("plugcheck: %s", res.Fatal)
		}
		why, refused := res.Refused[fmt.Sprintf("M%d", i%batch)]
		if m := judge(c, refused, why); m != nil {
			out = append(out, *m)
		}
	}
	return out, nil
}

func judge(c *Cand, refused bool, why string) *Miss {
	if refused == (len(c.Causes) > 0) {
		return nil
	}
	m := Miss{C: c, Refused: refused, Why: why}
	if refused {
		m.Prop = Owner(c.Kind)
		m.Text = fmt.Sprintf("the plugin refuses consistent rules that fit the field (%s): %s", why, c.Decl())
	} else {
		m.Prop = c.Causes[0].Prop
		m.Text = fmt.Sprintf("the plugin accepts %s: %s", c.Causes[0].Name, c.Decl())
	}
	return &m
}

func subsets(ss []string, f func([]string)) {
	for k := 0; k < 1<<len(ss); k++ {
		var s []string
		for i := range ss {
			if k>>i&1 == 1 {
				s = append(s, ss[i])
			}
		}
		f(s)
	}
}

// Cands enumerates candidates.
func Cands(seed int64, deep bool) []*Cand {
	var out []*Cand
	rnd := rand.New(rand.NewSource(seed))
	es := elems()
	byName := map[string]*Ty{}
	for _, e := range es {
		byName[e.Type] = e
	}
	at := func(kind string) *Ty {
		switch kind {
		case "enum":
			return byName["E"]
		case "any", "duration", "timestamp":
			return byName["google.protobuf."+wktRules[kind]]
		}
		return byName[kind]
	}
	add := func(t *Ty, rules string) { out = append(out, &Cand{T: t, Rules: rules}) }
	// every kind of rules on every type
	bodies := map[string][]string{}
	for k := range protoTypes {
		switch k {
		case "bool":
			bodies[k] = []string{"", "const: false"}
		case "string":
			bodies[k] = []string{"", "min_len: 1", "in: \"\""}
		case "bytes":
			bodies[k] = []string{"", "min_len: 1"}
		case "enum":
			bodies[k] = []string{"", "defined_only: true", "in: 1 defined_only: true"}
		default:
			bodies[k] = []string{"", "gt: 0"}
		}
	}
	bodies["any"] = []string{"", "required: true", "in: \"a/b\""}
	bodies["duration"] = []string{"", "gt: {}"}
	bodies["timestamp"] = []string{"", "lt_now: true"}
	bodies["repeated"] = []string{"", "min_items: 1", "unique: true", "items: {}", "items: {message: {skip: true}}", "items: {message: {required: true}}"}
	bodies["map"] = []string{"", "min_pairs: 1", "no_sparse: true", "keys: {}", "values: {message: {skip: true}}", "keys: {message: {}}"}
	var types []*Ty
	for _, e := range es {
		types = append(types, single(e), repeated(e), mapOf(byName["string"], e))
		if keyOK(e) {
			types = append(types, mapOf(e, byName["int32"]))
		}
	}
	kinds := []string{}
	for k := range bodies {
		kinds = append(kinds, k)
	}
	sortStrings(kinds)
	for _, t := range types {
		for _, mr := range []string{"message: {}", "message: {required: true}", "message: {skip: true}"} {
			add(t, mr)
		}
		for _, k := range kinds {
			for _, b := range bodies[k] {
				add(t, k+": {"+b+"}")
				if t.Rep && k != "repeated" && k != "map" {
					add(t, "repeated: {items: {"+k+": {"+b+"}}}")
				}
				if t.Map {
					add(t, "map: {values: {"+k+": {"+b+"}}}")
					add(t, "map: {keys: {"+k+": {"+b+"}}}")
				}
			}
			if b := bodies[k]; t.Msg != nil {
				add(t, k+": {"+b[0]+"} message: {required: true}")
				add(t, k+": {"+b[len(b)-1]+"} message: {skip: true}")
			}
		}
	}
	// combinations within a kind
	put := func(kind, body string) {
		t := at(kind)
		r := kind + ": {" + body + "}"
		add(single(t), r)
		switch rnd.Intn(4) {
		case 0:
			add(repeated(t), "repeated: {items: {"+r+"}}")
		case 1:
			add(mapOf(byName["string"], t), "map: {values: {"+r+"}}")
		case 2:
			if keyOK(t) {
				add(mapOf(t, byName["bool"]), "map: {keys: {"+r+"}}")
			}
		case 3:
			if w, ok := wrappers[kind]; ok {
				add(single(byName["google.protobuf."+w]), r)
			}
		}
	}
	schemes := [][]string{{"1", "2", "3", "4", "5", "6", "7"}, {"7", "6", "5", "4", "3", "2", "1"}, {"1", "1", "1", "1", "1", "1", "1"}}
	rules := []string{"const", "lt", "lte", "gt", "gte", "in", "not_in"}
	var names []string
	for k := range protoTypes {
		names = append(names, k)
	}
	sortStrings(names)
	for _, k := range names {
		n := protoTypes[k]
		if n == 8 || n == 9 || n == 12 || n == 14 {
			continue
		}
		sch := append([][]string{}, schemes...)
		switch k {
		case "float", "double":
			sch = append(sch, []string{"nan", "nan", "nan", "nan", "nan", "nan", "nan"}, []string{"0", "0", "-0.0", "-0.0", "0", "1", "2"}, []string{"inf", "inf", "1e30", "inf", "-inf", "1", "inf"})
		case "int64", "sint64", "sfixed64":
			sch = append(sch, []string{"9223372036854775807", "9223372036854775807", "9223372036854775807", "-9223372036854775808", "9223372036854775807", "0", "0"})
		case "uint64", "fixed64":
			sch = append(sch, []string{"18446744073709551615", "18446744073709551615", "0", "18446744073709551615", "0", "0", "0"})
		}
		for _, sc := range sch {
			subsets(rules, func(s []string) {
				b := ""
				for i, r := range rules {
					for _, x := range s {
						if x == r {
							b += r + ": " + sc[i] + " "
						}
					}
				}
				put(k, b)
			})
		}
	}
	durs := [][]string{{"{seconds: 1}", "{seconds: 2}", "{seconds: 3}", "{seconds: 4}", "{seconds: 5}", "{seconds: 6}", "{seconds: 7}"},
		{"{nanos: 5}", "{nanos: 5}", "{nanos: 5}", "{nanos: 5}", "{nanos: 5}", "{nanos: 5}", "{nanos: 5}"},
		{"{seconds: -1 nanos: -1}", "{seconds: -1}", "{}", "{nanos: 1}", "{seconds: 9223372036 nanos: 854775807}", "{}", "{}"},
		{"{seconds: 9223372037}", "{seconds: 9223372037}", "{seconds: 9223372037}", "{seconds: 9223372037}", "{seconds: 9223372037}", "{seconds: 9223372037}", "{seconds: 9223372037}"},
		{"{seconds: 1 nanos: -1}", "{seconds: 315576000001}", "{nanos: 1000000000}", "{seconds: -9223372037}", "{seconds: -9223372036 nanos: -854775809}", "{seconds: 1 nanos: -5}", "{nanos: -1000000000}"}}
	for _, sc := range durs {
		subsets(rules, func(s []string) {
			b := ""
			for i, r := range rules {
				for _, x := range s {
					if x == r {
						b += r + ": " + sc[i] + " "
					}
				}
			}
			put("duration", b)
		})
	}
	trules := []string{"const", "lt", "lte", "gt", "gte", "lt_now", "gt_now", "within"}
	tss := [][]string{{"{seconds: 1}", "{seconds: 2}", "{seconds: 3}", "{seconds: 4}", "{seconds: 5}", "true", "true", "{seconds: 1}"},
		{"{nanos: 7}", "{nanos: 7}", "{nanos: 7}", "{nanos: 7}", "{nanos: 7}", "true", "true", "{}"},
		{"{seconds: 9223372037}", "{seconds: 9223372037 nanos: 1}", "{seconds: -62135596800}", "{seconds: 253402300799}", "{seconds: 27670116110 nanos: 564000000}", "true", "true", "{nanos: 1}"},
		{"{}", "{seconds: -9223372037}", "{seconds: 9223372036 nanos: 709551616}", "{seconds: -9223372037}", "{seconds: -9223372037 nanos: 1}", "false", "true", "{seconds: -1}"},
		{"{seconds: 253402300800}", "{seconds: -62135596801}", "{nanos: -1}", "{nanos: 1000000000}", "{seconds: 253402300800}", "true", "true", "{seconds: 9223372037}"}}
	for _, sc := range tss {
		subsets(trules, func(s []string) {
			b := ""
			for i, r := range trules {
				for _, x := range s {
					if x == r {
						b += r + ": " + sc[i] + " "
					}
				}
			}
			put("timestamp", b)
		})
	}
	// pairs (and some triples) of the other kinds
	mix := func(kind string, opts []string, triples int) {
		name := func(s string) string { return s[:strings.IndexByte(s, ':')] }
		for i, a := range opts {
			put(kind, a)
			for _, b := range opts[i+1:] {
				if name(a) != name(b) || name(a) == "in" || name(a) == "not_in" {
					put(kind, a+" "+b)
				}
			}
		}
		for k := 0; k < triples; k++ {
			n := 3 + rnd.Intn(3)
			seen := map[string]bool{}
			b := ""
			for j := 0; j < n; j++ {
				o := opts[rnd.Intn(len(opts))]
				if wk := name(o); !seen[wk] {
					seen[wk] = true
					b += o + " "
				}
			}
			put(kind, b)
		}
	}
	str := []string{`const: "a"`, `const: ""`, "len: 0", "len: 3", "min_len: 0", "min_len: 2", "min_len: 9", "max_len: 0", "max_len: 1", "max_len: 4", "max_len: 18446744073709551615", "min_len: 18446744073709551615",
		"len_bytes: 3", "min_bytes: 2", "min_bytes: 9", "max_bytes: 0", "max_bytes: 1", "max_bytes: 4", "max_bytes: 18446744073709551615", `pattern: "^a"`, `pattern: "("`, `pattern: ""`, `pattern: "a{2000}"`,
		`prefix: "ab"`, `prefix: ""`, `prefix: "éé"`, `suffix: "abcd"`, `suffix: "éé"`, `suffix: "ééé"`, `contains: "é"`, `contains: "abcde"`, `not_contains: "x"`, `in: "a"`, `in: ""`, `not_in: "a"`,
		"well_known_regex: UNKNOWN", "well_known_regex: HTTP_HEADER_NAME", "well_known_regex: HTTP_HEADER_VALUE", "strict: false", "strict: true", "email: true", "uuid: true", "hostname: false", "ignore_empty: true", "address: true"}
	byt := []string{`const: "a"`, "len: 0", "len: 3", "min_len: 0", "min_len: 2", "min_len: 9", "max_len: 0", "max_len: 1", "max_len: 4", "max_len: 18446744073709551615", `pattern: "^a"`, `pattern: "("`, `pattern: ""`,
		`prefix: "ab"`, `prefix: ""`, `suffix: "\377\376"`, `suffix: "abcde"`, `contains: "\303\251"`, `contains: "abcde"`, `in: "a"`, `in: ""`, `not_in: "a"`, "ip: true", "ipv6: true", "ignore_empty: true"}
	n := 1500
	if deep {
		n = 15000
	}
	mix("string", str, n)
	mix("bytes", byt, n/3)
	mix("enum", []string{"const: 1", "const: 77", "defined_only: true", "defined_only: false", "in: 1", "in: 77", "in: [0, 1, 2, 5]", "in: [5, 4]", "not_in: 1", "not_in: 77"}, n/10)
	// lists with one undefined value, anywhere
	for _, n := range []int{2, 3, 5, 12, 40} {
		for k := 0; k < n; k++ {
			l := make([]string, n)
			for i := range l {
				l[i] = fmt.Sprint(enumValues[(i+k)%len(enumValues)])
			}
			put("enum", "defined_only: true in: ["+strings.Join(l, ", ")+"]")
			l[k] = "77"
			put("enum", "defined_only: true in: ["+strings.Join(l, ", ")+"]")
		}
	}
	mix("any", []string{"required: true", `in: "a"`, `in: ""`, `not_in: "a"`, `not_in: ["b", "c"]`}, 50)
	rep := []string{"min_items: 0", "min_items: 3", "max_items: 2", "max_items: 3", "max_items: 18446744073709551615", "min_items: 18446744073709551615", "unique: true", "unique: false", "ignore_empty: true"}
	mp := []string{"min_pairs: 0", "min_pairs: 3", "max_pairs: 2", "max_pairs: 3", "no_sparse: true", "no_sparse: false", "min_pairs: 18446744073709551615", "ignore_empty: true"}
	pairs := func(opts []string, f func(b string)) {
		for i, a := range opts {
			f(a)
			for _, b := range opts[i+1:] {
				if a[:6] != b[:6] {
					f(a + " " + b)
				}
			}
		}
	}
	for _, e := range es {
		e := e
		pairs(rep, func(b string) { add(repeated(e), "repeated: {"+b+"}") })
		pairs(mp, func(b string) { add(mapOf(byName["string"], e), "map: {"+b+"}") })
	}
	// good and bad element rules beside the collection's own
	for _, b := range []string{`min_len: 5 max_len: 2`, `pattern: "("`, `in: "a" not_in: "b"`, `min_len: 1`} {
		add(repeated(byName["string"]), "repeated: {min_items: 1 unique: true items: {string: {"+b+"}}}")
		add(mapOf(byName["string"], byName["string"]), "map: {min_pairs: 1 keys: {string: {"+b+"}} values: {string: {min_len: 1}}}")
		add(mapOf(byName["string"], byName["string"]), "map: {min_pairs: 1 values: {string: {"+b+"}} keys: {string: {min_len: 1}}}")
	}
	// disabled messages are not checked
	for i := 0; i < 200; i++ {
		c := out[rnd.Intn(len(out))]
		out = append(out, &Cand{T: c.T, Rules: c.Rules, Disabled: true})
	}
	return out
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
