package replay

import (
	"bytes"
	_ "embed"
	"encoding/hex"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	"pgvc/gen"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/spec"
)

//go:embed harness.cc.txt
var ccHarness string

// CC replays messages of a world on the compiled C++ validators.
type CC struct {
	R     *R
	C     *gen.CC
	Index map[*protogen.Message]int
	bin   string
	named func(m *protogen.Message, field string) []string
	byPat map[protoreflect.FullName]bool // bytes fields with patterns
}

// pattern says a rule in r is a pattern of bytes.
func pattern(r protoreflect.Message) (found bool) {
	r.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if fd.Name() == "pattern" && r.Descriptor().Name() == "BytesRules" {
			found = true
		} else if fd.Message() != nil && !fd.IsList() && !fd.IsMap() {
			found = found || pattern(v.Message())
		}
		return true
	})
	return
}

// outside says a pattern would be matched with bytes that are no UTF-8, which
// RE2 does not define.
func (c *CC) outside(i *model.Inst) bool {
	var rec func(fd protoreflect.FieldDescriptor, v any) bool
	rec = func(fd protoreflect.FieldDescriptor, v any) bool {
		switch x := v.(type) {
		case *model.Inst:
			if x.Nil {
				return false
			}
			for n, e := range x.F {
				f := x.MD.Fields().ByName(n)
				if fd != nil && c.byPat[fd.FullName()] { // a wrapper
					f = fd
				}
				if rec(f, e) {
					return true
				}
			}
		case []any:
			for _, e := range x {
				if rec(fd, e) {
					return true
				}
			}
		case []model.KV:
			for _, kv := range x {
				if rec(fd, kv.K) || rec(fd, kv.V) {
					return true
				}
			}
		case string:
			return fd != nil && c.byPat[fd.FullName()] && !utf8.ValidString(x)
		}
		return false
	}
	return rec(nil, i)
}

func (r *R) specOf(m *protogen.Message) *spec.Msg {
	if r.build != nil {
		return r.build(m)
	}
	return spec.Build(r.W, m, smt.Var("self!"+m.GoIdent.GoName, smt.Ref))
}

func (r *R) isValidated(m *protogen.Message) bool {
	if r.valid != nil {
		return r.valid(m)
	}
	return spec.Validated(r.W, m)
}

// NewCC compiles the generated C++ code of the messages with validators.
func NewCC(w *gen.World, c *gen.CC, msgs []*protogen.Message, class func(*protogen.Message) string, valid func(*protogen.Message) bool, named func(*protogen.Message, string) []string) (*CC, error) {
	r := &CC{C: c, Index: map[*protogen.Message]int{}, named: named}
	r.R = &R{W: w, specs: map[*protogen.Message]*spec.Msg{}, valid: valid, build: func(m *protogen.Message) *spec.Msg {
		return spec.BuildCC(w, m, smt.Var("self!"+m.GoIdent.GoName, smt.Ref), valid)
	}}
	r.byPat = map[protoreflect.FullName]bool{}
	for _, m := range w.GoMsg {
		for _, f := range m.Fields {
			if fr := spec.FieldRules(w, f); fr != nil && fr.IsValid() && pattern(fr) {
				r.byPat[f.Desc.FullName()] = true
			}
		}
	}
	var table strings.Builder
	for _, m := range msgs {
		if spec.MsgFlag(w, m, "ignored") {
			continue
		}
		r.Index[m] = len(r.Index)
		fmt.Fprintf(&table, "  run< ::%s>,\n", class(m))
	}
	main := filepath.Join(c.Dir, "replay_main.cc")
	if err := os.WriteFile(main, []byte(strings.Replace(ccHarness, "//TABLE\n", table.String(), 1)), 0o644); err != nil {
		return nil, err
	}
	// the classes of protoc, in a few units; the validators, one each
	var pbs []string
	n := 0
	incs := make([]string, 6)
	// every file: those with refused validators have classes others may use
	for i, f := range append([]gen.File{{Name: "validate/validate"}}, w.Files...) {
		if _, err := os.Stat(filepath.Join(c.Dir, f.Name+".pb.cc")); err == nil {
			// names private to a file
			for _, k := range []string{"schemas", "file_default_instances"} {
				incs[i%len(incs)] += fmt.Sprintf("#undef %s\n#define %s %s_%d\n", k, k, k, i)
			}
			incs[i%len(incs)] += fmt.Sprintf("#include %q\n", f.Name+".pb.cc")
		}
	}
	for _, b := range incs {
		if b != "" {
			n++
			p := filepath.Join(c.Dir, fmt.Sprintf("pb_%d.cc", n))
			if err := os.WriteFile(p, []byte(b), 0o644); err != nil {
				return nil, err
			}
			pbs = append(pbs, p)
		}
	}
	srcs := append(pbs, main)
	for _, f := range c.Files() {
		srcs = append(srcs, c.Src(f))
	}
	errs := make([]string, len(srcs))
	objs := make([]string, len(srcs))
	gen.Par(len(srcs), func(i int) {
		objs[i] = filepath.Join(c.Dir, fmt.Sprintf("o%d.o", i))
		se, err := c.Clang(append(append([]string{}, gen.CCFlags...), "-O0", "-I.", "-I"+gen.Repo, "-include-pch", c.PCH, "-c", srcs[i], "-o", objs[i])...)
		if err != nil {
			errs[i] = fmt.Sprintf("%s: %v %s", srcs[i], err, tail(se, 1500))
		}
	})
	if e := strings.Join(errs, ""); e != "" {
		return nil, fmt.Errorf("compiling for replay: %s", tail(e, 3000))
	}
	r.bin = filepath.Join(c.Dir, "replay.bin")
	if se, err := c.Clang(append(append([]string{}, objs...), "-o", r.bin, "-lprotobuf", "-lre2", "-lpthread")...); err != nil {
		return nil, fmt.Errorf("linking for replay: %s", tail(se, 3000))
	}
	return r, nil
}

type skip struct{ why string }

func pv(fd protoreflect.FieldDescriptor, v any) protoreflect.Value {
	switch x := v.(type) {
	case *model.Inst:
		if x.Nil {
			panic(skip{"nil element"})
		}
		return protoreflect.ValueOfMessage(dyn(x))
	case bool:
		return protoreflect.ValueOfBool(x)
	case float32:
		return protoreflect.ValueOfFloat32(x)
	case float64:
		return protoreflect.ValueOfFloat64(x)
	case string:
		if fd.Kind() == protoreflect.BytesKind {
			return protoreflect.ValueOfBytes([]byte(x))
		}
		if !utf8.ValidString(x) {
			panic(skip{"invalid UTF-8"})
		}
		return protoreflect.ValueOfString(x)
	case *big.Int:
		switch fd.Kind() {
		case protoreflect.EnumKind:
			n := protoreflect.EnumNumber(x.Int64())
			if fd.ParentFile().Syntax() == protoreflect.Proto2 && fd.Enum().Values().ByNumber(n) == nil {
				panic(skip{"unknown number of a closed enum"})
			}
			if fd.Enum().ParentFile().Syntax() == protoreflect.Proto2 && fd.Enum().Values().ByNumber(n) == nil {
				panic(skip{"unknown number of a closed enum"})
			}
			return protoreflect.ValueOfEnum(n)
		case protoreflect.Int32Kind, protoreflect.Sint32Kind, protoreflect.Sfixed32Kind:
			return protoreflect.ValueOfInt32(int32(x.Int64()))
		case protoreflect.Uint32Kind, protoreflect.Fixed32Kind:
			return protoreflect.ValueOfUint32(uint32(x.Uint64()))
		case protoreflect.Uint64Kind, protoreflect.Fixed64Kind:
			return protoreflect.ValueOfUint64(x.Uint64())
		default:
			return protoreflect.ValueOfInt64(x.Int64())
		}
	}
	panic(skip{fmt.Sprintf("%T", v)})
}

func dyn(i *model.Inst) protoreflect.Message {
	m := dynamicpb.NewMessage(i.MD)
	for n, v := range i.F {
		fd := i.MD.Fields().ByName(n)
		switch x := v.(type) {
		case nil:
		case []any:
			if len(x) == 0 {
				continue
			}
			l := m.Mutable(fd).List()
			for _, e := range x {
				l.Append(pv(fd, e))
			}
		case []model.KV:
			if len(x) == 0 {
				continue
			}
			mm := m.Mutable(fd).Map()
			for _, kv := range x {
				k := pv(fd.MapKey(), kv.K).MapKey()
				if mm.Has(k) {
					panic(skip{"equal keys"})
				}
				mm.Set(k, pv(fd.MapValue(), kv.V))
			}
		case *model.Inst:
			if x.Nil {
				if fd.ContainingOneof() != nil {
					panic(skip{"nil member"})
				}
				continue
			}
			m.Set(fd, pv(fd, x))
		default:
			m.Set(fd, pv(fd, x))
		}
	}
	return m
}

// Encode writes a message on the wire; false for what C++ cannot hold.
func Encode(i *model.Inst) (b []byte, ok bool) {
	defer func() {
		if p := recover(); p != nil {
			if _, is := p.(skip); is {
				b, ok = nil, false
				return
			}
			panic(p)
		}
	}()
	if i.Nil {
		return nil, false
	}
	b, err := proto.MarshalOptions{AllowPartial: true, Deterministic: true}.Marshal(dyn(i).Interface())
	return b, err == nil
}

// Lines runs the harness on lines of "index hex".
func (c *CC) Lines(in []string) ([]string, error) {
	cmd := exec.Command("timeout", "-k", "5", "300", c.bin)
	cmd.Stdin = strings.NewReader(strings.Join(in, "\n") + "\n")
	var out, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &se
	err := cmd.Run()
	ls := strings.Split(strings.TrimSuffix(out.String(), "\n"), "\n")
	if out.Len() == 0 {
		ls = nil
	}
	if len(ls) < len(in) {
		return ls, fmt.Errorf("the program ended at message %d: %v %s", len(ls), err, tail(se.String(), 500))
	}
	return ls[:len(in)], nil
}

// Raw runs one line.
func (c *CC) Raw(line string) (string, error) {
	ls, err := c.Lines([]string{line})
	if len(ls) > 0 {
		return Explain(ls[0]), nil
	}
	return "", err
}

// Explain reads an output line.
func Explain(l string) string {
	if l == "" {
		return "?"
	}
	t, _ := hex.DecodeString(l[1:])
	switch l[0] {
	case 'P':
		return "does not parse"
	case 'Y':
		return "accepted"
	case 'N':
		return "rejected: " + string(t)
	case 'T':
		return "exception: " + string(t)
	case 'D':
		return "Validate and AbstractCheckMessage differ"
	}
	return l
}

// Compare runs the jobs and lists the differences to the specification; n
// counts the messages compared.
func (c *CC) Compare(jobs []Job, now *big.Int, word func(text, name string) bool) (out []Mismatch, n int, err error) {
	var in []string
	var js []Job
	for _, j := range jobs {
		ix, ok := c.Index[j.M]
		if !ok {
			continue
		}
		b, ok := Encode(j.I)
		if !ok || c.outside(j.I) {
			continue
		}
		in = append(in, fmt.Sprintf("%d %s", ix, hex.EncodeToString(b)))
		js = append(js, j)
	}
	if len(in) == 0 {
		return nil, 0, nil
	}
	add := func(k int, kind, field, text string, hs []spec.Hit) {
		j := js[k]
		m := Mismatch{Kind: kind, Field: field, Text: text, Inst: Show(j.I), Enc: in[k], Msg: j.M.GoIdent.GoName}
		for _, h := range hs {
			m.Want = append(m.Want, fmt.Sprintf("%s (%s)", h.V.Field, h.V.Rule))
		}
		out = append(out, m)
	}
	ls, lerr := c.Lines(in)
	if lerr != nil {
		if len(ls) == 0 && len(in) > 1 {
			if _, e := c.Lines(in[:1]); e == nil {
				return nil, 0, lerr
			}
		}
		add(len(ls), "safety", "", lerr.Error(), nil)
	}
	valid := c.R.Valid(now)
	for k, l := range ls {
		j := js[k]
		if l == "" || l[0] == 'P' {
			continue
		}
		hs, err := c.R.Spec(j.M).Concrete(j.I, now, valid)
		if err != nil {
			continue
		}
		n++
		text := Explain(l)
		switch l[0] {
		case 'T':
			add(k, "safety", "", text, hs)
		case 'Y':
			if len(hs) > 0 {
				add(k, "accept", hs[0].V.Field, fmt.Sprintf("accepted though %s breaks %s", hs[0].V.Field, hs[0].V.Rule), hs)
			}
		case 'N':
			if len(hs) == 0 {
				add(k, "accept", c.fieldIn(j.M, text, word), text+" though no constraint is broken", hs)
				continue
			}
			ok := false
			for _, h := range hs {
				for _, nm := range c.named(j.M, h.V.Field) {
					ok = ok || word(text, nm)
				}
			}
			if !ok {
				add(k, "accept", hs[0].V.Field, text+" names no field with a broken constraint", hs)
			}
		default:
			add(k, "accept", "", text, hs)
		}
	}
	return out, n, nil
}

func (c *CC) fieldIn(m *protogen.Message, text string, word func(text, name string) bool) string {
	for _, f := range m.Fields {
		if word(text, f.GoName) || word(text, string(f.Desc.Name())) {
			return f.GoName
		}
	}
	return ""
}
