package corpus

import (
	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvc/gen"
	"pgvc/spec"
)

// CCFilter takes off the fields of a world the rules C++ does not support
// (README: partially implemented). The reason is returned per field.
func CCFilter(w *gen.World) (map[string]string, error) {
	dropped := map[string]string{}
	strip := map[protoreflect.FullName]bool{}
	for _, f := range w.Gen.Files {
		if !f.Generate {
			continue
		}
		var rec func(m *protogen.Message)
		rec = func(m *protogen.Message) {
			for _, fd := range m.Fields {
				why := ccUnsupported(w, fd)
				if why != "" {
					dropped[string(fd.Desc.FullName())] = why
					strip[fd.Desc.FullName()] = true
				}
			}
			for _, n := range m.Messages {
				rec(n)
			}
		}
		for _, m := range f.Messages {
			rec(m)
		}
	}
	if len(strip) == 0 {
		return dropped, nil
	}
	return dropped, w.StripRules(strip)
}

type rm struct{ protoreflect.Message }

func (r rm) f(n string) protoreflect.FieldDescriptor {
	return r.Descriptor().Fields().ByName(protoreflect.Name(n))
}
func (r rm) has(n string) bool {
	f := r.f(n)
	return f != nil && r.IsValid() && r.Has(f)
}
func (r rm) sub(n string) rm { return rm{r.Get(r.f(n)).Message()} }
func (r rm) on(n string) bool {
	return r.has(n) && r.Get(r.f(n)).Bool()
}
func (r rm) typ() string {
	if !r.IsValid() {
		return ""
	}
	fd := r.WhichOneof(r.Descriptor().Oneofs().ByName("type"))
	if fd == nil {
		return ""
	}
	return string(fd.Name())
}

func ccUnsupported(w *gen.World, f *protogen.Field) string {
	m := spec.FieldRules(w, f)
	if m == nil {
		return ""
	}
	r := rm{m}
	if f.Oneof != nil && f.Oneof.Desc.IsSynthetic() {
		return "proto3 optional"
	}
	return ccRules(w, f, r, "")
}

// ccRules: where is "", "items", "keys" or "values".
func ccRules(w *gen.World, f *protogen.Field, r rm, where string) string {
	t := r.typ()
	if t == "" {
		return ""
	}
	s := r.sub(t)
	if where != "" && (s.has("in") || s.has("not_in")) && !(where == "items" && (t == "string" || t == "enum")) {
		return "in/not_in of " + where
	}
	switch t {
	case "string":
		for _, n := range []string{"email", "uri", "uri_ref", "well_known_regex"} {
			if s.has(n) {
				return "string." + n
			}
		}
	case "bytes":
		for _, n := range []string{"ip", "ipv4", "ipv6"} {
			if s.has(n) {
				return "bytes." + n
			}
		}
		if where != "" && s.has("pattern") {
			return "bytes pattern of " + where
		}
	case "timestamp":
		for _, n := range []string{"lt", "lte", "gt", "gte", "lt_now", "gt_now", "within", "const"} {
			if s.has(n) {
				return "timestamp comparison"
			}
		}
	case "enum":
		if f.Enum != nil && where == "" && f.Enum.Desc.ParentFile().Package() != f.Desc.ParentFile().Package() {
			return "enum of another package"
		}
	case "repeated":
		if s.on("unique") && f.Message != nil {
			return "unique messages"
		}
		if s.on("unique") && f.Enum != nil {
			return "unique enums"
		}
		if s.has("items") {
			return ccElem(w, f, s.sub("items"), "items")
		}
	case "map":
		if s.on("no_sparse") {
			return "no_sparse"
		}
		if s.has("keys") {
			if why := ccElem(w, f.Message.Fields[0], s.sub("keys"), "keys"); why != "" {
				return why
			}
		}
		if s.has("values") {
			if why := ccElem(w, f.Message.Fields[1], s.sub("values"), "values"); why != "" {
				return why
			}
		}
		if s.has("keys") && s.has("values") && hasPattern(s.sub("keys")) && hasPattern(s.sub("values")) {
			return "patterns on keys and values"
		}
	}
	return ""
}

func hasPattern(r rm) bool {
	return r.typ() == "string" && r.sub("string").has("pattern")
}

func ccElem(w *gen.World, f *protogen.Field, r rm, where string) string {
	if f.Message != nil {
		switch r.typ() {
		case "any", "duration", "timestamp":
			return r.typ() + " " + where
		case "":
		default:
			return "wrapper " + where
		}
	}
	return ccRules(w, f, r, where)
}
