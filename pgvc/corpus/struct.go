package corpus

import (
	"fmt"
	"strings"

	"pgvc/gen"
)

const decls = `
enum E@ { E@_ZERO = 0; E@_ONE = 1; E@_FIVE = 5; E@_NEG = -3; }
message Sub@ { int32 x = 1 [(validate.rules).int32.gt = 0]; }
message Plain@ { int32 x = 1; }
message Ign@ { option (validate.ignored) = true; int32 x = 1 [(validate.rules).int32.gt = 0]; }
message Dis@ { option (validate.disabled) = true; int32 x = 1 [(validate.rules).int32.gt = 0]; }
message Out@ { message In { string s = 1 [(validate.rules).string.min_len = 2]; message Deep { bool b = 1 [(validate.rules).bool.const = true]; } Deep d = 2; } In i = 1; }
`

// counts are the branches of a count rule.
func counts(min, max string) []string {
	return []string{
		min + ": 2", max + ": 3", fmt.Sprintf("%s: 1, %s: 3", min, max), fmt.Sprintf("%s: 2, %s: 2", min, max),
		min + ": 0", max + ": 0", fmt.Sprintf("%s: 0, %s: 2", min, max), fmt.Sprintf("%s: 0, %s: 0", min, max), min + ": 4294967296",
	}
}

// scalarRules are item rules that need no lookup table.
var scalarRules = []struct{ typ, r string }{
	{"float", "float = {gt: 0.5}"}, {"double", "double = {gte: 1.5, lt: 9}"}, {"int32", "int32 = {gte: -5, lte: 5}"}, {"int64", "int64 = {const: -9}"},
	{"uint32", "uint32 = {lt: 10, gt: 20}"}, {"uint64", "uint64 = {gte: 18446744073709551615}"}, {"sint32", "sint32 = {lt: 0}"}, {"sint64", "sint64 = {gt: 0, ignore_empty: true}"},
	{"fixed32", "fixed32 = {lte: 7}"}, {"fixed64", "fixed64 = {gte: 7}"}, {"sfixed32", "sfixed32 = {gt: 3}"}, {"sfixed64", "sfixed64 = {lt: -3, gte: 3}"},
	{"bool", "bool = {const: true}"}, {"string", "string = {min_len: 2, max_len: 4}"}, {"string", "string = {ignore_empty: true, prefix: \"a\"}"}, {"string", "string = {hostname: true}"}, {"string", "string = {email: true}"}, {"string", "string = {uuid: true}"}, {"string", "string = {ip: true}"},
	{"bytes", "bytes = {min_len: 1, contains: \"z\"}"}, {"bytes", "bytes = {ip: true}"}, {"E~", "enum = {defined_only: true}"}, {"E~", "enum = {const: 5}"},
}

// listOnly are item rules rendered through the lookup tables of lists.
var listOnly = []struct{ typ, r string }{
	{"string", `string = {in: ["a", "b\"c"]}`}, {"string", `string = {not_in: ["a", "b"]}`}, {"string", `string = {pattern: "^[a-z]+$"}`}, {"string", "string = {well_known_regex: HTTP_HEADER_NAME}"},
	{"E~", "enum = {in: [1, 5]}"}, {"E~", "enum = {not_in: [0, -3]}"},
}

// Repeated crosses list rules, element types and element rules.
func Repeated(deep bool) []gen.File {
	b := New("rep", 14, 4)
	b.Pre(decls)
	for _, ie := range []string{"", "ignore_empty: true"} {
		for _, c := range counts("min_items", "max_items") {
			b.F("repeated int32", fmt.Sprintf("repeated = {%s}", join(c, ie)))
		}
		b.F("repeated Sub~", fmt.Sprintf("repeated = {%s}", join("min_items: 1, max_items: 2", ie)))
		b.F("repeated string", fmt.Sprintf("repeated = {%s}", join("min_items: 2, unique: true, items: {string: {min_len: 1}}", ie)))
		b.F("repeated string", fmt.Sprintf("repeated = {%s}", join("items: {string: {min_len: 1}}", ie)))
		b.F("repeated int32", fmt.Sprintf("repeated = {%s}", join("unique: false", ie)))
		b.endMsg()
		for _, t := range []string{"double", "float", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "E~"} {
			if (t == "double" || t == "float") && ie == "" {
				b.F("repeated "+t, fmt.Sprintf("repeated = {%s}", join("unique: true", ie)))
				continue
			}
			b.F("repeated "+t, fmt.Sprintf("repeated = {%s}", join("unique: true", ie)))
		}
		b.endMsg()
	}
	for _, s := range scalarRules {
		b.F("repeated "+s.typ, fmt.Sprintf("repeated.items.%s", s.r))
	}
	for _, s := range listOnly {
		b.F("repeated "+s.typ, fmt.Sprintf("repeated.items.%s", s.r))
	}
	b.F("repeated bytes", `repeated = {unique: true, items: {bytes: {min_len: 1}}}`)
	b.F("repeated E~", `repeated = {unique: true, items: {enum: {defined_only: true}}}`)
	b.F("repeated string", `repeated = {unique: true, min_items: 1, max_items: 5, items: {string: {pattern: "^x"}}}`)
	b.F("repeated Sub~", "")
	b.F("repeated Plain~", "")
	b.F("repeated Ign~", "")
	b.F("repeated Dis~", "")
	b.F("repeated Out~.In", "")
	b.F("repeated int32", "")
	b.F("repeated Sub~", "repeated = {items: {message: {required: true}}}")
	b.F("repeated Sub~", "repeated = {items: {message: {skip: true}}}")
	b.F("repeated Sub~", "repeated = {min_items: 1, items: {message: {skip: true, required: true}}}")
	b.F("repeated Plain~", "repeated = {items: {message: {required: true}}}")
	b.F("repeated google.protobuf.Duration", "repeated.items.duration = {gt: {seconds: 3}}")
	b.F("repeated google.protobuf.Duration", "repeated.items.duration = {required: true}")
	b.F("repeated google.protobuf.Timestamp", "repeated.items.timestamp = {lt: {seconds: 3}}")
	b.F("repeated google.protobuf.Any", "repeated.items.any = {required: true}")
	b.F("repeated google.protobuf.Any", "")
	b.F("repeated google.protobuf.Duration", "")
	b.endMsg()
	return b.Done()
}

var keyRules = []struct{ typ, r string }{
	{"int32", "int32 = {gt: 0}"}, {"int64", "int64 = {lt: 0, gt: 10}"}, {"uint32", "uint32 = {gte: 2}"}, {"uint64", "uint64 = {const: 18446744073709551615}"}, {"sint32", "sint32 = {lte: 3}"}, {"sint64", "sint64 = {gt: -4, lt: 4}"},
	{"fixed32", "fixed32 = {lt: 9}"}, {"fixed64", "fixed64 = {gt: 9}"}, {"sfixed32", "sfixed32 = {lt: 0}"}, {"sfixed64", "sfixed64 = {gte: 5}"}, {"bool", "bool = {const: true}"},
	{"string", "string = {min_len: 2}"}, {"string", "string = {pattern: \"^k\"}"}, {"string", "string = {email: true}"}, {"string", "string = {ignore_empty: true, hostname: true}"}, {"string", "string = {well_known_regex: HTTP_HEADER_VALUE}"},
}

// Maps crosses map rules.
func Maps(deep bool) []gen.File {
	b := New("map", 14, 4)
	b.Pre(decls)
	for _, ie := range []string{"", "ignore_empty: true"} {
		for _, c := range counts("min_pairs", "max_pairs") {
			b.F("map<string, int32>", fmt.Sprintf("map = {%s}", join(c, ie)))
		}
		b.F("map<int32, Sub~>", fmt.Sprintf("map = {%s}", join("no_sparse: true", ie)))
		b.F("map<int32, Sub~>", fmt.Sprintf("map = {%s}", join("no_sparse: true, min_pairs: 1, keys: {int32: {gt: 0}}", ie)))
		b.F("map<int32, Plain~>", fmt.Sprintf("map = {%s}", join("no_sparse: true", ie)))
		b.F("map<int32, Sub~>", fmt.Sprintf("map = {%s}", join("no_sparse: false, max_pairs: 2", ie)))
		b.F("map<string, string>", fmt.Sprintf("map = {%s}", join("keys: {string: {min_len: 1}}, values: {string: {max_len: 3}}", ie)))
		b.F("map<int32, int32>", fmt.Sprintf("map = {%s}", join("keys: {int32: {lt: 0}}, values: {int32: {gt: 0}}", ie)))
		b.endMsg()
	}
	for _, k := range keyRules {
		b.F("map<"+k.typ+", int32>", "map.keys."+k.r)
	}
	for i, s := range scalarRules {
		k := []string{"int32", "string", "bool", "uint64"}[i%4]
		b.F("map<"+k+", "+s.typ+">", "map.values."+s.r)
	}
	b.F("map<string, string>", `map.values.string = {pattern: "^v"}`)
	b.F("map<uint32, Sub~>", "")
	b.F("map<uint32, Plain~>", "")
	b.F("map<uint32, Ign~>", "")
	b.F("map<string, Dis~>", "")
	b.F("map<string, Out~.In>", "")
	b.F("map<string, int32>", "")
	b.F("map<string, Sub~>", "map.values.message = {required: true}")
	b.F("map<string, Sub~>", "map.values.message = {skip: true}")
	b.F("map<string, Sub~>", "map = {no_sparse: true, values: {message: {skip: true}}}")
	b.F("map<string, Sub~>", "map.keys.string.min_len = 3")
	b.F("map<string, google.protobuf.Duration>", "map.values.duration = {gt: {seconds: 3}}")
	b.F("map<string, google.protobuf.Timestamp>", "map.values.timestamp = {required: true}")
	b.F("map<string, google.protobuf.Any>", "map.values.any = {required: true}")
	b.F("map<string, E~>", "map.values.enum = {defined_only: true}")
	b.endMsg()
	return b.Done()
}

// Messages crosses embedded message placements and flags.
func Messages(deep bool) []gen.File {
	b := New("msg", 12, 4)
	b.Pre(decls)
	for _, t := range []string{"Sub~", "Plain~", "Ign~", "Dis~", "Out~", "Out~.In", "Out~.In.Deep"} {
		b.F(t, "")
		b.F(t, "message = {required: true}")
		b.F(t, "message = {skip: true}")
		b.F(t, "message = {skip: true, required: true}")
		b.F(t, "message = {}")
	}
	b.endMsg()
	b.Msg(`message R@ { R@ self = 1; repeated R@ kids = 2; map<string, R@> named = 3; int32 n = 4 [(validate.rules).int32.gt = 1]; oneof o { R@ alt = 5; Sub~ sub = 6; } }
`)
	b.Msg(`message D@ { option (validate.disabled) = true; int32 n = 1 [(validate.rules).int32.gt = 1]; Sub~ s = 2 [(validate.rules).message.required = true]; oneof o { option (validate.required) = true; int32 a = 3; } }
`)
	b.Msg(`message G@ { option (validate.ignored) = true; int32 n = 1 [(validate.rules).int32.gt = 1]; }
`)
	b.Msg(`message DF@ { option (validate.disabled) = false; option (validate.ignored) = false; int32 n = 1 [(validate.rules).int32.gt = 1]; }
`)
	b.Msg(`message Holder@ { G@x g = 1 [(validate.rules).message.required = true]; message G@x { option (validate.ignored) = true; int32 n = 1 [(validate.rules).int32.gt = 1]; } google.protobuf.Any any = 2; google.protobuf.Duration dur = 3; google.protobuf.Timestamp ts = 4; google.protobuf.Int32Value w = 5; google.protobuf.Int32Value wr = 6 [(validate.rules).message.required = true]; }
`)
	b.Msg(`message E@ { }
`)
	b.Msg(`message Outer@ { Sub~ a = 1; Sub~ b = 2 [(validate.rules).message.required = true]; Sub~ c = 3 [(validate.rules).message.skip = true]; int32 d = 4 [(validate.rules).int32.const = 4]; Other@ other = 5; message Other@ { Sub~ s = 1; string t = 2 [(validate.rules).string.len = 2]; } }
`)
	return b.Done()
}

// Cross has messages of one Go package embedding those of another.
func Cross() []gen.File {
	return []gen.File{
		{Name: "crossdep", Pkg: "dep", Head: "syntax = \"proto3\";\npackage crossdep;\noption go_package = \"pgvc.test/dep;dep\";\nimport \"validate/validate.proto\";\n",
			Body: "enum Color { RED = 0; BLUE = 3; }\nmessage Far { int32 x = 1 [(validate.rules).int32.gt = 0]; enum Shade { DARK = 0; LIGHT = 9; } message Near { string s = 1 [(validate.rules).string.min_len = 1]; } }\nmessage FarIgn { option (validate.ignored) = true; int32 x = 1; }\n"},
		{Name: "crossuse", Body: "", Head: "syntax = \"proto3\";\npackage crossuse;\noption go_package = \"pgvc.test/%W;%W\";\nimport \"validate/validate.proto\";\nimport \"crossdep.proto\";\n" +
			"message Use { crossdep.Far far = 1; crossdep.Far req = 2 [(validate.rules).message.required = true]; repeated crossdep.Far list = 3; map<string, crossdep.Far.Near> near = 4; crossdep.FarIgn ign = 5; crossdep.Color c = 6 [(validate.rules).enum.defined_only = true]; crossdep.Color d = 7 [(validate.rules).enum = {in: [0, 3]}]; crossdep.Color e = 8 [(validate.rules).enum = {not_in: [3]}]; crossdep.Far.Shade sh = 9 [(validate.rules).enum.const = 9]; oneof o { crossdep.Far of = 10; crossdep.Far.Shade os = 11 [(validate.rules).enum.defined_only = true]; } repeated crossdep.Color lc = 12 [(validate.rules).repeated.items.enum.defined_only = true]; }\n"},
	}
}

// Oneofs crosses required oneofs and member rules.
func Oneofs(deep bool) []gen.File {
	b := New("one", 12, 3)
	b.Pre(decls)
	mem := `int32 a = 1 [(validate.rules).int32.gt = 0]; string b = 2 [(validate.rules).string.len = 2]; Sub~ c = 3; Sub~ d = 4 [(validate.rules).message.required = true]; bytes e = 5; E~ f = 6 [(validate.rules).enum.defined_only = true]; google.protobuf.Duration g = 7 [(validate.rules).duration = {required: true, lt: {seconds: 5}}]; google.protobuf.StringValue h = 8 [(validate.rules).string.min_len = 1]; bool i = 9 [(validate.rules).bool.const = true]; double j = 10 [(validate.rules).double.gt = 1]; Sub~ k = 11 [(validate.rules).message.skip = true]; google.protobuf.Any l = 12 [(validate.rules).any.required = true];`
	b.Msg("message O@ { oneof o { " + mem + " } }\n")
	b.Msg("message O@ { oneof o { option (validate.required) = true; " + mem + " } }\n")
	b.Msg("message O@ { oneof o { option (validate.required) = false; int32 a = 1; } }\n")
	b.Msg("message O@ { oneof first { option (validate.required) = true; int32 a = 1; Sub~ b = 2; } oneof second_one { string c = 3 [(validate.rules).string.prefix = \"x\"]; Plain~ d = 4; } oneof third { option (validate.required) = true; bool e = 5; } int32 z = 6 [(validate.rules).int32.lt = 3]; }\n")
	b.Msg("message O@ { int32 before = 9 [(validate.rules).int32.gt = 7]; oneof o { option (validate.required) = true; string a = 3 [(validate.rules).string = {ignore_empty: true, min_len: 3}]; uint32 b = 1 [(validate.rules).uint32 = {in: [1, 2]}]; string c = 4 [(validate.rules).string = {pattern: \"^c\"}]; } repeated int32 after = 2 [(validate.rules).repeated.unique = true]; }\n")
	b.Msg("message O@ { message M { oneof inner { option (validate.required) = true; M m = 1; int32 n = 2 [(validate.rules).int32.const = 2]; } } M top = 1; oneof o { M m = 2; M m2 = 3 [(validate.rules).message.required = true]; } }\n")
	return b.Done()
}

// Wrappers crosses scalar rules on wrapper types.
func Wrappers(deep bool) []gen.File {
	b := New("wrp", 16, 3)
	ws := []struct{ w, k string }{{"Float", "float"}, {"Double", "double"}, {"Int32", "int32"}, {"Int64", "int64"}, {"UInt32", "uint32"}, {"UInt64", "uint64"}}
	for _, x := range ws {
		for _, r := range []string{"gt: 1", "lte: 9", "gte: 2, lt: 8", "gt: 8, lt: 2", "const: 3", "const: 0", "in: [1, 5]", "not_in: [2, 4]", "ignore_empty: true, gt: 4", ""} {
			b.F("google.protobuf."+x.w+"Value", fmt.Sprintf("%s = {%s}", x.k, r))
		}
		b.Full("google.protobuf."+x.w+"Value", fmt.Sprintf("(validate.rules).%s.gt = 1, (validate.rules).message.required = true", x.k))
		b.Full("google.protobuf."+x.w+"Value", "(validate.rules).message.required = true")
		b.Full("google.protobuf."+x.w+"Value", fmt.Sprintf("(validate.rules).%s = {in: [1, 5]}, (validate.rules).message.required = true", x.k))
		b.endMsg()
	}
	for _, r := range []string{"const: true", "const: false", ""} {
		b.F("google.protobuf.BoolValue", fmt.Sprintf("bool = {%s}", r))
		b.Full("google.protobuf.BoolValue", fmt.Sprintf("(validate.rules).bool = {%s}, (validate.rules).message.required = true", r))
	}
	b.endMsg()
	for _, r := range []string{"const: \"x\"", "min_len: 2", "max_len: 3", "len: 2", "min_bytes: 2, max_bytes: 4", "in: [\"a\", \"b\"]", "not_in: [\"a\", \"\"]", "pattern: \"^a\"", "prefix: \"a\", suffix: \"z\"", "email: true", "hostname: true", "uuid: true", "ip: true", "uri: true", "ignore_empty: true, min_len: 3", "well_known_regex: HTTP_HEADER_NAME", ""} {
		b.F("google.protobuf.StringValue", fmt.Sprintf("string = {%s}", r))
		b.Full("google.protobuf.StringValue", fmt.Sprintf("(validate.rules).string = {%s}, (validate.rules).message.required = true", r))
	}
	b.endMsg()
	for _, r := range []string{"const: \"x\"", "min_len: 2", "max_len: 3", "len: 2", "pattern: \"^a\"", "prefix: \"a\", suffix: \"z\", contains: \"m\"", "ip: true", "ipv4: true", "ignore_empty: true, min_len: 3", ""} {
		b.F("google.protobuf.BytesValue", fmt.Sprintf("bytes = {%s}", r))
		b.Full("google.protobuf.BytesValue", fmt.Sprintf("(validate.rules).bytes = {%s}, (validate.rules).message.required = true", r))
	}
	b.endMsg()
	b.Msg("message Wo@ { oneof o { google.protobuf.StringValue a = 1 [(validate.rules).string.min_len = 2]; google.protobuf.Int32Value b = 2 [(validate.rules).int32.gt = 2, (validate.rules).message.required = true]; google.protobuf.BoolValue c = 3; } }\n")
	return b.Done()
}

// WKT crosses Any, Duration and Timestamp rules.
func WKT(deep bool) []gen.File {
	b := New("wkt", 18, 3)
	req := func(r string) []string {
		if r == "" {
			return []string{"", "required: true"}
		}
		return []string{r, r + ", required: true"}
	}
	for _, r := range []string{"", `in: ["type.googleapis.com/google.protobuf.Duration", "x\"y"]`, `not_in: ["type.googleapis.com/a.B", ""]`, `in: [""]`, "required: false"} {
		for _, x := range req(r) {
			if r == "required: false" {
				x = r
			}
			b.F("google.protobuf.Any", fmt.Sprintf("any = {%s}", x))
		}
	}
	b.F("google.protobuf.Any", "")
	b.endMsg()
	d := []string{"{seconds: -5}", "{seconds: 3, nanos: 5}", "{seconds: 100}", "{seconds: -100, nanos: -999999999}", "{}", "{nanos: 1}"}
	rng := func(lo, hi string) []string {
		var out []string
		for _, l := range []string{"gt", "gte"} {
			for _, h := range []string{"lt", "lte"} {
				out = append(out, fmt.Sprintf("%s: %s, %s: %s", l, lo, h, hi), fmt.Sprintf("%s: %s, %s: %s", l, hi, h, lo))
			}
		}
		return out
	}
	var dr []string
	for _, op := range []string{"const", "lt", "lte", "gt", "gte"} {
		for _, c := range d {
			dr = append(dr, op+": "+c)
		}
	}
	dr = append(dr, rng(d[0], d[1])...)
	dr = append(dr, rng(d[5], d[2])...)
	dr = append(dr, rng("{seconds: 1, nanos: 100}", "{seconds: 1, nanos: 900}")...) // within one second
	dr = append(dr, rng("{nanos: -900}", "{}")...)
	dr = append(dr, "in: [{seconds: 1}, {seconds: -2, nanos: -7}, {}]", "not_in: [{seconds: 1}, {nanos: 500000000}]", "in: [{nanos: 1}]",
		"gte: {seconds: 1}, lte: {seconds: 9}, not_in: [{seconds: 3}]", "lt: {seconds: 9000000000}", "gt: {seconds: -9000000000}", "required: false, gt: {}")
	for i, r := range dr {
		b.F("google.protobuf.Duration", fmt.Sprintf("duration = {%s}", r))
		if i%4 == 0 && !strings.Contains(r, "required") {
			b.F("google.protobuf.Duration", fmt.Sprintf("duration = {%s, required: true}", r))
		}
	}
	b.F("google.protobuf.Duration", "duration = {required: true}")
	b.F("google.protobuf.Duration", "duration = {}")
	b.F("google.protobuf.Duration", "")
	b.endMsg()
	t := []string{"{seconds: 1000}", "{seconds: 2000, nanos: 5}", "{seconds: 946684800}", "{}", "{seconds: -1, nanos: 999999999}", "{seconds: 4102444800}"}
	var tr []string
	for _, op := range []string{"const", "lt", "lte", "gt", "gte"} {
		for _, c := range t {
			tr = append(tr, op+": "+c)
		}
	}
	tr = append(tr, rng(t[0], t[1])...)
	tr = append(tr, rng(t[4], t[2])...)
	tr = append(tr, rng("{seconds: 1, nanos: 100}", "{seconds: 1, nanos: 900}")...)
	tr = append(tr, rng("{seconds: -1, nanos: 100}", "{}")...)
	tr = append(tr, "lt_now: true", "gt_now: true", "lt_now: true, within: {seconds: 3600}", "gt_now: true, within: {seconds: 3600, nanos: 7}", "within: {seconds: 60}", "within: {nanos: 1}", "required: false, lt_now: true")
	for i, r := range tr {
		b.F("google.protobuf.Timestamp", fmt.Sprintf("timestamp = {%s}", r))
		if i%4 == 0 && !strings.Contains(r, "required") {
			b.F("google.protobuf.Timestamp", fmt.Sprintf("timestamp = {%s, required: true}", r))
		}
	}
	b.F("google.protobuf.Timestamp", "timestamp = {required: true}")
	b.F("google.protobuf.Timestamp", "timestamp = {}")
	b.F("google.protobuf.Timestamp", "")
	return b.Done()
}

// Groups are the corpora by name.
var Groups = map[string]func(bool) []gen.File{
	"compile": Compile,
	"heads":   func(bool) []gen.File { return CompileHead() },
	"numeric": Numeric, "string": Strings, "known": Known, "bytes": Bytes, "boolenum": BoolEnum, "repeated": Repeated, "map": Maps,
	"message": func(d bool) []gen.File { return append(Messages(d), Cross()...) }, "oneof": Oneofs, "wrapper": Wrappers, "wkt": WKT,
}

func init() {
	for _, p := range []string{"C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14"} {
		Groups["placed"+p] = Tagged(p)
	}
}
