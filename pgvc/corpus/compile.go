package corpus

import (
	"fmt"
	"regexp"
	"strings"

	"pgvc/gen"
)

// ScalarSets are, per scalar type, rule sets that between them use every rule.
func ScalarSets() map[string][]string {
	out := map[string][]string{}
	for _, k := range Kinds {
		out[k.Name] = []string{
			"const: " + k.B, "lt: " + k.C, "lte: " + k.Hi, "gt: " + k.A, "gte: " + k.Lo, fmt.Sprintf("gt: %s, lte: %s", k.A, k.C), fmt.Sprintf("gte: %s, lt: %s", k.C, k.A),
			fmt.Sprintf("in: [%s, %s]", k.A, k.Hi), fmt.Sprintf("not_in: [%s, %s]", k.Lo, k.B), fmt.Sprintf("ignore_empty: true, gt: %s, not_in: [%s]", k.A, k.C),
		}
	}
	out["bool"] = []string{"const: true", "const: false"}
	out["string"] = []string{`const: "a\"\\%"`, "len: 3", "min_len: 2, max_len: 4", "len_bytes: 3", "min_bytes: 2, max_bytes: 9", `pattern: "^[a-z\"\\\\]+$"`, `prefix: "p%"`, `suffix: "\"s"`, `contains: "c\\"`, `not_contains: "\n"`,
		`in: ["a", "b\"c"]`, `not_in: ["a", ""]`, "email: true", "hostname: true", "ip: true", "ipv4: true", "ipv6: true", "uri: true", "uri_ref: true", "address: true", "uuid: true", "well_known_regex: HTTP_HEADER_NAME", "well_known_regex: HTTP_HEADER_VALUE, strict: false",
		`ignore_empty: true, min_len: 3, pattern: "x"`}
	out["bytes"] = []string{`const: "a\xff\""`, "len: 3", "min_len: 2, max_len: 4", `pattern: "^[a-z]+$"`, `prefix: "\x00p"`, `suffix: "s\xfe"`, `contains: "c"`, `in: ["a", "\xff\xd8"]`, `not_in: ["a", ""]`, "ip: true", "ipv4: true", "ipv6: true", `ignore_empty: true, min_len: 3`}
	out["enum"] = []string{"const: 1", "defined_only: true", "in: [1, 5]", "not_in: [0, -3]", "in: [1], defined_only: true"}
	out["any"] = []string{"required: true", `in: ["type.googleapis.com/a.B"]`, `not_in: ["type.googleapis.com/a.B", "x"], required: true`}
	out["duration"] = []string{"required: true", "const: {seconds: 3}", "lt: {seconds: 3}, gt: {nanos: 4}", "gte: {seconds: -3}", "in: [{seconds: 1}, {nanos: -3}]", "not_in: [{seconds: 1}], required: true"}
	out["timestamp"] = []string{"required: true", "const: {seconds: 3}", "lt: {seconds: 3}, gt: {nanos: 4}", "lte: {seconds: -3}", "lt_now: true", "gt_now: true, within: {seconds: 3}", "within: {seconds: 3}, required: true"}
	return out
}

var wkTypes = map[string]string{"any": "google.protobuf.Any", "duration": "google.protobuf.Duration", "timestamp": "google.protobuf.Timestamp"}

// Wrap are the wrapper types by scalar rule.
var Wrap = map[string]string{"float": "FloatValue", "double": "DoubleValue", "int32": "Int32Value", "int64": "Int64Value", "uint32": "UInt32Value", "uint64": "UInt64Value", "bool": "BoolValue", "string": "StringValue", "bytes": "BytesValue"}

// Tags are the properties a file of Compile bears on.
var Tags = map[string][]string{}

// PropOf is the property of the rules of a kind.
func PropOf(kind string) []string {
	switch kind {
	case "string":
		return []string{"C05", "C06"}
	case "bytes":
		return []string{"C07"}
	case "bool", "enum":
		return []string{"C08"}
	case "any", "duration", "timestamp":
		return []string{"C14"}
	}
	return []string{"C04"}
}

// Tagged are the files of Compile that bear on a property.
func Tagged(prop string) func(bool) []gen.File {
	return func(deep bool) []gen.File {
		var out []gen.File
		for _, f := range Compile(deep) {
			for _, t := range Tags[f.Name] {
				if t == prop {
					out = append(out, f)
					break
				}
			}
		}
		return out
	}
}

// Compile has one small file per placement and rule set.
func Compile(deep bool) []gen.File {
	var out []gen.File
	n := 0
	add := func(body string, tags ...string) {
		n++
		Tags[fmt.Sprintf("cmp_%dx", n)] = tags
		out = append(out, gen.File{Name: fmt.Sprintf("cmp_%dx", n), Pkg: fmt.Sprintf("cmp%d", n%12), Body: strings.ReplaceAll(body, "~", fmt.Sprintf("C%d", n))})
	}
	sets := ScalarSets()
	order := []string{"float", "double", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "bool", "string", "bytes", "enum", "any", "duration", "timestamp"}
	for _, k := range order {
		typ := k
		if k == "enum" {
			typ = "E~"
		} else if wkTypes[k] != "" {
			typ = wkTypes[k]
		}
		for _, r := range sets[k] {
			pre := ""
			if k == "enum" {
				pre = "enum E~ { E~_ZERO = 0; E~_ONE = 1; E~_FIVE = 5; E~_NEG = -3; }\n"
			}
			rr := fmt.Sprintf("%s = {%s}", k, r)
			p := PropOf(k)
			with := func(x string) []string { return append([]string{x}, p...) }
			add(pre+fmt.Sprintf("message M~ { %s f = 1 [(validate.rules).%s]; }\n", typ, rr), p...)
			add(pre+fmt.Sprintf("message M~ { repeated %s f = 1 [(validate.rules).repeated.items.%s]; }\n", typ, rr), with("C09")...)
			add(pre+fmt.Sprintf("message M~ { map<int32, %s> f = 1 [(validate.rules).map.values.%s]; }\n", typ, rr), with("C10")...)
			add(pre+fmt.Sprintf("message M~ { oneof o { %s f = 1 [(validate.rules).%s]; } }\n", typ, rr), with("C12")...)
			if k != "float" && k != "double" && k != "bytes" && k != "enum" && wkTypes[k] == "" {
				add(pre+fmt.Sprintf("message M~ { map<%s, int32> f = 1 [(validate.rules).map.keys.%s]; }\n", typ, rr), with("C10")...)
				add(pre+fmt.Sprintf("message M~ { map<%s, %s> f = 1 [(validate.rules).map = {keys: {%s: {%s}}, values: {%s: {%s}}}]; }\n", typ, typ, k, r, k, r), with("C10")...)
			}
			if w := Wrap[k]; w != "" {
				add(pre+fmt.Sprintf("message M~ { google.protobuf.%s f = 1 [(validate.rules).%s]; }\n", w, rr), with("C13")...)
				add(pre+fmt.Sprintf("message M~ { repeated google.protobuf.%s f = 1 [(validate.rules).repeated.items.%s]; }\n", w, rr), append(with("C09"), "C13")...)
				add(pre+fmt.Sprintf("message M~ { map<string, google.protobuf.%s> f = 1 [(validate.rules).map.values.%s]; }\n", w, rr), append(with("C10"), "C13")...)
			}
			add("message O~ { message N { message I { "+strings.ReplaceAll(strings.ReplaceAll(pre, "\n", ""), "E~", "E")+fmt.Sprintf("%s f = 1 [(validate.rules).%s]; } } }\n", strings.ReplaceAll(typ, "E~", "E"), rr), with("C11")...)
		}
	}
	for _, b := range special {
		add(b)
	}
	for _, b := range charSets() {
		add(b)
	}
	return out
}

// charSets are messages whose constants hold every character that a quoting
// style may lose, also without those that make another style necessary.
func charSets() []string {
	lit := func(keep func(int) bool, hi int) string {
		s := "\""
		for i := 0; i < hi; i++ {
			if keep(i) {
				s += fmt.Sprintf("\\%03o", i)
			}
		}
		return s + "\""
	}
	not := func(cs string) func(int) bool { return func(i int) bool { return !strings.ContainsRune(cs, rune(i)) } }
	var strs []string
	for _, cs := range []string{"", "`", "`\"", "\\", "\\\"", "`\x00", "`\n\x00", "%"} {
		strs = append(strs, lit(not(cs), 128))
	}
	strs = append(strs, "\"\\\\\\r\"", "\"\\r\\n\"", "\""+"\\302\\200\\302\\240\\302\\255\\342\\200\\213\\342\\200\\250\\357\\273\\277\\357\\277\\275\\356\\200\\200\\364\\217\\277\\277\\\\"+"\"")
	var out []string
	for _, c := range strs {
		out = append(out, fmt.Sprintf("message M~ { string a = 1 [(validate.rules).string.const = %s]; string b = 2 [(validate.rules).string.prefix = %s]; string c = 3 [(validate.rules).string.not_contains = %s]; string d = 4 [(validate.rules).string = {in: [%s, \"x\"]}]; google.protobuf.Any e = 5 [(validate.rules).any = {not_in: [%s]}]; }\n", c, c, c, c, c))
	}
	out = append(out, "message M~ { string a = 1 [(validate.rules).string.pattern = \"^\\\\d\\r$\"]; string b = 2 [(validate.rules).string.pattern = \"`\\\\\\\\\\\"\"]; string c = 3 [(validate.rules).string = {pattern: \"[\\000-\\037\\\\\\\\]\"}]; }\n")
	for _, c := range []string{lit(not(""), 256), lit(func(i int) bool { return i >= 128 }, 256), lit(not("`"), 128), "\"\\302\\200\\342\\200\\250\\357\\273\\277\\\\\\r\""} {
		out = append(out, fmt.Sprintf("message M~ { bytes a = 1 [(validate.rules).bytes.const = %s]; bytes b = 2 [(validate.rules).bytes.prefix = %s]; bytes c = 3 [(validate.rules).bytes.contains = %s]; bytes d = 4 [(validate.rules).bytes = {in: [%s, \"x\"]}]; }\n", c, c, c, c))
	}
	return out
}

// special are names and combinations the templates must cope with.
var special = []string{
	"message M~ { string type = 1 [(validate.rules).string.min_len = 1]; string func = 2 [(validate.rules).string = {pattern: \"a\"}]; int32 range = 3 [(validate.rules).int32 = {in: [1]}]; }\n",
	"message M~ { string m = 1 [(validate.rules).string.min_len = 1]; string all = 2 [(validate.rules).string.min_len = 1]; string errors = 3 [(validate.rules).string.email = true]; string err = 4 [(validate.rules).string.hostname = true]; string l = 5 [(validate.rules).string = {min_len: 2, max_len: 5}]; string fmt = 6 [(validate.rules).string.uri = true]; }\n",
	"message M~ { repeated string idx = 1 [(validate.rules).repeated = {unique: true, items: {string: {min_len: 1}}}]; map<string, string> key = 2 [(validate.rules).map.keys.string.min_len = 1]; map<string, string> val = 3 [(validate.rules).map.values.string.min_len = 1]; repeated int32 item = 4 [(validate.rules).repeated.items.int32.gt = 0]; }\n",
	"message M~ { oneof type { option (validate.required) = true; string a = 1 [(validate.rules).string.min_len = 1]; M~ msg = 2; } oneof x_y { int32 m = 3 [(validate.rules).int32.gt = 1]; } }\n",
	"message M~ { string foo_bar = 1 [(validate.rules).string.pattern = \"a\"]; message foo { string bar = 1 [(validate.rules).string.pattern = \"b\"]; } }\n",
	"message M~ { string InLookup = 1 [(validate.rules).string = {in: [\"a\"]}]; string Pattern = 2 [(validate.rules).string = {pattern: \"a\", not_in: [\"b\"]}]; }\n",
	"message M~ { string _x = 1 [(validate.rules).string.min_len = 1]; string x9y = 2 [(validate.rules).string.pattern = \"a\"]; string A_B_c = 3 [(validate.rules).string.pattern = \"a\"]; }\n",
	"message M~ { map<string, string> f = 1 [(validate.rules).map = {keys: {string: {pattern: \"^a\"}}, values: {string: {pattern: \"^b\"}}}]; }\n",
	"message M~ { map<string, string> f = 1 [(validate.rules).map = {keys: {string: {in: [\"a\"]}}, values: {string: {in: [\"b\"]}}}]; }\n",
	"message M~ { map<int32, bytes> f = 1 [(validate.rules).map = {keys: {int32: {not_in: [1]}}, values: {bytes: {pattern: \"^b\"}}}]; }\n",
	"message M~ { map<string, string> f = 1 [(validate.rules).map = {keys: {string: {uuid: true}}, values: {string: {email: true}}}]; }\n",
	"message M~ { message N { string s = 1 [(validate.rules).string.uuid = true]; } N n = 1; }\n",
	"message M~ { message N { string s = 1 [(validate.rules).string.email = true]; } string t = 1 [(validate.rules).string.hostname = true]; }\n",
	"message M~ { string a = 1 [(validate.rules).string.uuid = true]; string b = 2 [(validate.rules).string = {uuid: true, ignore_empty: true}]; repeated string c = 3 [(validate.rules).repeated.items.string.uuid = true]; }\nmessage N~ { string a = 1 [(validate.rules).string.uuid = true]; }\n",
	"message M~ { google.protobuf.Timestamp ts = 1 [(validate.rules).timestamp = {lt: {seconds: 5}}]; google.protobuf.Timestamp ts2 = 2 [(validate.rules).timestamp = {lt_now: true, within: {seconds: 5}}]; google.protobuf.Duration dur = 3 [(validate.rules).duration = {lt: {seconds: 5}}]; }\n",
	"message M~ { repeated google.protobuf.StringValue f = 1 [(validate.rules).repeated.items.string.uuid = true]; }\n",
	"message M~ { double a = 1 [(validate.rules).double = {lt: inf}]; float b = 2 [(validate.rules).float = {gte: -inf}]; double c = 3 [(validate.rules).double = {const: inf}]; }\n",
	"message M~ { double a = 1 [(validate.rules).double = {const: nan}]; float b = 2 [(validate.rules).float = {not_in: [nan, inf]}]; }\n",
	"message M~ { double a = 1 [(validate.rules).double.lt = 1e300]; float b = 2 [(validate.rules).float.gte = 1e-45]; double c = 3 [(validate.rules).double.const = 5e-324]; double d = 4 [(validate.rules).double = {const: -0.0}]; }\n",
	"message M~ { google.protobuf.Duration d = 1 [(validate.rules).duration.lt = {seconds: 9223372036, nanos: 854775806}]; google.protobuf.Duration e = 2 [(validate.rules).duration.gte = {seconds: -9223372036, nanos: -854775807}]; google.protobuf.Duration f = 3 [(validate.rules).duration.const = {seconds: 9223372036, nanos: 854775806}]; }\n",
	"message M~ { google.protobuf.Duration d = 1 [(validate.rules).duration = {in: [{seconds: 9223372036, nanos: 854775806}, {seconds: -9223372036}]}]; }\n",
	"message M~ { google.protobuf.Timestamp d = 1 [(validate.rules).timestamp.lt = {seconds: 253402300799, nanos: 999999999}]; google.protobuf.Timestamp e = 2 [(validate.rules).timestamp.gte = {seconds: -62135596800}]; google.protobuf.Timestamp f = 3 [(validate.rules).timestamp = {within: {seconds: 9223372036}}]; }\n",
	"enum E~ { option allow_alias = true; E~_A = 0; E~_B = 1; E~_C = 1; } message M~ { E~ e = 1 [(validate.rules).enum = {const: 99}]; repeated E~ f = 2 [(validate.rules).repeated = {unique: true, items: {enum: {in: [1, 1]}}}]; }\n",
	"message M~ { string f = 1 [(validate.rules).string = {in: [\"a\", \"a\"]}]; int32 g = 2 [(validate.rules).int32 = {not_in: [3, 3]}]; bytes h = 3 [(validate.rules).bytes = {in: [\"x\", \"x\"]}]; double i = 4 [(validate.rules).double = {in: [1, 1.0]}]; google.protobuf.Duration j = 5 [(validate.rules).duration = {in: [{seconds: 1}, {seconds: 1}]}]; google.protobuf.Any k = 6 [(validate.rules).any = {in: [\"a\", \"a\"]}]; }\n",
	"message M~ { bytes f = 1 [(validate.rules).bytes = {const: \"\"}]; bytes g = 2 [(validate.rules).bytes = {prefix: \"\", suffix: \"\", contains: \"\"}]; bytes h = 3 [(validate.rules).bytes = {in: [\"\"]}]; }\n",
	"message Message~ { string string = 1 [(validate.rules).string.min_len = 1]; bytes bytes = 2 [(validate.rules).bytes.min_len = 1]; bool bool = 3 [(validate.rules).bool.const = true]; int64 len = 4 [(validate.rules).int64.gt = 1]; message Duration { int32 time = 1 [(validate.rules).int32.gt = 0]; } Duration net = 5 [(validate.rules).message.required = true]; }\n",
	"message M~ { message Map { int32 x = 1 [(validate.rules).int32.gt = 0]; } map<string, Map> map = 1 [(validate.rules).map = {no_sparse: true}]; repeated Map list = 2 [(validate.rules).repeated.items.message.required = true]; }\n",
	"message M~ { int32 a = 1 [(validate.rules) = {}]; M~ b = 2 [(validate.rules).message.required = false]; }\n",
	"message M~ { repeated int32 a = 1 [(validate.rules).repeated = {}]; repeated int32 b = 2 [(validate.rules).repeated = {items: {}}]; map<int32, int32> c = 3 [(validate.rules).map = {keys: {}, values: {}}]; repeated M~ d = 4 [(validate.rules).repeated = {items: {}}]; map<int32, M~> e = 5 [(validate.rules).map = {values: {}}]; }\n",
	"message M~ { repeated int32 a = 1 [(validate.rules).repeated = {items: {int32: {}}}]; map<string, int32> c = 3 [(validate.rules).map = {keys: {string: {}}, values: {int32: {}}}]; }\n",
	"message M~ { repeated bytes a = 1 [(validate.rules).repeated = {unique: true, items: {bytes: {in: [\"a\"]}}}]; }\n",
	"message M~ { google.protobuf.StringValue a = 1 [(validate.rules).string = {in: [\"a\"]}, (validate.rules).message.required = true]; google.protobuf.BytesValue b = 2 [(validate.rules).bytes = {not_in: [\"a\"]}]; oneof o { google.protobuf.Int64Value c = 3 [(validate.rules).int64 = {in: [1]}]; } }\n",
	"message M~ { string a = 1 [(validate.rules).string = {pattern: \"(?i)^a$\", not_in: []}]; }\n",
	"message m~ { string a = 1 [(validate.rules).string = {pattern: \"a\", uuid: true}]; }\nmessage lower_~ { m~ m = 1; repeated m~ l = 2; }\n",
}

// CompileHead are files with their own headers: proto2, other packages, odd
// names.
func CompileHead() []gen.File {
	p2 := "syntax = \"proto2\";\npackage ptwo;\noption go_package = \"pgvc.test/ptwo;ptwo\";\nimport \"validate/validate.proto\";\nimport \"google/protobuf/wrappers.proto\";\nimport \"google/protobuf/duration.proto\";\n"
	h := func(pkg, imports string) string {
		s := fmt.Sprintf("syntax = \"proto3\";\npackage %s;\noption go_package = \"pgvc.test/%s;%s\";\nimport \"validate/validate.proto\";\n", pkg, pkg, pkg)
		for _, i := range strings.Fields(imports) {
			s += fmt.Sprintf("import \"%s\";\n", i)
		}
		return s
	}
	return headNames([]gen.File{
		{Name: "ptwo", Pkg: "ptwo", Head: p2, Body: "enum E { A = 1; B = 5; }\nenum F { Z = 0; Y = 1; }\nmessage M { optional int32 a = 1 [(validate.rules).int32 = {in: [1, 2]}]; required string b = 2 [(validate.rules).string = {not_in: [\"x\"], min_len: 1}]; optional E c = 3 [(validate.rules).enum = {in: [1, 5]}]; optional E d = 4 [(validate.rules).enum = {defined_only: true, not_in: [5]}]; optional bytes e = 5 [(validate.rules).bytes = {in: [\"x\"]}]; repeated E f = 6 [(validate.rules).repeated.items.enum = {in: [1]}]; optional double gg = 7 [(validate.rules).double = {not_in: [1]}]; optional bool h = 8 [(validate.rules).bool.const = true]; optional M i = 9; repeated string j = 10 [(validate.rules).repeated = {unique: true, items: {string: {in: [\"a\"]}}}]; oneof o { int64 k = 11 [(validate.rules).int64 = {in: [1]}]; E l = 12 [(validate.rules).enum = {in: [1]}]; } optional string m = 13 [(validate.rules).string = {uuid: true}]; required M n = 14 [(validate.rules).message.required = true]; optional google.protobuf.Int32Value p = 15 [(validate.rules).int32 = {in: [1]}]; map<string, F> q = 16 [(validate.rules).map.values.enum = {not_in: [1]}]; optional google.protobuf.Duration r = 17 [(validate.rules).duration = {in: [{seconds: 1}]}]; extensions 100 to 200; }\nextend M { optional int32 ext = 100; }\n"},
		{Name: "my-file.v1", Pkg: "odd1", Head: h("odd1", ""), Body: "message M { string a = 1 [(validate.rules).string.uuid = true]; }\n"},
		{Name: "9lives_And-More", Pkg: "odd1", Head: h("odd1", ""), Body: "message N { string a = 1 [(validate.rules).string.uuid = true]; }\n"},
		{Name: "sub/dir/deep", Pkg: "odd2", Head: h("odd2", ""), Body: "message M { string a = 1 [(validate.rules).string.uuid = true]; }\n"},
		{Name: "enumdep", Pkg: "enumdep", Head: h("enumdep", ""), Body: "enum Color { RED = 0; BLUE = 3; }\nmessage Outer { enum Shade { DARK = 0; LIGHT = 2; } enum Kind { KA = 0; } }\n"},
		{Name: "enumdep2", Pkg: "enumdep2", Head: h("enumdep2", ""), Body: "enum Color { RED = 0; BLUE = 3; }\n"},
		{Name: "enumuse1", Pkg: "enumuse1", Head: h("enumuse1", "enumdep.proto"), Body: "message M { enumdep.Color c = 1 [(validate.rules).enum.defined_only = true]; }\n"},
		{Name: "enumuse2", Pkg: "enumuse2", Head: h("enumuse2", "enumdep.proto"), Body: "message M { repeated enumdep.Color c = 1 [(validate.rules).repeated.items.enum.defined_only = true]; }\n"},
		{Name: "enumuse3", Pkg: "enumuse3", Head: h("enumuse3", "enumdep.proto"), Body: "message M { repeated enumdep.Outer.Shade c = 1 [(validate.rules).repeated.items.enum = {in: [2]}]; }\n"},
		{Name: "enumuse4", Pkg: "enumuse4", Head: h("enumuse4", "enumdep.proto"), Body: "message M { map<string, enumdep.Color> c = 1 [(validate.rules).map.values.enum.defined_only = true]; }\n"},
		{Name: "enumuse5", Pkg: "enumuse5", Head: h("enumuse5", "enumdep.proto"), Body: "message M { map<string, enumdep.Color> c = 1 [(validate.rules).map.values.enum = {not_in: [3]}]; }\n"},
		{Name: "enumuse6", Pkg: "enumuse6", Head: h("enumuse6", "enumdep.proto"), Body: "message M { repeated enumdep.Color c = 1 [(validate.rules).repeated.unique = true]; }\n"},
		{Name: "enumuse7", Pkg: "enumuse7", Head: h("enumuse7", "enumdep.proto enumdep2.proto"), Body: "message M { enumdep.Color a = 1 [(validate.rules).enum.defined_only = true]; enumdep2.Color b = 2 [(validate.rules).enum = {in: [3]}]; enumdep.Outer.Shade c = 3 [(validate.rules).enum.const = 2]; oneof o { enumdep.Outer.Kind d = 4 [(validate.rules).enum.defined_only = true]; } }\n"},
		{Name: "enumuse8", Pkg: "enumuse8", Head: h("enumuse8", "enumdep.proto"), Body: "message M { message N { enumdep.Color c = 1 [(validate.rules).enum = {in: [3]}]; } }\n"},
		{Name: "enumuse9", Pkg: "enumuse9", Head: h("enumuse9", "enumdep.proto"), Body: "message M { enumdep.Color c = 1 [(validate.rules).enum = {const: 3}]; repeated enumdep.Color d = 2; map<int32, enumdep.Color> e = 3; }\n"},
		{Name: "samepkg1", Pkg: "samepkg", Head: strings.Replace(h("samepkg1", ""), "pgvc.test/samepkg1;samepkg1", "pgvc.test/samepkg;samepkg", 1), Body: "enum Color { RED = 0; BLUE = 3; }\n"},
		{Name: "samepkg2", Pkg: "samepkg", Head: strings.Replace(h("samepkg2", "samepkg1.proto"), "pgvc.test/samepkg2;samepkg2", "pgvc.test/samepkg;samepkg", 1), Body: "message M { samepkg1.Color c = 1 [(validate.rules).enum.defined_only = true]; repeated samepkg1.Color d = 2 [(validate.rules).repeated.items.enum = {in: [3]}]; map<string, samepkg1.Color> e = 3 [(validate.rules).map.values.enum = {in: [3]}]; }\n"},
		{Name: "samename/a1", Pkg: "samename/a/v1", Head: strings.Replace(h("samename.a", ""), "pgvc.test/samename.a;samename.a", "pgvc.test/samename/a/v1;v1", 1), Body: "enum Color { RED = 0; BLUE = 3; }\n"},
		{Name: "samename/b1", Pkg: "samename/b/v1", Head: strings.Replace(h("samename.b", "samename/a1.proto"), "pgvc.test/samename.b;samename.b", "pgvc.test/samename/b/v1;v1", 1), Body: "message M { samename.a.Color c = 1 [(validate.rules).enum.defined_only = true]; }\n"},
		{Name: "samename/b2", Pkg: "samename/b2/v1", Head: strings.Replace(h("samename.b2", "samename/a1.proto"), "pgvc.test/samename.b2;samename.b2", "pgvc.test/samename/b2/v1;v1", 1), Body: "message M { samename.a.Color c = 1 [(validate.rules).enum = {in: [3]}]; }\n"},
		{Name: "samename/c1", Pkg: "samename/c/v1", Head: strings.Replace(h("samename.c", ""), "pgvc.test/samename.c;samename.c", "pgvc.test/samename/c/v1;v1", 1), Body: "enum Color { RED = 0; BLUE = 3; }\nmessage Outer { enum Color { DARK = 0; LIGHT = 2; } }\n"},
		{Name: "samename/d1", Pkg: "samename/d/v1", Head: strings.Replace(h("samename.d", "samename/a1.proto samename/c1.proto"), "pgvc.test/samename.d;samename.d", "pgvc.test/samename/d/v1;v1", 1), Body: "enum Color { ZZ = 0; YY = 4; }\nmessage M { samename.a.Color a = 1 [(validate.rules).enum.defined_only = true]; repeated samename.c.Color b = 2 [(validate.rules).repeated.items.enum = {in: [3]}]; map<string, samename.c.Outer.Color> c = 3 [(validate.rules).map.values.enum = {defined_only: true, not_in: [2]}]; Color d = 4 [(validate.rules).enum = {in: [4], defined_only: true}]; repeated Color e = 5 [(validate.rules).repeated.unique = true]; repeated samename.a.Color f = 6 [(validate.rules).repeated = {unique: true, items: {enum: {defined_only: true}}}]; }\n"},
		{Name: "stdnames/errors", Pkg: "stdnames/errors", Head: strings.Replace(h("errors", ""), "pgvc.test/errors;errors", "pgvc.test/stdnames/errors;errors", 1), Body: "enum Code { OK = 0; BAD = 1; }\n"},
		{Name: "stdnames/item", Pkg: "stdnames/item", Head: strings.Replace(h("item", ""), "pgvc.test/item;item", "pgvc.test/stdnames/item;item", 1), Body: "enum Kind { A = 0; B = 1; }\n"},
		{Name: "stdnames/use", Pkg: "stdnames/use", Head: strings.Replace(h("stduse", "stdnames/errors.proto stdnames/item.proto"), "pgvc.test/stduse;stduse", "pgvc.test/stdnames/use;use", 1), Body: "message M { errors.Code a = 1 [(validate.rules).enum.defined_only = true]; repeated item.Kind b = 2 [(validate.rules).repeated.items.enum.defined_only = true]; item.Kind c = 3 [(validate.rules).enum = {not_in: [1]}]; }\n"},
		{Name: "keyword", Pkg: "kw", Head: strings.Replace(h("keyword.type.func", ""), "pgvc.test/keyword.type.func;keyword.type.func", "pgvc.test/kw;kw", 1), Body: "message Type { string s = 1 [(validate.rules).string.uuid = true]; }\nmessage String { string String = 1 [(validate.rules).string.min_len = 1]; }\nmessage Validate { bool Reset_ = 1 [(validate.rules).bool.const = true]; }\n"},
		{Name: "hugemax", Pkg: "hugemax", Head: h("hugemax", ""), Body: "message M { string f = 1 [(validate.rules).string.max_len = 18446744073709551615]; bytes g = 2 [(validate.rules).bytes.max_len = 18446744073709551615]; repeated int32 h = 3 [(validate.rules).repeated.max_items = 18446744073709551615]; map<int32, int32> i = 4 [(validate.rules).map.max_pairs = 18446744073709551615]; string j = 5 [(validate.rules).string.max_bytes = 18446744073709551615]; }\n"},
		{Name: "hugemin", Pkg: "hugemin", Head: h("hugemin", ""), Body: "message M { string f = 1 [(validate.rules).string.min_len = 9223372036854775808]; bytes g = 2 [(validate.rules).bytes.len = 9223372036854775808]; repeated int32 h = 3 [(validate.rules).repeated.min_items = 9223372036854775808]; map<int32, int32> i = 4 [(validate.rules).map.min_pairs = 9223372036854775808]; string j = 5 [(validate.rules).string.len_bytes = 9223372036854775808]; }\n"},
		{Name: "empty", Pkg: "emp", Head: h("emp", ""), Body: ""},
		{Name: "onlyenum", Pkg: "oe", Head: h("oe", ""), Body: "enum X { Z = 0; }\nservice S { }\n"},
	})
}

var wordM = regexp.MustCompile(`\bM\b`)

// headNames gives the messages M distinct names.
func headNames(fs []gen.File) []gen.File {
	for i := range fs {
		fs[i].Body = wordM.ReplaceAllString(fs[i].Body, fmt.Sprintf("M%d", i))
	}
	return fs
}
