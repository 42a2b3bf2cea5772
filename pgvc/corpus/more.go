package corpus

import (
	"fmt"
	"strings"

	"pgvc/gen"
)

// lens are the branches of a length rule.
func lens(eq, min, max string) []string {
	return []string{
		"", eq + ": 4", min + ": 2", max + ": 6", fmt.Sprintf("%s: 2, %s: 6", min, max), fmt.Sprintf("%s: 4, %s: 4", min, max),
		min + ": 0", max + ": 0", eq + ": 0", fmt.Sprintf("%s: 0, %s: 3", min, max), fmt.Sprintf("%s: 0, %s: 0", min, max),
		min + ": 4294967296", max + ": 9223372036854775807",
	}
}

func join(rs ...string) string {
	var o []string
	for _, r := range rs {
		if r != "" {
			o = append(o, r)
		}
	}
	return strings.Join(o, ", ")
}

// nasty constants: quotes, escapes, percent signs, non-ASCII, control bytes.
var strConsts = []string{`"a"`, `"foo bar"`, `"q\"b\\s"`, `"%s%d%%"`, `"h\303\251llo \342\202\254"`, `"\n\t\x01\x7f"`, `"{{.}}` + "`" + `"`, `"\360\237\230\200"`, `"\\\r\x00\x1b??/"`}
var byteConsts = []string{`"a"`, `"\x00\x01\xff"`, `"q\"b\\s"`, `"%s"`, `"\xe9 \xfe\x80z"`, `"\n\t"`, `"\\\r\x00\x1b??="`}

func pick(l []string, i int) string { return l[i%len(l)] }

// Strings crosses the rules of a string except the well-known formats.
func Strings(deep bool) []gen.File {
	b := New("str", 22, 4)
	for _, ie := range []string{"", "ignore_empty: true"} {
		for _, l := range lens("len", "min_len", "max_len") {
			b.F("string", fmt.Sprintf("string = {%s}", join(l, ie)))
		}
		for _, l := range lens("len_bytes", "min_bytes", "max_bytes")[1:] {
			b.F("string", fmt.Sprintf("string = {%s}", join(l, ie)))
		}
		for _, l := range []string{"min_len: 2, max_len: 4, min_bytes: 3, max_bytes: 8", "len: 3, len_bytes: 7", "min_len: 1, max_bytes: 5", "max_len: 3, max_bytes: 9", "min_len: 3, max_len: 3, max_bytes: 5", "len: 2, min_bytes: 4", "min_len: 2, len_bytes: 6"} {
			b.F("string", fmt.Sprintf("string = {%s}", join(l, ie)))
		}
		b.endMsg()
		for _, c := range strConsts {
			b.F("string", fmt.Sprintf("string = {%s}", join("const: "+c, ie)))
			b.F("string", fmt.Sprintf("string = {%s}", join("prefix: "+c, ie)))
			b.F("string", fmt.Sprintf("string = {%s}", join("suffix: "+c, ie)))
			b.F("string", fmt.Sprintf("string = {%s}", join("contains: "+c, ie)))
			b.F("string", fmt.Sprintf("string = {%s}", join("not_contains: "+c, ie)))
		}
		b.endMsg()
		b.F("string", fmt.Sprintf("string = {%s}", join("in: ["+strings.Join(strConsts, ", ")+"]", ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join("not_in: ["+strings.Join(strConsts, ", ")+"]", ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`in: "only"`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`in: ["", "x"]`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`not_in: ["", "x"]`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`const: ""`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`prefix: "", suffix: "", contains: ""`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`not_contains: ""`, ie)))
		for _, p := range Patterns {
			b.F("string", fmt.Sprintf("string = {%s}", join("pattern: "+p, ie)))
		}
		// several rules on one field
		b.F("string", fmt.Sprintf("string = {%s}", join(`prefix: "ab", suffix: "yz", contains: "m", not_contains: "q", min_len: 5, max_len: 20, max_bytes: 30`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`prefix: "ab", pattern: "^[a-z]+$", max_len: 9`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`not_in: ["abc", "abd"], prefix: "ab", len: 3`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`const: "abc", min_len: 4`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`in: ["abc", "x"], suffix: "c"`, ie)))
		b.F("string", fmt.Sprintf("string = {%s}", join(`const: "k", not_in: "k"`, ie)))
		b.endMsg()
	}
	b.F("string", "string = {}")
	b.F("string", "string = {ignore_empty: true}")
	b.F("string", "string = {ignore_empty: false, min_len: 1}")
	b.F("string", "")
	return b.Done()
}

// Patterns are regular expressions on the edges of escaping and anchoring.
var Patterns = []string{
	`"^[a-z0-9_]+$"`, `"a.c"`, `"^$"`, `"\\d{3}-\\d{4}"`, `"^(?i)abc|x\\\\y$"`, "\"`q`\"", `"(?:x|yy)*z"`, `"^[^\\x00-\\x1f\"%]*$"`, `"[\303\251\303\274]+"`, `"\\p{Greek}"`, `"^.{2,3}$"`, `"\\bword\\b"`, `"(?s)^a.b$"`,
}

// Known crosses the well-known string formats.
func Known(deep bool) []gen.File {
	b := New("known", 20, 3)
	ws := []string{"email: true", "hostname: true", "ip: true", "ipv4: true", "ipv6: true", "uri: true", "uri_ref: true", "address: true", "uuid: true",
		"well_known_regex: HTTP_HEADER_NAME", "well_known_regex: HTTP_HEADER_VALUE", "well_known_regex: HTTP_HEADER_NAME, strict: false", "well_known_regex: HTTP_HEADER_VALUE, strict: false", "well_known_regex: HTTP_HEADER_NAME, strict: true", "well_known_regex: HTTP_HEADER_VALUE, strict: true"}
	for _, x := range ws {
		b.F("string", fmt.Sprintf("string = {%s}", x))
		b.F("string", fmt.Sprintf("string = {%s, ignore_empty: true}", x))
	}
	b.endMsg()
	for _, x := range []string{"email: false", "hostname: false", "ip: false", "ipv4: false", "ipv6: false", "uri: false", "uri_ref: false", "address: false", "uuid: false", "well_known_regex: UNKNOWN"} {
		b.F("string", fmt.Sprintf("string = {%s}", x))
	}
	b.F("string", `string = {email: true, max_len: 40, not_contains: "+"}`)
	b.F("string", `string = {hostname: true, suffix: ".example.com"}`)
	b.F("string", `string = {uuid: true, prefix: "ab"}`)
	b.F("string", `string = {uri: true, pattern: "^https"}`)
	b.F("string", `string = {ip: true, in: ["127.0.0.1", "::1"]}`)
	b.endMsg()
	// one helper needed alone by a message, at each place a string can be
	for _, x := range []string{"email: true", "hostname: true", "address: true", "uuid: true", "ip: true", "uri: true", "well_known_regex: HTTP_HEADER_NAME"} {
		b.Msg(fmt.Sprintf("message W@ { string a = 1 [(validate.rules).string = {%s}]; }\n", x))
		b.Msg(fmt.Sprintf("message W@ { repeated string a = 1 [(validate.rules).repeated.items.string = {%s}]; }\n", x))
		b.Msg(fmt.Sprintf("message W@ { map<string, string> a = 1 [(validate.rules).map.keys.string = {%s}]; }\n", known1(x)))
		b.Msg(fmt.Sprintf("message W@ { map<int32, string> a = 1 [(validate.rules).map.values.string = {%s}]; }\n", known1(x)))
		b.Msg(fmt.Sprintf("message W@ { google.protobuf.StringValue a = 1 [(validate.rules).string = {%s}]; }\n", x))
		b.Msg(fmt.Sprintf("message W@ { oneof o { string a = 1 [(validate.rules).string = {%s}]; } }\n", x))
	}
	return b.Done()
}

// known1 keeps to formats rendered in place (the regex ones are lookups, which
// map entries get through another table).
func known1(x string) string { return x }

// Bytes crosses the rules of a bytes field.
func Bytes(deep bool) []gen.File {
	b := New("byt", 22, 4)
	for _, ie := range []string{"", "ignore_empty: true"} {
		for _, l := range lens("len", "min_len", "max_len") {
			b.F("bytes", fmt.Sprintf("bytes = {%s}", join(l, ie)))
		}
		b.endMsg()
		for _, c := range byteConsts {
			b.F("bytes", fmt.Sprintf("bytes = {%s}", join("const: "+c, ie)))
			b.F("bytes", fmt.Sprintf("bytes = {%s}", join("prefix: "+c, ie)))
			b.F("bytes", fmt.Sprintf("bytes = {%s}", join("suffix: "+c, ie)))
			b.F("bytes", fmt.Sprintf("bytes = {%s}", join("contains: "+c, ie)))
		}
		b.F("bytes", fmt.Sprintf("bytes = {%s}", join("in: ["+strings.Join(byteConsts, ", ")+"]", ie)))
		b.F("bytes", fmt.Sprintf("bytes = {%s}", join("not_in: ["+strings.Join(byteConsts, ", ")+"]", ie)))
		b.F("bytes", fmt.Sprintf("bytes = {%s}", join(`in: ["\xff\xd8", "\xff\xd8\xff"]`, ie)))
		b.F("bytes", fmt.Sprintf("bytes = {%s}", join(`not_in: ["", "zz"]`, ie)))
		for _, x := range []string{"ip: true", "ipv4: true", "ipv6: true", "ip: false", "ipv4: false", "ipv6: false"} {
			b.F("bytes", fmt.Sprintf("bytes = {%s}", join(x, ie)))
		}
		for _, p := range Patterns {
			b.F("bytes", fmt.Sprintf("bytes = {%s}", join("pattern: "+p, ie)))
		}
		b.F("bytes", fmt.Sprintf("bytes = {%s}", join(`prefix: "ab", suffix: "yz", contains: "m", min_len: 5, max_len: 20`, ie)))
		b.F("bytes", fmt.Sprintf("bytes = {%s}", join(`const: "abc", min_len: 4`, ie)))
		b.F("bytes", fmt.Sprintf("bytes = {%s}", join(`ip: true, len: 16`, ie)))
		b.F("bytes", fmt.Sprintf("bytes = {%s}", join(`not_in: "abc", prefix: "ab", len: 3`, ie)))
		b.endMsg()
	}
	b.F("bytes", "bytes = {}")
	b.F("bytes", "")
	return b.Done()
}

const enums = `
enum E@ { E@_ZERO = 0; E@_ONE = 1; E@_TWO = 2; E@_NEG = -3; E@_BIG = 2147483647; }
enum A@ { option allow_alias = true; A@_ZERO = 0; A@_UN = 1; A@_UNO = 1; A@_LOWEST = -2147483648; }
message H@ { enum N { Z = 0; X = 5; Y = 7; } message I { enum D { P = 0; Q = 9; } } }
`

// BoolEnum crosses bool and enum rules.
func BoolEnum(deep bool) []gen.File {
	b := New("be", 16, 3)
	b.Pre(enums)
	b.F("bool", "bool = {const: true}")
	b.F("bool", "bool = {const: false}")
	b.F("bool", "bool = {}")
	b.F("bool", "")
	for _, t := range []string{"E~", "A~", "H~.N", "H~.I.D"} {
		vs := map[string][3]string{"E~": {"1", "2147483647", "-3"}, "A~": {"0", "1", "-2147483648"}, "H~.N": {"5", "7", "0"}, "H~.I.D": {"0", "9", "9"}}[t]
		for _, r := range []string{"const: " + vs[0], "const: " + vs[2], "const: 77", "defined_only: true", "defined_only: false", "in: [" + vs[0] + ", " + vs[1] + "]", "not_in: [" + vs[0] + ", " + vs[2] + "]",
			"in: [" + vs[2] + "], defined_only: true", "not_in: [" + vs[1] + ", 55], defined_only: true", "const: " + vs[1] + ", defined_only: true", ""} {
			b.F(t, fmt.Sprintf("enum = {%s}", r))
		}
		b.F(t, "")
	}
	b.endMsg()
	return b.Done()
}
