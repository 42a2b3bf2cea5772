package plug

import (
	"fmt"
	"math/rand"
	"strings"

	"pgvc/corpus"
	"pgvc/gen"
)

// Mix writes files of random consistent rule sets of a property's kinds: any
// subset of the rules of a kind, with constants on the edges (zero, equal,
// off by one, the same second), in every place a rule can be.
func (p *P) Mix(prop string, seed int64, n int) ([]gen.File, error) {
	x := &mixer{p: p, r: rand.New(rand.NewSource(seed*7919 + int64(len(prop)) + int64(prop[len(prop)-1]))), byType: map[string]*Ty{}}
	for _, t := range elems() {
		x.byType[t.Type] = t
		x.all = append(x.all, t)
	}
	kinds := map[string][]string{
		"C04": numKinds, "C05": {"string"}, "C06": {"known"}, "C07": {"bytes"}, "C08": {"bool", "enum", "enum"}, "C09": {"repeated"}, "C10": {"map"}, "C11": {"message"},
		"C13": {"float", "double", "int32", "int64", "uint32", "uint64", "bool", "string", "bytes", "known"}, "C14": {"any", "duration", "timestamp", "duration", "timestamp"},
		"C19": append(append([]string{}, numKinds...), "string", "string", "string", "known", "bytes", "bytes", "bool", "enum", "enum"),
		"C20": append(append([]string{}, numKinds...), "string", "string", "known", "bytes", "bool", "enum", "repeated", "repeated", "repeated", "map", "map", "map", "message", "message", "any", "any", "duration", "duration", "duration", "duration", "timestamp"),
	}[prop]
	if kinds == nil {
		kinds = append(append([]string{}, numKinds...), "string", "string", "string", "known", "bytes", "bytes", "bool", "enum", "repeated", "repeated", "map", "map", "message", "any", "duration", "timestamp")
	}
	b := corpus.New("mix"+strings.ToLower(prop), 14, 6)
	b.Pre("enum E@ { E@_0 = 0; E@_1 = 1; E@_2 = 2; E@_5 = 5; }\nmessage Sub@ { int32 x = 1 [(validate.rules).int32.gt = 0]; }\n")
	seen := map[string]bool{}
	var members []string
	at, since := 0, 0
	for i, tries := 0, 0; i < n && tries < 40*n; tries++ {
		if i != at {
			at, since = i, tries
		}
		k := kinds[(i+(tries-since)/60)%len(kinds)] // a kind may be used up
		t, rules := x.field(k, prop)
		if t == nil || seen[t.Type+rules] {
			continue
		}
		c := &Cand{T: t, Rules: rules}
		if err := p.prepare(c); err != nil { // a rule written twice
			continue
		}
		if len(c.Causes) > 0 {
			continue
		}
		seen[t.Type+rules] = true
		i++
		typ := strings.NewReplacer("E>", "E~>", "Sub>", "Sub~>").Replace(t.Type)
		if f := strings.Fields(typ); f[len(f)-1] == "E" || f[len(f)-1] == "Sub" {
			typ += "~"
		}
		if (prop == "C12" || x.r.Intn(5) == 0) && !t.Rep && !t.Map { // a member of a oneof
			m := len(members) + 1
			members = append(members, fmt.Sprintf("%s m%d = %d [(validate.rules) = {%s}];", typ, m, m, rules))
			if len(members) == 5 {
				req := ""
				if x.r.Intn(2) == 0 {
					req = "option (validate.required) = true; "
				}
				b.Msg("message Mo@ { oneof o { " + req + strings.Join(members, " ") + " } }\n")
				members = nil
			}
			continue
		}
		b.Full(typ, fmt.Sprintf("(validate.rules) = {%s}", rules))
	}
	return b.Done(), nil
}

var numKinds = []string{"float", "double", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64"}

type mixer struct {
	p      *P
	r      *rand.Rand
	byType map[string]*Ty
	all    []*Ty
}

func (x *mixer) one(ss ...string) string { return ss[x.r.Intn(len(ss))] }

// some picks up to max of the choices, each written by its function.
func (x *mixer) some(max int, fs ...func() string) string {
	p := x.r.Perm(len(fs))
	n := 1 + x.r.Intn(max)
	var out []string
	for _, i := range p {
		if len(out) == n {
			break
		}
		if s := fs[i](); s != "" {
			out = append(out, s)
		}
	}
	return strings.Join(out, " ")
}

func (x *mixer) list(name string, f func() string) string {
	n := 1 + x.r.Intn(3)
	var l []string
	seen := map[string]bool{}
	for i := 0; i < n; i++ {
		s := f()
		if !seen[s] {
			seen[s] = true
			l = append(l, s)
		}
	}
	return name + ": [" + strings.Join(l, ", ") + "]"
}

func (x *mixer) flag(n string) func() string {
	return func() string {
		if x.r.Intn(3) > 0 {
			return ""
		}
		return n + ": " + x.one("true", "true", "false")
	}
}

// rules writes the rules of a kind.
func (x *mixer) rules(kind string) string {
	is := func(n string, f func() string) func() string { return func() string { return n + ": " + f() } }
	ls := func(n string, f func() string) func() string { return func() string { return x.list(n, f) } }
	ie := x.flag("ignore_empty")
	switch kind {
	case "bool":
		return "const: " + x.one("true", "false")
	case "enum":
		v := func() string { return x.one("0", "1", "2", "5", "-1", "9") }
		return x.some(2, is("const", v), x.flag("defined_only"), ls("in", v), ls("not_in", v))
	case "string", "known", "bytes":
		n := func() string { return fmt.Sprint(x.r.Intn(7)) }
		c := func() string {
			return x.one(`""`, `"a"`, `"b"`, `"ab"`, `"ba"`, `"%"`, `"\""`, `"\\"`, `"`+"`"+`"`, `"\n"`, `"\303\251"`, `"a\303\251b"`, `"0"`, `"A"`, `"{{"`, `"\001"`)
		}
		pat := is("pattern", func() string { return corpus.Patterns[x.r.Intn(len(corpus.Patterns))] })
		bound := func(lo, hi string) func() string {
			return func() string {
				return x.one(lo+": "+n(), hi+": "+n(), lo+": "+n()+" "+hi+": "+n())
			}
		}
		fs := []func() string{is("len", n), bound("min_len", "max_len"), bound("min_len", "max_len"), is("prefix", c), is("suffix", c), is("contains", c), ie, pat}
		if kind == "bytes" {
			fs = append(fs, is("const", c), ls("in", c), ls("not_in", c), func() string { return x.one("ip", "ipv4", "ipv6") + ": true" })
			return x.some(4, fs...)
		}
		fs = append(fs, is("len_bytes", n), bound("min_bytes", "max_bytes"), is("not_contains", c), is("not_contains", c))
		if kind == "known" {
			w := x.one("email", "hostname", "ip", "ipv4", "ipv6", "uri", "uri_ref", "address", "uuid") + ": true"
			if x.r.Intn(4) == 0 {
				w = "well_known_regex: " + x.one("HTTP_HEADER_NAME", "HTTP_HEADER_VALUE") + x.one("", " strict: false", " strict: true")
			}
			if x.r.Intn(3) == 0 {
				return w
			}
			return w + " " + x.some(3, fs...)
		}
		fs = append(fs, is("const", c), ls("in", c), ls("not_in", c))
		return x.some(4, fs...)
	case "any":
		c := func() string { return x.one(`""`, `"a"`, `"type.googleapis.com/a.B"`, `"\""`) }
		return x.some(2, x.flag("required"), ls("in", c), ls("not_in", c))
	case "duration", "timestamp":
		c := func() string {
			s := x.one("", "seconds: 1", "seconds: 2", "seconds: 1", "seconds: 0", "seconds: -1", "seconds: 86400", "seconds: 1000000000")
			ns := x.one("", "", "nanos: 1", "nanos: 100", "nanos: 900", "nanos: 999999999", "nanos: 500000000")
			if kind == "duration" && strings.Contains(s, "-") {
				ns = strings.Replace(ns, ": ", ": -", 1)
			}
			return "{" + strings.TrimSpace(s+" "+ns) + "}"
		}
		lo := func() string { return x.one("gt", "gte") + ": " + c() }
		hi := func() string { return x.one("lt", "lte") + ": " + c() }
		fs := []func() string{is("const", c), lo, hi, func() string { return lo() + " " + hi() }, func() string { return lo() + " " + hi() }, x.flag("required")}
		if kind == "duration" {
			return x.some(3, append(fs, ls("in", c), ls("not_in", c))...)
		}
		within := func() string {
			return "within: " + x.one("{seconds: 60}", "{seconds: 86400 nanos: 7}", "{nanos: 900000000}")
		}
		return x.some(3, append(fs, is("lt_now", func() string { return "true" }), is("gt_now", func() string { return "true" }), within)...)
	case "message":
		return x.some(2, x.flag("skip"), x.flag("required"))
	}
	signed := !strings.HasPrefix(kind, "u") && !strings.HasPrefix(kind, "fixed")
	c := func() string {
		s := x.one("0", "0", "1", "2", "3", "4", "10")
		if signed && s != "0" && x.r.Intn(2) == 0 {
			s = "-" + s
		}
		if x.r.Intn(6) == 0 {
			for _, k := range corpus.Kinds {
				if k.Name == kind {
					s = x.one(k.Lo, k.Hi, k.B, k.C)
				}
			}
		}
		if (kind == "float" || kind == "double") && x.r.Intn(3) == 0 {
			s = x.one("0.5", "-0.25", "1e-30", "0.1", "-0.0", "inf", "-inf", "3.3333333333")
		}
		return s
	}
	lo := func() string { return x.one("gt", "gte") + ": " + c() }
	hi := func() string { return x.one("lt", "lte") + ": " + c() }
	return x.some(3, is("const", c), lo, hi, func() string { return lo() + " " + hi() }, func() string { return lo() + " " + hi() }, ls("in", c), ls("not_in", c), ie)
}

// elem is a type the kind fits and its rules in the text form of FieldRules.
func (x *mixer) elem(kind string, wrap bool) (*Ty, string) {
	rk := kind
	if kind == "known" {
		rk = "string"
	}
	r := rk + ": {" + x.rules(kind) + "}"
	w := "google.protobuf." + wrappers[rk]
	switch rk {
	case "enum":
		return x.byType["E"], r
	case "any":
		return x.byType["google.protobuf.Any"], r
	case "duration":
		return x.byType["google.protobuf.Duration"], r
	case "timestamp":
		return x.byType["google.protobuf.Timestamp"], r
	case "message":
		return x.byType["Sub"], r
	}
	if wrap && wrappers[rk] != "" {
		return x.byType[w], r
	}
	return x.byType[rk], r
}

func (x *mixer) scalarKind() string {
	return x.one(append([]string{"string", "string", "known", "bytes", "bool", "enum"}, numKinds...)...)
}

// field is a field type and its rules, the kind somewhere in them.
func (x *mixer) field(kind, prop string) (*Ty, string) {
	n := func() string { return fmt.Sprint(x.r.Intn(4)) }
	rep := func(items string) string {
		fs := []func() string{func() string { return "min_items: " + n() }, func() string { return "max_items: " + n() }, x.flag("unique"), x.flag("ignore_empty")}
		s := ""
		if x.r.Intn(4) > 0 || items == "" {
			s = x.some(3, fs...)
		}
		if items != "" {
			s += " items: {" + items + "}"
		}
		return "repeated: {" + s + "}"
	}
	mp := func(keys, values string) string {
		fs := []func() string{func() string { return "min_pairs: " + n() }, func() string { return "max_pairs: " + n() }, x.flag("no_sparse"), x.flag("ignore_empty")}
		s := ""
		if x.r.Intn(4) > 0 {
			s = x.some(3, fs...)
		}
		if keys != "" {
			s += " keys: {" + keys + "}"
		}
		if values != "" {
			s += " values: {" + values + "}"
		}
		return "map: {" + s + "}"
	}
	inner := func() (*Ty, string) {
		t, r := x.elem(x.one(x.scalarKind(), x.scalarKind(), x.scalarKind(), "duration", "timestamp", "any", "message"), x.r.Intn(5) == 0)
		if x.r.Intn(5) == 0 {
			r = ""
		}
		return t, r
	}
	key := func() (*Ty, string) {
		for {
			t, r := x.elem(x.scalarKind(), false)
			if keyOK(t) {
				if x.r.Intn(4) == 0 {
					r = ""
				}
				return t, r
			}
		}
	}
	switch kind {
	case "repeated":
		t, r := inner()
		return repeated(t), rep(r)
	case "map":
		k, kr := key()
		t, r := inner()
		return mapOf(k, t), mp(kr, r)
	}
	wrap := prop == "C13" || prop == "C20" || x.r.Intn(8) == 0
	t, r := x.elem(kind, wrap && prop != "C19")
	if prop == "C19" {
		return single(t), r
	}
	switch place := x.r.Intn(8); {
	case place == 0:
		return repeated(t), rep(r)
	case place == 1 && keyOK(t):
		e, er := inner()
		if x.r.Intn(2) == 0 {
			er = ""
		}
		return mapOf(t, e), mp(r, er)
	case place == 2:
		k, kr := key()
		if x.r.Intn(2) == 0 {
			kr = ""
		}
		return mapOf(k, t), mp(kr, r)
	}
	if t.Msg != nil && wrap && x.r.Intn(3) == 0 && kind != "message" {
		r += " message: {" + x.one("required: true", "required: true", "required: false", "skip: true") + "}"
	}
	return single(t), r
}
