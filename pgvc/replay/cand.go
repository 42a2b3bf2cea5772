package replay

import (
	"math"
	"math/big"
	"regexp/syntax"
	"strings"
	"unicode/utf8"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvc/model"
	"pgvc/spec"
)

// consts gathers every scalar constant of a rules message, and the durations
// and timestamps as (seconds, nanos) pairs.
type consts struct {
	num           []*big.Int
	f             []float64
	str           []string
	pat           []string
	ns            []*big.Int
	want          map[string]bool // bool rules that are set
	pre, suf, con string
}

func gather(m protoreflect.Message, c *consts) {
	if m == nil {
		return
	}
	switch m.Descriptor().FullName() {
	case "google.protobuf.Duration", "google.protobuf.Timestamp":
		c.ns = append(c.ns, spec.NSBig(m))
		return
	}
	m.Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		one := func(v protoreflect.Value) {
			switch x := model_FromPR(fd, v).(type) {
			case *big.Int:
				c.num = append(c.num, x)
			case float32:
				c.f = append(c.f, float64(x))
			case float64:
				c.f = append(c.f, x)
			case bool:
				if x {
					c.want[string(fd.Name())] = true
				}
			case string:
				switch fd.Name() {
				case "pattern":
					c.pat = append(c.pat, x)
				case "prefix":
					c.pre = x
				case "suffix":
					c.suf = x
				case "contains":
					c.con = x
				}
				if fd.Name() == "well_known_regex" {
					return
				}
				c.str = append(c.str, x)
			}
		}
		switch {
		case fd.IsList() && fd.Message() != nil:
			for i := 0; i < v.List().Len(); i++ {
				gather(v.List().Get(i).Message(), c)
			}
		case fd.IsList():
			for i := 0; i < v.List().Len(); i++ {
				one(v.List().Get(i))
			}
		case fd.Message() != nil:
			gather(v.Message(), c)
		default:
			one(v)
		}
		return true
	})
}

func model_FromPR(fd protoreflect.FieldDescriptor, v protoreflect.Value) any {
	return model.FromPR(fd, v)
}

var known = []string{
	"", "a", "example.com", "example.com.", "EXAMPLE.com", "a.b", "-a.com", "a-.com", "a-b.com", "a_b.com", "a..b", ".", "a.", ".a", "..", "é.com", "\u212a.com", "1.2.3.4", "a b", strings.Repeat("a", 63) + ".com", strings.Repeat("a", 64) + ".com",
	strings.Repeat("a.", 126) + "a", strings.Repeat("a.", 127), strings.Repeat("a.", 126) + "ab", strings.Repeat("a", 63) + "." + strings.Repeat("b", 63) + "." + strings.Repeat("c", 63) + "." + strings.Repeat("d", 61),
	strings.Repeat("a", 63) + "." + strings.Repeat("b", 63) + "." + strings.Repeat("c", 63) + "." + strings.Repeat("d", 62),
	"127.0.0.1", "::1", "::ffff:1.2.3.4", "256.1.1.1", "1.2.3", "01.2.3.4", "fe80::1%eth0", "2001:db8::", ":::", "1.2.3.4 ",
	"a@b.com", "a@b", "a@-b.com", "Foo Bar <foo@bar.com>", "\"a@b\"@c.com", "a@b@c.com", "@b.com", "a@", strings.Repeat("x", 64) + "@a.com", strings.Repeat("x", 65) + "@a.com", "a@[1.2.3.4]", "a@b.com.", strings.Repeat("x", 60) + "@" + strings.Repeat("a.", 94) + "aa", strings.Repeat("x", 60) + "@" + strings.Repeat("a.", 96) + "aa",
	"http://x.com/p?q#f", "//x", "/p", "mailto:a@b", "http://[::1", "%zz", "a:b", ":x", "http://x y/", "x\x7f",
	"123e4567-e89b-12d3-a456-426614174000", "123E4567-E89B-12D3-A456-426614174000", "123e4567e89b12d3a456426614174000", "g23e4567-e89b-12d3-a456-426614174000", "123e4567-e89b-12d3-a456-4266141740000", "123e4567-e89b-12d3-a456-42661417400", "x123e4567-e89b-12d3-a456-426614174000", "123e4567-e89b-12d3-a456-426614174000\n",
	":method", "::m", "X-Foo", "a b", "a\nb", "a\x00b", "a\tb", "a\x7fb", "a\rb", "h\"q", "a,b", "a.b^_|~`", "!#$%&'*+", "(x)", "\xff", "é", "a\\b", "abc\n", ":",
}

func pad(n int, unit string) string {
	if n <= 0 || n > 5000 {
		return ""
	}
	return strings.Repeat(unit, n)
}

// matching makes strings a pattern matches.
func matching(re *syntax.Regexp, k int) string {
	switch re.Op {
	case syntax.OpLiteral:
		s := string(re.Rune)
		if re.Flags&syntax.FoldCase != 0 && k%2 == 1 {
			return strings.ToUpper(s)
		}
		return s
	case syntax.OpCharClass:
		if len(re.Rune) == 0 {
			return ""
		}
		i := (k * 2) % len(re.Rune)
		i -= i % 2
		if k%2 == 1 {
			return string(re.Rune[i+1])
		}
		return string(re.Rune[i])
	case syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		return []string{"x", "é", "0"}[k%3]
	case syntax.OpStar:
		return strings.Repeat(matching(re.Sub[0], k), k%3)
	case syntax.OpPlus:
		return strings.Repeat(matching(re.Sub[0], k), 1+k%3)
	case syntax.OpQuest:
		if k%2 == 0 {
			return ""
		}
		return matching(re.Sub[0], k)
	case syntax.OpRepeat:
		n := re.Min
		if k%2 == 1 && re.Max > n {
			n = re.Max
		}
		return strings.Repeat(matching(re.Sub[0], k), n)
	case syntax.OpConcat:
		s := ""
		for _, x := range re.Sub {
			s += matching(x, k)
		}
		return s
	case syntax.OpAlternate:
		return matching(re.Sub[k%len(re.Sub)], k)
	case syntax.OpCapture:
		return matching(re.Sub[0], k)
	}
	return ""
}

func strCands(c *consts) []any {
	seen := map[string]bool{}
	var out []any
	put := func(s string) {
		if !seen[s] && len(s) < 6000 {
			seen[s] = true
			out = append(out, s)
		}
	}
	put("")
	lens := map[int64]bool{}
	for _, n := range c.num {
		if n.IsInt64() && n.Int64() < 3000 {
			for d := int64(-1); d <= 1; d++ {
				lens[n.Int64()+d] = true
			}
		}
	}
	full := func(unit string, n int64) {
		base := c.pre + c.con + c.suf
		k := int(n) - utf8.RuneCountInString(base)
		put(c.pre + pad(k, unit) + c.con + c.suf)
		put(c.pre + c.con + pad(k, unit) + c.suf)
		kb := (int(n) - len(base)) / len(unit)
		put(c.pre + pad(kb, unit) + c.con + c.suf)
		put(c.pre + pad((int(n)-len(base)), "a") + c.con + c.suf)
	}
	for n := range lens {
		for _, u := range []string{"a", "é", "€", "\U0001F600"} {
			put(pad(int(n), u))
			full(u, n)
			// n bytes with multi-byte characters
			if k := int(n) / len(u); k > 0 {
				put(pad(k, u) + pad(int(n)-k*len(u), "b"))
			}
		}
		put(pad(int(n), "\xff"))
		for m := range lens {
			// n characters, m bytes
			if m >= n && m <= 4*n {
				s, left, need := "", m, n
				for need > 0 {
					for _, u := range []string{"\U0001F600", "€", "é", "a"} {
						if left-int64(len(u)) >= need-1 {
							s += u
							left -= int64(len(u))
							break
						}
					}
					need--
				}
				put(s)
			}
		}
	}
	put(c.pre + c.con + c.suf)
	put(c.pre + "m" + c.con + "n" + c.suf)
	for _, s := range c.str {
		put(s)
		put(s + "x")
		put("x" + s)
		put("x" + s + "x")
		put(s + s)
		put(c.pre + s + c.suf)
		put(c.pre + c.con + s + c.suf)
		put(strings.ToUpper(s))
		if len(s) > 0 {
			put(s[:len(s)-1])
			put(s[1:])
			put(s[:len(s)-1] + "~")
		}
	}
	for _, p := range c.pat {
		if re, err := syntax.Parse(p, syntax.Perl); err == nil {
			for k := 0; k < 12; k++ {
				m := matching(re, k)
				put(m)
				put(c.pre + m + c.suf)
				put("\x00" + m)
				put(m + "\n")
				put("zz" + m + "zz")
				if len(m) > 1 {
					put(m[1:])
				}
			}
		}
	}
	for w := range c.want {
		switch w {
		case "ignore_empty", "strict":
		default:
			for _, s := range known {
				put(s)
				put(c.pre + s + c.suf)
			}
		}
	}
	put("\x00\x01")
	put("abc")
	return out
}

func bytesCands(c *consts) []any {
	out := strCands(c)
	for _, n := range []int{3, 4, 5, 15, 16, 17} {
		out = append(out, strings.Repeat("\x01", n))
	}
	v4 := "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff\x01\x02\x03\x04"
	out = append(out, v4, "\x01"+v4[1:], v4[:10]+"\xff\xfe"+v4[12:], v4[:9]+"\x01"+v4[10:])
	return out
}

func intCands(fd model.FD, c *consts) []any {
	lo, hi := bounds(fd)
	seen := map[string]bool{}
	var out []any
	put := func(b *big.Int) {
		if b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 && !seen[b.String()] {
			seen[b.String()] = true
			out = append(out, b)
		}
	}
	for _, n := range c.num {
		for d := int64(-1); d <= 1; d++ {
			put(new(big.Int).Add(n, big.NewInt(d)))
		}
	}
	for i, a := range c.num {
		for _, b := range c.num[:i] {
			m := new(big.Int).Add(a, b)
			put(m.Rsh(m, 1))
		}
	}
	for _, d := range []int64{0, 1, -1, 2, 5, 7, 77} {
		put(big.NewInt(d))
	}
	put(lo)
	put(hi)
	if fd.Kind() == protoreflect.EnumKind {
		vs := fd.Enum().Values()
		for i := 0; i < vs.Len(); i++ {
			n := int64(vs.Get(i).Number())
			put(big.NewInt(n))
			put(big.NewInt(n + 1))
			put(big.NewInt(n - 1))
		}
	}
	return out
}

func bounds(fd model.FD) (lo, hi *big.Int) {
	one := big.NewInt(1)
	p := func(n uint) *big.Int { return new(big.Int).Lsh(one, n) }
	switch model.KindTag(fd.Kind()) {
	case "i32":
		return new(big.Int).Neg(p(31)), new(big.Int).Sub(p(31), one)
	case "i64":
		return new(big.Int).Neg(p(63)), new(big.Int).Sub(p(63), one)
	case "u32":
		return new(big.Int), new(big.Int).Sub(p(32), one)
	}
	return new(big.Int), new(big.Int).Sub(p(64), one)
}

func floatCands(is32 bool, c *consts, nan bool) []any {
	var out []any
	put := func(f float64) {
		if is32 {
			out = append(out, float32(f))
		} else {
			out = append(out, f)
		}
	}
	for _, f := range c.f {
		put(f)
		if is32 {
			put(float64(math.Nextafter32(float32(f), float32(math.Inf(1)))))
			put(float64(math.Nextafter32(float32(f), float32(math.Inf(-1)))))
		} else {
			put(math.Nextafter(f, math.Inf(1)))
			put(math.Nextafter(f, math.Inf(-1)))
		}
	}
	for i, a := range c.f {
		for _, b := range c.f[:i] {
			put(a/2 + b/2)
		}
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 1, -1, 1e30, -1e30, math.Inf(1), math.Inf(-1), 0.3} {
		put(f)
	}
	if nan {
		put(math.NaN())
	}
	return out
}

// cg makes candidates for the fields of messages.
type cg struct {
	r   *R
	now *big.Int
}

func (g *cg) scalar(fd model.FD, c *consts) []any {
	switch model.KindTag(fd.Kind()) {
	case "b":
		return []any{false, true}
	case "f32":
		return floatCands(true, c, true)
	case "f64":
		return floatCands(false, c, true)
	case "s":
		if fd.Kind() == protoreflect.BytesKind {
			return bytesCands(c)
		}
		return strCands(c)
	}
	return intCands(fd, c)
}

func nilInst(md model.MD) *model.Inst { return &model.Inst{MD: md, Nil: true} }

func timeInst(md model.MD, ns *big.Int) *model.Inst {
	i := model.NewInst(md)
	q, m := new(big.Int).QuoRem(ns, big.NewInt(1000000000), new(big.Int))
	if md.Name() == "Timestamp" && m.Sign() < 0 {
		m.Add(m, big.NewInt(1000000000))
		q.Sub(q, big.NewInt(1))
	}
	i.F["seconds"], i.F["nanos"] = q, m
	return i
}

func raw(md model.MD, s, n int64) *model.Inst {
	i := model.NewInst(md)
	i.F["seconds"], i.F["nanos"] = big.NewInt(s), big.NewInt(n)
	return i
}

func (g *cg) message(m *protogen.Message, c *consts, depth int) []any {
	md := m.Desc
	out := []any{nilInst(md), model.NewInst(md)}
	full := md.FullName()
	switch {
	case spec.WrapperOf(full) != "":
		for _, v := range g.scalar(md.Fields().Get(0), c) {
			i := model.NewInst(md)
			i.F["value"] = v
			out = append(out, i)
		}
		return out
	case full == "google.protobuf.Any":
		for _, v := range strCands(c) {
			i := model.NewInst(md)
			i.F["type_url"] = v
			out = append(out, i)
		}
		return out
	case full == "google.protobuf.Duration", full == "google.protobuf.Timestamp":
		for _, n := range c.ns {
			for d := int64(-1); d <= 1; d++ {
				out = append(out, timeInst(md, new(big.Int).Add(n, big.NewInt(d))))
			}
			out = append(out, timeInst(md, new(big.Int).Neg(n)))
			if md.Name() == "Timestamp" {
				for _, d := range []int64{-50000000, 50000000, -2000000000, 2000000000} {
					out = append(out, timeInst(md, new(big.Int).Add(new(big.Int).Add(g.now, n), big.NewInt(d))), timeInst(md, new(big.Int).Add(new(big.Int).Sub(g.now, n), big.NewInt(d))))
				}
			}
		}
		for i, a := range c.ns {
			for _, b := range c.ns[:i] {
				s := new(big.Int).Add(a, b)
				out = append(out, timeInst(md, s.Rsh(s, 1)))
			}
		}
		out = append(out, raw(md, 0, 1), raw(md, 0, -1), raw(md, 1, -1), raw(md, -1, 1), raw(md, 5, 1000000000), raw(md, 315576000000, 0), raw(md, 315576000001, 0), raw(md, -315576000001, 0), raw(md, 253402300799, 999999999), raw(md, 253402300800, 0), raw(md, -62135596800, 0), raw(md, -62135596801, 0), raw(md, 1<<62, 0), raw(md, -1<<62, 0), raw(md, 10000000000, 0), raw(md, -10000000000, 0))
		if md.Name() == "Timestamp" {
			for _, d := range []int64{0, -1000000000, 1000000000, -3600000000000, 3600000000000, 3e18, -3e18} {
				out = append(out, timeInst(md, new(big.Int).Add(g.now, big.NewInt(d))))
			}
		}
		return out
	}
	if depth <= 0 {
		return out
	}
	// a valid and an invalid one for each field
	for _, f := range m.Fields {
		cs := g.field(m, f, depth-1)
		ok, bad := 0, 0
		for _, v := range cs {
			i := model.NewInst(md)
			set(i, f, v)
			if g.r.Valid(g.now)(i) {
				if ok < 2 {
					ok++
					out = append(out, i)
				}
			} else if bad < 2 {
				bad++
				out = append(out, i)
			}
		}
	}
	return out
}

func set(i *model.Inst, f *protogen.Field, v any) {
	if x, ok := v.(*model.Inst); ok && x.Nil && (f.Oneof == nil || f.Oneof.Desc.IsSynthetic()) {
		delete(i.F, f.Desc.Name())
		return
	}
	if v == nil {
		delete(i.F, f.Desc.Name())
		return
	}
	if f.Oneof != nil && !f.Oneof.Desc.IsSynthetic() {
		for _, o := range f.Oneof.Fields {
			delete(i.F, o.Desc.Name())
		}
	}
	i.F[f.Desc.Name()] = v
}

// field makes the candidates of a field; nil stands for unset.
func (g *cg) field(m *protogen.Message, f *protogen.Field, depth int) []any {
	c := &consts{want: map[string]bool{}}
	gather(spec.FieldRules(g.r.W, f), c)
	out := []any{nil}
	switch {
	case f.Desc.IsMap():
		kf, vf := f.Message.Fields[0], f.Message.Fields[1]
		ks := g.scalar(kf.Desc, c)
		var vs []any
		if vf.Message != nil {
			vs = g.message(vf.Message, c, depth)
		} else {
			vs = g.scalar(vf.Desc, c)
		}
		gk, gv := g.goodEntry(m, f, ks, vs)
		var uk []any
		for _, k := range ks {
			if k != k || k == nil { // NaN cannot be a key
				continue
			}
			uk = append(uk, k)
		}
		for _, k := range uk {
			out = append(out, []model.KV{{K: k, V: gv}})
		}
		for i, v := range vs {
			out = append(out, []model.KV{{K: gk, V: v}})
			if len(uk) > 0 && i%3 == 0 {
				k2 := uk[i%len(uk)]
				if k2 != gk && !sameScalar(k2, gk) {
					out = append(out, []model.KV{{K: gk, V: gv}, {K: k2, V: v}})
				}
			}
		}
		for _, n := range sizes(c) {
			var l []model.KV
			for j := 0; j < n && j < len(uk); j++ {
				l = append(l, model.KV{K: uk[j], V: gv})
			}
			if len(l) == n {
				out = append(out, l)
			}
			if kf.Desc.Kind() != protoreflect.BoolKind && n < 300 {
				l = nil
				for j := 0; j < n; j++ {
					var k any = big.NewInt(int64(j + 1))
					if kf.Desc.Kind() == protoreflect.StringKind {
						k = "key" + strings.Repeat("k", j)
					}
					l = append(l, model.KV{K: k, V: gv})
				}
				out = append(out, l)
			}
		}
	case f.Desc.IsList():
		var vs []any
		if f.Message != nil {
			vs = g.message(f.Message, c, depth)
		} else {
			vs = g.scalar(f.Desc, c)
		}
		gv := g.goodItem(m, f, vs)
		var oks []any
		for _, v := range vs {
			out = append(out, []any{v}, []any{gv, v}, []any{v, gv}, []any{gv, gv, v})
			oks = append(oks, v)
		}
		if len(vs) > 3 {
			out = append(out, []any{vs[0], vs[1], vs[2], vs[1]}, []any{vs[2], vs[2], vs[2]}, vs[:3:3], []any{vs[1], vs[2], vs[3], vs[1], vs[2]})
		}
		for _, n := range sizes(c) {
			var a, b []any
			for j := 0; j < n; j++ {
				a = append(a, gv)
				b = append(b, vs[j%len(vs)])
			}
			out = append(out, a, b)
			if d := g.distinct(f, n); d != nil {
				out = append(out, d)
			}
		}
	case f.Message != nil:
		out = append(out, g.message(f.Message, c, depth)...)
	default:
		out = append(out, g.scalar(f.Desc, c)...)
	}
	return out
}

func (g *cg) distinct(f *protogen.Field, n int) []any {
	var l []any
	for j := 0; j < n; j++ {
		switch model.KindTag(f.Desc.Kind()) {
		case "s":
			l = append(l, "x"+strings.Repeat("y", j))
		case "i32", "i64", "u32", "u64":
			l = append(l, big.NewInt(int64(j+1)))
		case "f32":
			l = append(l, float32(j+1))
		case "f64":
			l = append(l, float64(j+1))
		default:
			return nil
		}
	}
	return l
}

func sameScalar(a, b any) bool {
	x, ok1 := a.(*big.Int)
	y, ok2 := b.(*big.Int)
	return ok1 && ok2 && x.Cmp(y) == 0
}

func sizes(c *consts) []int {
	seen := map[int]bool{}
	var out []int
	put := func(n int) {
		if n >= 0 && n < 300 && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for _, n := range c.num {
		if n.IsInt64() && n.Int64() < 250 {
			for d := -1; d <= 1; d++ {
				put(int(n.Int64()) + d)
			}
		}
	}
	for _, n := range []int{0, 1, 2, 3} {
		put(n)
	}
	return out
}

// hits are the constraints of f broken when it holds v.
func (g *cg) hits(m *protogen.Message, f *protogen.Field, v any) int {
	i := model.NewInst(m.Desc)
	set(i, f, v)
	s := g.r.Spec(m)
	hs, err := s.Concrete(i, g.now, g.r.Valid(g.now))
	if err != nil {
		return 1
	}
	n := 0
	for _, h := range hs {
		if h.V.Field == f.GoName {
			n++
		}
	}
	return n
}

func (g *cg) itemHits(m *protogen.Message, f *protogen.Field, v any) int {
	i := model.NewInst(m.Desc)
	set(i, f, v)
	hs, err := g.r.Spec(m).Concrete(i, g.now, g.r.Valid(g.now))
	if err != nil {
		return 1
	}
	n := 0
	for _, h := range hs {
		if h.V.Field == f.GoName && h.I >= 0 {
			n++
		}
	}
	return n
}

func (g *cg) goodItem(m *protogen.Message, f *protogen.Field, vs []any) any {
	for _, v := range vs {
		if g.itemHits(m, f, []any{v}) == 0 {
			return v
		}
	}
	return vs[0]
}

func (g *cg) goodEntry(m *protogen.Message, f *protogen.Field, ks, vs []any) (any, any) {
	best := func(k, v any) int { return g.itemHits(m, f, []model.KV{{K: k, V: v}}) }
	bk, bv, n := ks[0], vs[0], 1<<30
	for _, k := range ks {
		if x := best(k, bv); x < n {
			bk, n = k, x
		}
	}
	for _, v := range vs {
		if x := best(bk, v); x < n {
			bv, n = v, x
		}
	}
	return bk, bv
}

// Jobs are the instances of a message that exercise the field named only (""
// for all fields).
func (r *R) Jobs(m *protogen.Message, only string, now *big.Int) []Job {
	g := &cg{r: r, now: now}
	base := model.NewInst(m.Desc)
	bad := model.NewInst(m.Desc)
	cands := map[*protogen.Field][]any{}
	if len(m.Fields) == 0 || r.Spec(m).Ignored {
		return []Job{{m, model.NewInst(m.Desc)}, {m, nilInst(m.Desc)}}
	}
	for _, f := range m.Fields {
		cs := g.field(m, f, 2)
		cands[f] = cs
		good, worst, wn := any(nil), any(nil), 0
		found := false
		for _, v := range cs {
			n := g.hits(m, f, v)
			if n == 0 && !found {
				good, found = v, true
			}
			if n > wn {
				worst, wn = v, n
			}
		}
		if f.Oneof == nil || f.Oneof.Desc.IsSynthetic() {
			set(base, f, good)
			set(bad, f, worst)
		} else if found {
			set(base, f, good)
		}
	}
	var out []Job
	out = append(out, Job{m, base}, Job{m, nilInst(m.Desc)}, Job{m, model.NewInst(m.Desc)}, Job{m, bad})
	for _, f := range m.Fields {
		if only != "" && f.GoName != only && (f.Oneof == nil || f.Oneof.GoName != only) {
			continue
		}
		for _, v := range cands[f] {
			i := clone(base)
			set(i, f, v)
			out = append(out, Job{m, i})
		}
		// with everything after it broken
		for k, v := range cands[f] {
			if k%5 == 0 && len(m.Fields) < 40 {
				i := clone(bad)
				set(i, f, v)
				out = append(out, Job{m, i})
			}
		}
	}
	for _, oo := range m.Oneofs {
		i := clone(base)
		for _, f := range oo.Fields {
			delete(i.F, f.Desc.Name())
		}
		out = append(out, Job{m, i})
	}
	return out
}

func clone(i *model.Inst) *model.Inst {
	n := model.NewInst(i.MD)
	for k, v := range i.F {
		n.F[k] = v
	}
	return n
}
