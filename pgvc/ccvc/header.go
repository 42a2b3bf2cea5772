package ccvc

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"pgvc/ccfe"
	"pgvc/gen"
	"pgvc/govc"
	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/sym"
)

// Header verifies the helpers of validate.h against their definitions.

// HeaderHooks are the contracts of what validate.h calls.
type HeaderHooks struct {
	*Hooks
	strs []*Term // the string parameters of the function under verification
	// ghost state of the registry
	this    string            // the validator under construction
	entries map[string]string // registry and type -> validator
	members map[string]Val    // validator and member -> value
}

// probe makes the compiler instantiate the registry for some message class.
const probe = `
namespace pgv {
struct VerifProbeP { int x; };
struct VerifProbeQ { int x; };
template class Validator<VerifProbeP>;
template class Validator<VerifProbeQ>;
}
`

// HeaderUnit lowers the current validate.h.
func HeaderUnit(e *gen.Env) (*ccfe.Unit, error) {
	b, err := os.ReadFile(filepath.Join(gen.Repo, "validate/validate.h"))
	if err != nil {
		return nil, err
	}
	d := filepath.Join(e.Dir, "hdr")
	os.MkdirAll(d, 0o755)
	src := filepath.Join(d, "validate.cc")
	if err := os.WriteFile(src, append(b, []byte(probe)...), 0o644); err != nil {
		return nil, err
	}
	// the header's own includes, under its own conditions
	pre := ""
	for _, l := range strings.Split(string(b), "\n") {
		if t := strings.TrimSpace(l); strings.HasPrefix(t, "#include") || strings.HasPrefix(t, "#if") || strings.HasPrefix(t, "#e") {
			if !strings.Contains(t, "_VALIDATE_H") {
				pre += l + "\n"
			}
		}
	}
	// without the include guard
	if i := strings.LastIndex(pre, "#endif"); i >= 0 && strings.Count(pre, "#endif") > strings.Count(pre, "#if") {
		pre = pre[:i]
	}
	h := filepath.Join(d, "pre.h")
	if err := os.WriteFile(h, []byte(pre), 0o644); err != nil {
		return nil, err
	}
	c := &gen.CC{Dir: d}
	if se, err := c.Clang(append(append([]string{}, gen.CCFlags...), "-I"+gen.Repo, "-x", "c++-header", h, "-o", h+".pch")...); err != nil {
		return nil, fmt.Errorf("%v: %s", err, se)
	}
	root, err := ccfe.Parse(d, h+".pch", src, []string{d, gen.Repo})
	if err != nil {
		return nil, err
	}
	return ccfe.LowerLib(root, src), nil
}

// HeaderRun is the verification of the header.
type HeaderRun struct {
	Obligs []*govc.Oblig
	Unsup  map[string]string // helper -> construct outside the subset
	Funcs  []string
	Loops  int
	H      *HeaderHooks
	fns    map[string]bool
}

func VerifyHeader(u *ccfe.Unit) *HeaderRun {
	r := &HeaderRun{Unsup: map[string]string{}, fns: map[string]bool{}}
	h := &HeaderHooks{Hooks: &Hooks{Hooks: govc.NewHooks(nil), Lib: true}}
	r.H = h
	var keys []string
	for k := range u.Funcs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	fn := func(name string) *ir.Func {
		for _, k := range keys {
			if strings.HasPrefix(k, name+"|") {
				return u.Funcs[k]
			}
		}
		return nil
	}
	nul := smt.StrC("\x00")
	for _, hd := range Helpers {
		f := fn(hd.Name)
		if f == nil {
			r.Unsup[hd.Name] = "no such function"
			continue
		}
		func() {
			defer func() {
				if p := recover(); p != nil {
					if s, ok := p.(sym.Unsup); ok {
						r.Unsup[hd.Name] = s.Error()
						return
					}
					panic(p)
				}
			}()
			x := sym.NewX(u.Unit, h)
			st := sym.NewState()
			h.strs = nil
			var args []Val
			for i := 0; i < hd.N; i++ {
				s := smt.Var(fmt.Sprintf("s%d!%s", i, hd.Name), smt.Str)
				h.strs = append(h.strs, s)
				args = append(args, sym.StrV(s))
				x.Facts = append(x.Facts, smt.Implies(model.Contains(s, nul), smt.Eq(model.IPText(s), smt.IntC(0))))
				if hd.UTF8 {
					x.Facts = append(x.Facts, model.ValidUTF8(s), smt.Le(model.BLen(s), smt.IntC(1<<31-1)))
				}
			}
			v := x.Inline(st, f, f.Name, nil, args)
			var obs []*govc.Oblig
			add := func(o *govc.Oblig) { o.Msg = hd.Name; obs = append(obs, o) }
			facts := func(o sym.Oblig) []*Term {
				if o.Facts != nil {
					return o.Facts
				}
				return x.Facts
			}
			for _, o := range x.Safety {
				if o.What != "" {
					add(&govc.Oblig{Kind: "safety", Name: o.What + " at " + filepath.Base(o.At), Hyps: append([]*Term{o.Hyp}, facts(o)...), Goal: o.Goal, At: o.At})
				}
			}
			for _, o := range x.LoopObligs {
				add(&govc.Oblig{Kind: "loop", Name: o.What, Hyps: append([]*Term{o.Hyp}, facts(o)...), Goal: o.Goal, At: o.At})
			}
			for _, e := range st.Exits {
				if e.Kind == sym.Thr {
					add(&govc.Oblig{Kind: "safety", Name: "no exception", Hyps: append([]*Term{e.G}, x.Facts...), Goal: smt.False, At: e.At})
				}
			}
			want := hd.Def(h.strs)
			if want.Sort == smt.Bool {
				got := x.IsTrue(v)
				add(&govc.Oblig{Kind: "post", Name: "true only where the definition is", Hyps: append([]*Term{st.Alive, got}, x.Facts...), Goal: want, At: f.At})
				add(&govc.Oblig{Kind: "post", Name: "true wherever the definition is", Hyps: append([]*Term{st.Alive, want}, x.Facts...), Goal: got, At: f.At})
			} else {
				got := x.Term(v, f.At)
				add(&govc.Oblig{Kind: "post", Name: "the defined value", Hyps: append([]*Term{st.Alive}, x.Facts...), Goal: smt.Eq(got, want), At: f.At})
			}
			for k := range x.Funcs {
				r.fns[k] = true
			}
			r.Loops += x.Loops
			r.Obligs = append(r.Obligs, obs...)
		}()
	}
	r.dispatch(u, h)
	for k := range r.fns {
		r.Funcs = append(r.Funcs, k)
	}
	sort.Strings(r.Funcs)
	return r
}

// Helper is a function of validate.h with its definition.
type Helper struct {
	Name string
	N    int // string parameters
	UTF8 bool
	Def  func(s []*Term) *Term
	Text string
}

// Helpers and the predicates they compute.
var Helpers = []Helper{
	{Name: "IsPrefix", N: 2, Text: "IsPrefix(p, s): s begins with the bytes of p", Def: func(s []*Term) *Term {
		n := model.BLen(s[0])
		return smt.And(smt.Le(n, model.BLen(s[1])), smt.Eq(model.Substr(s[1], smt.IntC(0), n), s[0]))
	}},
	{Name: "IsSuffix", N: 2, Text: "IsSuffix(p, s): s ends with the bytes of p", Def: func(s []*Term) *Term {
		n, m := model.BLen(s[0]), model.BLen(s[1])
		return smt.And(smt.Le(n, m), smt.Eq(model.Substr(s[1], smt.Sub(m, n), m), s[0]))
	}},
	{Name: "Contains", N: 2, Text: "Contains(s, p): p occurs in s", Def: func(s []*Term) *Term { return model.Contains(s[0], s[1]) }},
	{Name: "NotContains", N: 2, Text: "NotContains(s, p): p does not occur in s", Def: func(s []*Term) *Term { return smt.Not(model.Contains(s[0], s[1])) }},
	{Name: "IsIpv4", N: 1, Text: "IsIpv4(s): s is a dotted quad", Def: func(s []*Term) *Term { return smt.Eq(model.IPText(s[0]), smt.IntC(4)) }},
	{Name: "IsIpv6", N: 1, Text: "IsIpv6(s): s is an IPv6 address without zone", Def: func(s []*Term) *Term { return smt.Eq(model.IPText(s[0]), smt.IntC(6)) }},
	{Name: "IsIp", N: 1, Text: "IsIp(s): s is one of the two", Def: func(s []*Term) *Term { return smt.Not(smt.Eq(model.IPText(s[0]), smt.IntC(0))) }},
	{Name: "IsHostname", N: 1, Text: "IsHostname(s): at most 253 bytes; labels of 1 to 63 letters, digits and inner hyphens, separated by dots, one final dot allowed", Def: func(s []*Term) *Term { return hostDef(s[0]) }},
	{Name: "Utf8Len", N: 1, UTF8: true, Text: "Utf8Len(s): the number of code points of valid UTF-8", Def: func(s []*Term) *Term { return model.Runes(s[0]) }},
}

// hostDef is the hostname language over bytes.
func hostDef(h *Term) *Term {
	dot := smt.StrC(".")
	s := model.TrimSuffix(h, dot)
	i, k := smt.Var("hl", smt.Int), smt.Var("hk", smt.Int)
	l := model.SplitAt(s, dot, i)
	c := model.ByteAt(l, k)
	in := func(a, z rune) *Term {
		return smt.And(smt.Le(smt.IntC(int64(a)), c), smt.Le(c, smt.IntC(int64(z))))
	}
	label := smt.And(
		smt.Le(smt.IntC(1), model.BLen(l)), smt.Le(model.BLen(l), smt.IntC(63)),
		smt.Not(smt.Eq(model.ByteAt(l, smt.IntC(0)), smt.IntC('-'))),
		smt.Not(smt.Eq(model.ByteAt(l, smt.Sub(model.BLen(l), smt.IntC(1))), smt.IntC('-'))),
		smt.Forall(k, smt.IntC(0), model.BLen(l), smt.Or(in('a', 'z'), in('A', 'Z'), in('0', '9'), smt.Eq(c, smt.IntC('-')))))
	return smt.And(smt.Le(model.BLen(h), smt.IntC(253)), smt.Forall(i, smt.IntC(0), model.SplitN(s, dot), label))
}

// pos is the offset of a character pointer.
func pos(o sym.OpaqueV) *Term {
	if len(o.Args) == 1 {
		return o.Args[0].(sym.TV).T
	}
	return smt.IntC(0)
}

func ptr(s, p *Term) Val {
	return sym.OpaqueV{Kind: "cstr", T: s, Args: []Val{sym.TV{T: p, Y: i64}}}
}

// Binary: pointers into a string.
func (h *HeaderHooks) Binary(x *sym.X, st *sym.State, op string, a, b Val, t *ir.T, at string) (Val, bool) {
	p, ok1 := a.(sym.OpaqueV)
	q, ok2 := b.(sym.OpaqueV)
	ok1, ok2 = ok1 && p.Kind == "cstr", ok2 && q.Kind == "cstr"
	if ok1 && ok2 && p.T == q.T {
		i, j := pos(p), pos(q)
		switch op {
		case "-":
			return sym.TV{T: smt.Sub(i, j), Y: i64}, true
		case "<":
			return sym.BoolV(smt.Lt(i, j)), true
		case "<=":
			return sym.BoolV(smt.Le(i, j)), true
		case ">":
			return sym.BoolV(smt.Lt(j, i)), true
		case ">=":
			return sym.BoolV(smt.Le(j, i)), true
		}
		return nil, false
	}
	if d, isInt := b.(sym.TV); ok1 && isInt && d.T.Sort == smt.Int && (op == "+" || op == "-") {
		n := smt.Add(pos(p), d.T)
		if op == "-" {
			n = smt.Sub(pos(p), d.T)
		}
		h.use("pointers into a std::string range over its bytes and the final NUL")
		x.Oblige(st, smt.And(smt.Le(smt.IntC(0), n), smt.Le(n, smt.Add(model.BLen(p.T), smt.IntC(1)))), at, "pointer stays in the string")
		return ptr(p.T, n), true
	}
	return nil, false
}

// Havoc is any value of the kind of v.
func (h *HeaderHooks) Havoc(x *sym.X, v Val) (Val, []*Term, bool) {
	switch u := v.(type) {
	case sym.TV:
		if u.T.Sort == smt.Int && u.Y != nil && u.Y.K == ir.KInt && u.Y.Bits > 0 {
			t := smt.Fresh("w", smt.Int)
			one := big.NewInt(1)
			lo, hi := new(big.Int), new(big.Int).Lsh(one, uint(u.Y.Bits))
			if u.Y.Signed {
				hi = new(big.Int).Lsh(one, uint(u.Y.Bits-1))
				lo.Neg(hi)
			}
			return sym.TV{T: t, Y: u.Y}, []*Term{smt.Le(smt.BigC(lo), t), smt.Lt(t, smt.BigC(hi))}, true
		}
		if u.T.Sort == smt.Bool {
			return sym.TV{T: smt.Fresh("w", smt.Bool), Y: u.Y}, nil, true
		}
	case sym.OpaqueV:
		if u.Kind == "cstr" {
			return ptr(u.T, smt.Fresh("w", smt.Int)), nil, true
		}
	}
	return nil, nil, false
}

// Candidates: what loops over the code points of a string maintain.
func (h *HeaderHooks) Candidates(x *sym.X, pre map[string]Val, vars []string) (inv, variant []sym.Cand) {
	add := func(name string, f func(e map[string]Val) *Term) { inv = append(inv, sym.Cand{Name: name, F: f}) }
	vari := func(name string, f func(e map[string]Val) *Term) {
		variant = append(variant, sym.Cand{Name: name, F: f})
	}
	type at struct {
		name string
		s    *Term
		f    func(e map[string]Val) *Term
	}
	var offs []at
	var ints []string
	iv := func(k string) func(e map[string]Val) *Term {
		return func(e map[string]Val) *Term { return x.Term(e[k], "") }
	}
	for i, k := range vars {
		switch u := pre[k].(type) {
		case sym.OpaqueV:
			k := k
			offs = append(offs, at{fmt.Sprintf("offset%d", i), u.T, func(e map[string]Val) *Term { return pos(e[k].(sym.OpaqueV)) }})
		case sym.TV:
			if u.T.Sort == smt.Int {
				ints = append(ints, k)
				for _, s := range h.strs {
					offs = append(offs, at{fmt.Sprintf("var%d", i), s, iv(k)})
				}
			}
		}
	}
	for i, k := range ints {
		f := iv(k)
		for _, c := range []int64{0, 1} {
			c := c
			add(fmt.Sprintf("int%d >= %d", i, c), func(e map[string]Val) *Term { return smt.Le(smt.IntC(c), f(e)) })
		}
		vari(fmt.Sprintf("int%d", i), f)
	}
	for _, o := range offs {
		o := o
		n := model.BLen(o.s)
		add("0 <= "+o.name+" <= length", func(e map[string]Val) *Term {
			return smt.And(smt.Le(smt.IntC(0), o.f(e)), smt.Le(o.f(e), n))
		})
		add(o.name+" is at a code point's boundary", func(e map[string]Val) *Term { return model.Boundary(o.s, o.f(e)) })
		vari("length - "+o.name, func(e map[string]Val) *Term { return smt.Sub(n, o.f(e)) })
		for i, k := range ints {
			f := iv(k)
			add(fmt.Sprintf("int%d = length - %s", i, o.name), func(e map[string]Val) *Term { return smt.Eq(f(e), smt.Sub(n, o.f(e))) })
			add(fmt.Sprintf("int%d = %s", i, o.name), func(e map[string]Val) *Term { return smt.Eq(f(e), o.f(e)) })
			add(fmt.Sprintf("int%d = code points before %s", i, o.name), func(e map[string]Val) *Term { return smt.Eq(f(e), model.RunesTo(o.s, o.f(e))) })
		}
	}
	return
}

func (h *HeaderHooks) Decide(x *sym.X, hyps []*Term, goal *Term) bool {
	if goal.IsTrue() {
		return true
	}
	return smt.ValidT(append(append([]*Term{}, hyps...), x.Facts...), goal, 1500).Status == "unsat"
}

// Call: the standard library as validate.h uses it.
func (h *HeaderHooks) Call(x *sym.X, st *sym.State, name string, recv Val, args []Val, c *ir.Call) (Val, bool) {
	at := ""
	if c != nil {
		at = c.At
	}
	base := name
	if i := strings.IndexByte(name, '|'); i >= 0 {
		base = name[:i]
	}
	switch {
	case base == "inet_pton" && len(args) == 3:
		p, ok := args[1].(sym.OpaqueV)
		af := x.Term(args[0], at)
		if !ok || p.Kind != "cstr" || len(p.Args) > 0 || af.Op != "int" {
			return nil, false
		}
		k := smt.IntC(0)
		switch af.I.Int64() {
		case 2:
			k = smt.IntC(4)
		case 10:
			k = smt.IntC(6)
		default:
			return nil, false
		}
		h.use("inet_pton: 1 exactly when the bytes before the first NUL are an address of the family, otherwise 0")
		return sym.TV{T: smt.Ite(smt.Eq(model.IPText(model.Before(p.T, smt.StrC("\x00"))), k), smt.IntC(1), smt.IntC(0)), Y: i32}, true
	case base == "UTF8FirstLetterNumBytes" && len(args) == 2:
		p, ok := args[0].(sym.OpaqueV)
		if !ok || p.Kind != "cstr" {
			return nil, false
		}
		i, n := pos(p), x.Term(args[1], at)
		h.use("google/protobuf/stubs: UTF8FirstLetterNumBytes(p, n) is 0 for n = 0, else the length of the code point that starts at p (1 to 4 when none does)")
		x.Oblige(st, smt.Implies(smt.Not(smt.Eq(n, smt.IntC(0))), smt.And(smt.Le(smt.IntC(0), i), smt.Le(i, model.BLen(p.T)))), at, "readable first byte")
		other := smt.Fresh("u8", smt.Int)
		x.Facts = append(x.Facts, smt.Le(smt.IntC(1), other), smt.Le(other, smt.IntC(4)))
		at := smt.And(model.Boundary(p.T, i), smt.Lt(i, model.BLen(p.T)))
		return sym.TV{T: smt.Ite(smt.Eq(n, smt.IntC(0)), smt.IntC(0), smt.Ite(at, model.RuneLen(p.T, i), other)), Y: i32}, true
	case base == "deref" && len(args) == 1:
		if o, ok := args[0].(sym.OpaqueV); ok {
			switch o.Kind {
			case "cstr":
				i := pos(o)
				x.Oblige(st, smt.And(smt.Le(smt.IntC(0), i), smt.Le(i, model.BLen(o.T))), at, "readable byte")
				return sym.TV{T: schar(o.T, i), Y: chT}, true
			case "registry":
				return o, true
			}
		}
		return nil, false
	case strings.HasPrefix(base, "new sockaddr_in"):
		return sym.OpaqueV{Kind: "buffer", T: smt.True}, true
	case strings.HasPrefix(base, "new std::basic_regex<"):
		if len(args) >= 1 {
			if s, ok := str(args[0]); ok && s.Op == "str" && (s.Name == `\.` || s.Name == `[.]`) && len(args) == 1 {
				h.use("std::regex: \\. matches a dot and nothing else")
				return sym.OpaqueV{Kind: "sep", T: smt.StrC(".")}, true
			}
		}
		return nil, false
	case strings.HasPrefix(base, "new std::regex_token_iterator<"):
		if len(args) == 0 {
			return sym.OpaqueV{Kind: "tokend", T: smt.True}, true
		}
		if len(args) != 4 {
			return nil, false
		}
		b, ok1 := args[0].(sym.OpaqueV)
		e, ok2 := args[1].(sym.OpaqueV)
		sep, ok3 := args[2].(sym.OpaqueV)
		m, ok4 := args[3].(sym.TV)
		if !ok1 || !ok2 || !ok3 || !ok4 || b.Kind != "begin" || e.Kind != "endof" || b.T != e.T || sep.Kind != "sep" || m.T != smt.IntC(-1) {
			return nil, false
		}
		h.use("std::sregex_token_iterator(s, separator, -1): the pieces of s between separators, without an empty last one unless it is the only one")
		return sym.OpaqueV{Kind: "tokens", T: b.T, Args: []Val{sym.StrV(sep.T)}}, true
	case base == "sequence" && len(args) == 2:
		b, ok1 := args[0].(sym.OpaqueV)
		e, ok2 := args[1].(sym.OpaqueV)
		if !ok1 || !ok2 || b.Kind != "tokens" || e.Kind != "tokend" {
			return nil, false
		}
		sep := b.Args[0].(sym.TV).T
		s := model.TrimSuffix(b.T, sep)
		return sym.ListV{Tag: fmt.Sprintf("tokens:%d", s.ID), Len: model.SplitN(s, sep), At: func(i *Term) Val { return sym.StrV(model.SplitAt(s, sep, i)) }}, true
	case base == ".operator basic_string" || base == ".str":
		if s, ok := str(recv); ok && len(args) == 0 {
			return sym.StrV(s), true
		}
	case base == ".begin" || base == ".cbegin" || base == ".end" || base == ".cend":
		if s, ok := str(recv); ok && len(args) == 0 {
			k := "begin"
			if strings.HasSuffix(base, "end") {
				k = "endof"
			}
			return sym.OpaqueV{Kind: k, T: s}, true
		}
	}
	if v, ok := h.registry(x, st, base, recv, args, c, at); ok {
		return v, true
	}
	return h.Hooks.Call(x, st, name, recv, args, c)
}

func validator(id string) Val {
	return sym.OpaqueV{Kind: "validator", T: smt.B(id != ""), Args: []Val{sym.StrV(smt.StrC(id))}}
}

func name(v Val) string { return v.(sym.OpaqueV).Args[0].(sym.TV).T.Name }

func kind(v Val, k string) bool {
	o, ok := v.(sym.OpaqueV)
	return ok && o.Kind == k
}

// registry: the container of the registered validators.
func (h *HeaderHooks) registry(x *sym.X, st *sym.State, base string, recv Val, args []Val, c *ir.Call, at string) (Val, bool) {
	switch {
	case base == "static" && len(args) == 2:
		if s, ok := str(args[0]); ok && kind(args[1], "newmap") {
			h.use("C++: a function's static variable is initialized once")
			return sym.OpaqueV{Kind: "registry", T: smt.True, Args: []Val{sym.StrV(s)}}, true
		}
	case strings.HasPrefix(base, "new std::unordered_map<std::type_index,") && len(args) == 0:
		return sym.OpaqueV{Kind: "newmap", T: smt.True}, true
	case base == "typeid" && c != nil && c.TArg != nil:
		return sym.OpaqueV{Kind: "typeid", T: smt.True, Args: []Val{sym.StrV(smt.StrC(c.TArg.Name))}}, true
	case strings.HasPrefix(base, "new std::type_index") && len(args) == 1 && kind(args[0], "typeid"):
		return args[0], true
	case base == "move" && len(args) == 1:
		return args[0], true
	case base == "member init" && len(args) == 2:
		if s, ok := str(args[0]); ok && h.this != "" {
			h.members[h.this+"."+s.Name] = args[1]
			return sym.NilV{}, true
		}
	case base == "nonnull" && len(args) == 1 && kind(args[0], "validator"):
		return sym.BoolV(args[0].(sym.OpaqueV).T), true
	case base == "store[]" && len(args) == 3 && kind(args[0], "registry") && kind(args[1], "typeid") && kind(args[2], "validator"):
		if !st.Alive.IsTrue() {
			return nil, false
		}
		h.use("std::unordered_map, std::type_index as documented: one entry for each type")
		h.entries[name(args[0])+"|"+name(args[1])] = name(args[2])
		return sym.NilV{}, true
	case base == "operator[]" && len(args) == 2 && kind(args[0], "registry") && kind(args[1], "typeid"):
		return validator(h.entries[name(args[0])+"|"+name(args[1])]), true
	case base == ".find" && kind(recv, "registry") && len(args) == 1 && kind(args[0], "typeid"):
		id := h.entries[name(recv)+"|"+name(args[0])]
		return sym.OpaqueV{Kind: "iter", T: smt.B(id != ""), Args: []Val{sym.StrV(smt.StrC(id))}}, true
	case (base == ".end" || base == ".cend") && kind(recv, "registry"):
		return sym.OpaqueV{Kind: "end", T: smt.True}, true
	case base == ".count" && kind(recv, "registry") && len(args) == 1 && kind(args[0], "typeid"):
		if h.entries[name(recv)+"|"+name(args[0])] != "" {
			return sym.TV{T: smt.IntC(1), Y: u64}, true
		}
		return sym.TV{T: smt.IntC(0), Y: u64}, true
	case base == "operator->" && len(args) == 1 && kind(args[0], "iter"):
		return args[0], true
	case base == "operator()" && len(args) == 3 && kind(args[0], "check"):
		f := args[0].(sym.OpaqueV)
		if kind(args[1], "msg") && kind(args[2], "errptr") {
			h.use("std::function calls what it holds")
			return sym.BoolV(f.T), true
		}
	}
	return nil, false
}

func (h *HeaderHooks) Field(x *sym.X, st *sym.State, v Val, f, at string) (Val, bool) {
	if kind(v, "iter") && f == "second" {
		o := v.(sym.OpaqueV)
		x.Oblige(st, o.T, at, "iterator not past the end")
		return validator(name(v)), true
	}
	if kind(v, "validator") {
		o := v.(sym.OpaqueV)
		x.Oblige(st, o.T, at, "validator not null")
		m, ok := h.members[name(v)+"."+f]
		return m, ok
	}
	return nil, false
}

func (h *HeaderHooks) IsNil(x *sym.X, v Val) (*Term, bool) {
	if kind(v, "validator") {
		return smt.Not(v.(sym.OpaqueV).T), true
	}
	return nil, false
}

func (h *HeaderHooks) Global(x *sym.X, n string, t *ir.T) (Val, bool) {
	if n == "this" && h.this != "" {
		return validator(h.this), true
	}
	return h.Hooks.Global(x, n, t)
}

// Dispatch: histories of registrations and validations of two types; what a
// validation answers is what the last registration of its own type says.
func (r *HeaderRun) dispatch(u *ccfe.Unit, h *HeaderHooks) {
	find := func(prefix, cls string) *ir.Func {
		var hit *ir.Func
		for k, f := range u.Funcs {
			// the instance is told by the class of the message in its signature
			if strings.HasPrefix(k, prefix+"|") && (strings.Contains(k, cls+" ") || strings.Contains(k, cls+"&")) && strings.Contains(k, "*") {
				hit = f
			}
		}
		return hit
	}
	hist := [][]string{
		{"?P"}, {"+P", "?P"}, {"+Q", "?P"}, {"?P", "+P", "?P"}, {"+P", "+Q", "?P", "?Q"}, {"+Q", "+P", "?P", "?Q"}, {"?Q", "+P", "?Q", "?P", "?P"},
	}
	defer func() {
		if p := recover(); p != nil {
			if s, ok := p.(sym.Unsup); ok {
				r.Unsup["CheckMessage"] = s.Error()
				return
			}
			panic(p)
		}
	}()
	var obs []*govc.Oblig
	for _, hs := range hist {
		h.entries, h.members = map[string]string{}, map[string]Val{}
		reg := map[string]*Term{}
		x := sym.NewX(u.Unit, h)
		for i, s := range hs {
			cls := "VerifProbe" + s[1:]
			if s[0] == '+' {
				f := find("Validator", cls)
				if f == nil || len(f.Params) != 1 {
					r.Unsup["CheckMessage"] = "no constructor"
					return
				}
				c := smt.Fresh("check"+s[1:], smt.Bool)
				h.this = fmt.Sprintf("v%d%s", i, s[1:])
				st := sym.NewState()
				x.Inline(st, f, f.Name+s[1:], nil, []Val{sym.OpaqueV{Kind: "check", T: c}})
				h.this = ""
				reg[s[1:]] = c
				continue
			}
			f := find("CheckMessage", cls)
			if f == nil || len(f.Params) != 2 {
				r.Unsup["CheckMessage"] = "no CheckMessage"
				return
			}
			st := sym.NewState()
			m := sym.OpaqueV{Kind: "msg", T: smt.True}
			v := x.Inline(st, f, f.Name+s[1:], nil, []Val{m, sym.OpaqueV{Kind: "errptr", T: smt.True}})
			want, ok := reg[s[1:]]
			if !ok {
				want = smt.True
			}
			obs = append(obs, &govc.Oblig{Msg: "CheckMessage", Kind: "post", Name: fmt.Sprintf("after %s it answers for its own type", strings.Join(hs[:i+1], " ")), Hyps: []*Term{st.Alive}, Goal: smt.Iff(x.IsTrue(v), want), At: f.At})
		}
		for _, o := range x.Safety {
			if o.What != "" {
				obs = append(obs, &govc.Oblig{Msg: "CheckMessage", Kind: "safety", Name: o.What + " after " + strings.Join(hs, " "), Hyps: []*Term{o.Hyp}, Goal: o.Goal, At: o.At})
			}
		}
		for k := range x.Funcs {
			r.fns[k] = true
		}
	}
	r.Obligs = append(r.Obligs, obs...)
}
