package model

import (
	"fmt"
	"math/big"
	"net"
	"net/mail"
	"net/netip"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"unicode/utf8"

	. "pgvc/smt"
)

// Library functions on byte strings. Each is given by its real Go
// implementation (the evaluator) and by the axioms listed here; code and
// specification share the symbol.

func BLen(s *Term) *Term                { return App("blen", Int, s) }
func Runes(s *Term) *Term               { return App("runes", Int, s) }
func RuneAt(s, i *Term) *Term           { return App("runeat", Int, s, i) }
func ByteAt(s, i *Term) *Term           { return App("byteat", Int, s, i) }
func HasPrefix(s, p *Term) *Term        { return App("hasprefix", Bool, s, p) }
func HasSuffix(s, p *Term) *Term        { return App("hassuffix", Bool, s, p) }
func Contains(s, p *Term) *Term         { return App("contains", Bool, s, p) }
func ReMatch(pat string, s *Term) *Term { return App("rematch#"+CanonRegex(pat), Bool, s) }
func IPKind(s *Term) *Term              { return App("ipkind", Int, s) } // 0, 4 or 6 (text)
func IPText(s *Term) *Term              { return App("iptext", Int, s) } // by inet_pton: 0, 4 or 6
func V4Mapped(s *Term) *Term            { return App("v4mapped", Bool, s) }
func MailOK(s *Term) *Term              { return App("mailok", Bool, s) }
func MailAddr(s *Term) *Term            { return App("mailaddr", Str, s) }
func URLOK(s *Term) *Term               { return App("urlok", Bool, s) }
func URLAbs(s *Term) *Term              { return App("urlabs", Bool, s) }
func TrimSuffix(s, p *Term) *Term       { return App("trimsuffix", Str, s, p) }
func TrimPrefix(s, p *Term) *Term       { return App("trimprefix", Str, s, p) }
func SplitN(s, sep *Term) *Term         { return App("splitn", Int, s, sep) }
func SplitAt(s, sep, i *Term) *Term     { return App("splitat", Str, s, sep, i) }
func Before(s, sep *Term) *Term         { return App("before", Str, s, sep) }
func After(s, sep *Term) *Term          { return App("after", Str, s, sep) }
func LastIdx(s, sep *Term) *Term        { return App("lastidx", Int, s, sep) }
func FirstIdx(s, sep *Term) *Term       { return App("firstidx", Int, s, sep) }
func Substr(s, lo, hi *Term) *Term      { return App("substr", Str, s, lo, hi) }

func bi(v any) int64 { return v.(*big.Int).Int64() }

func str1(f func(string) any) func(string, []any) any {
	return func(_ string, a []any) any { return f(a[0].(string)) }
}
func str2(f func(a, b string) any) func(string, []any) any {
	return func(_ string, a []any) any { return f(a[0].(string), a[1].(string)) }
}

func isV4Mapped(s string) bool {
	return len(s) == 16 && strings.HasPrefix(s, "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff")
}

func init() {
	e := SymOf(StrC(""))
	DeclareAux("blen", "(declare-fun blen (Str) Int)")
	lenAx := []string{"(forall ((s Str)) (! (and (<= 0 (blen s)) (<= (blen s) 4611686018427387904) (=> (= (blen s) 0) (= s " + e + "))) :pattern ((blen s))))", "(= (blen " + e + ") 0)"}
	Funcs["blen"] = &Func{Eval: str1(func(s string) any { return len(s) }), Axioms: func(string) []string { return lenAx }}
	Funcs["runes"] = &Func{Eval: str1(func(s string) any { return utf8.RuneCountInString(s) }), Axioms: func(string) []string {
		return append([]string{"(forall ((s Str)) (! (and (<= 0 (runes s)) (<= (runes s) (blen s)) (<= (blen s) (* 4 (runes s)))) :pattern ((runes s))))"}, lenAx...)
	}}
	Funcs["runeat"] = &Func{Eval: func(_ string, a []any) any {
		s, n := a[0].(string), bi(a[1])
		k := int64(0)
		for _, r := range s {
			if k == n {
				return int(r)
			}
			k++
		}
		return 0
	}, Axioms: func(string) []string {
		return []string{"(forall ((s Str) (i Int)) (! (and (<= 0 (runeat s i)) (<= (runeat s i) 1114111)) :pattern ((runeat s i))))"}
	}}
	Funcs["byteat"] = &Func{Eval: func(_ string, a []any) any {
		s, n := a[0].(string), bi(a[1])
		if n < 0 || n >= int64(len(s)) {
			return 0
		}
		return int(s[n])
	}, Axioms: func(string) []string {
		return []string{"(forall ((s Str) (i Int)) (! (and (<= 0 (byteat s i)) (<= (byteat s i) 255)) :pattern ((byteat s i))))"}
	}}
	aff := func(n string) func(string) []string {
		return func(string) []string {
			return append([]string{fmt.Sprintf("(forall ((s Str) (p Str)) (! (and (=> (%s s p) (<= (blen p) (blen s))) (=> (= p %s) (%s s p)) (=> (= p s) (%s s p))) :pattern ((%s s p))))", n, e, n, n, n)}, lenAx...)
		}
	}
	Funcs["hasprefix"] = &Func{Eval: str2(func(a, b string) any { return strings.HasPrefix(a, b) }), Axioms: aff("hasprefix")}
	Funcs["hassuffix"] = &Func{Eval: str2(func(a, b string) any { return strings.HasSuffix(a, b) }), Axioms: aff("hassuffix")}
	Funcs["contains"] = &Func{Eval: str2(func(a, b string) any { return strings.Contains(a, b) }), Axioms: aff("contains")}
	Funcs["rematch"] = &Func{Eval: func(name string, a []any) any {
		re, err := compileRE(name[len("rematch#"):])
		if err != nil {
			return nil
		}
		return re.MatchString(a[0].(string))
	}}
	Funcs["ipkind"] = &Func{Eval: str1(func(s string) any {
		ip := net.ParseIP(s)
		if ip == nil {
			return 0
		}
		if ip.To4() != nil {
			return 4
		}
		return 6
	}), Axioms: func(string) []string {
		return []string{"(forall ((s Str)) (! (or (= (ipkind s) 0) (= (ipkind s) 4) (= (ipkind s) 6)) :pattern ((ipkind s))))"}
	}}
	Funcs["iptext"] = &Func{Eval: str1(func(s string) any {
		ip, err := netip.ParseAddr(s)
		switch {
		case err != nil || ip.Zone() != "":
			return 0
		case strings.Contains(s, ":"):
			return 6
		}
		return 4
	}), Axioms: func(string) []string {
		return []string{"(forall ((s Str)) (! (or (= (iptext s) 0) (= (iptext s) 4) (= (iptext s) 6)) :pattern ((iptext s))))"}
	}}
	Funcs["v4mapped"] = &Func{Eval: str1(func(s string) any { return isV4Mapped(s) }), Axioms: func(string) []string {
		return append([]string{"(forall ((s Str)) (! (=> (v4mapped s) (= (blen s) 16)) :pattern ((v4mapped s))))"}, lenAx...)
	}}
	Funcs["mailok"] = &Func{Eval: str1(func(s string) any { _, err := mail.ParseAddress(s); return err == nil })}
	Funcs["mailaddr"] = &Func{Eval: str1(func(s string) any {
		a, err := mail.ParseAddress(s)
		if err != nil {
			return ""
		}
		return a.Address
	}), Axioms: func(string) []string {
		at := SymOf(StrC("@"))
		return []string{
			"(forall ((s Str)) (! (=> (mailok s) (contains (mailaddr s) " + at + ")) :pattern ((mailaddr s))))",
			"(forall ((s Str)) (! (=> (mailok s) (and (<= 0 (lastidx (mailaddr s) " + at + ")) (< (lastidx (mailaddr s) " + at + ") (blen (mailaddr s))))) :pattern ((mailaddr s))))",
			lenAx[0], lenAx[1],
		}
	}}
	DeclareAux("mailok", "(declare-fun mailok (Str) Bool)")
	DeclareAux("contains", "(declare-fun contains (Str Str) Bool)")
	DeclareAux("lastidx", "(declare-fun lastidx (Str Str) Int)")
	DeclareAux("firstidx", "(declare-fun firstidx (Str Str) Int)")
	Funcs["urlok"] = &Func{Eval: str1(func(s string) any { _, err := url.Parse(s); return err == nil })}
	Funcs["urlabs"] = &Func{Eval: str1(func(s string) any { u, err := url.Parse(s); return err == nil && u.IsAbs() })}
	Funcs["trimsuffix"] = &Func{Eval: str2(func(a, b string) any { return strings.TrimSuffix(a, b) }), Axioms: func(string) []string {
		return append([]string{"(forall ((s Str) (p Str)) (! (and (<= (blen (trimsuffix s p)) (blen s)) (<= (- (blen s) (blen p)) (blen (trimsuffix s p)))) :pattern ((trimsuffix s p))))"}, lenAx...)
	}}
	Funcs["trimprefix"] = &Func{Eval: str2(func(a, b string) any { return strings.TrimPrefix(a, b) }), Axioms: func(string) []string {
		return append([]string{"(forall ((s Str) (p Str)) (! (and (<= (blen (trimprefix s p)) (blen s)) (<= (- (blen s) (blen p)) (blen (trimprefix s p)))) :pattern ((trimprefix s p))))"}, lenAx...)
	}}
	Funcs["splitn"] = &Func{Eval: str2(func(a, b string) any { return len(strings.Split(a, b)) }), Axioms: func(string) []string {
		return []string{"(forall ((s Str) (p Str)) (! (and (<= 1 (splitn s p)) (<= (splitn s p) 4611686018427387904)) :pattern ((splitn s p))))"}
	}}
	Funcs["splitat"] = &Func{Eval: func(_ string, a []any) any {
		p := strings.Split(a[0].(string), a[1].(string))
		i := bi(a[2])
		if i < 0 || i >= int64(len(p)) {
			return ""
		}
		return p[i]
	}}
	Funcs["before"] = &Func{Eval: str2(func(a, b string) any { return strings.SplitN(a, b, 2)[0] }), Axioms: func(string) []string {
		return append([]string{"(forall ((s Str) (p Str)) (! (=> (not (contains s p)) (= (before s p) s)) :pattern ((before s p))))"}, lenAx...)
	}}
	Funcs["after"] = &Func{Eval: str2(func(a, b string) any {
		p := strings.SplitN(a, b, 2)
		if len(p) < 2 {
			return ""
		}
		return p[1]
	})}
	idx := func(n string) func(string) []string {
		return func(string) []string {
			return append([]string{fmt.Sprintf("(forall ((s Str) (p Str)) (! (and (<= (- 1) (%s s p)) (<= (%s s p) (blen s)) (= (>= (%s s p) 0) (contains s p)) (=> (and (<= 0 (%s s p)) (< 0 (blen p))) (<= (+ (%s s p) (blen p)) (blen s)))) :pattern ((%s s p))))", n, n, n, n, n, n)}, lenAx...)
		}
	}
	Funcs["lastidx"] = &Func{Eval: str2(func(a, b string) any { return strings.LastIndex(a, b) }), Axioms: idx("lastidx")}
	Funcs["firstidx"] = &Func{Eval: str2(func(a, b string) any { return strings.Index(a, b) }), Axioms: idx("firstidx")}
	Funcs["substr"] = &Func{Eval: func(_ string, a []any) any {
		s, lo, hi := a[0].(string), bi(a[1]), bi(a[2])
		if lo < 0 || hi < lo || hi > int64(len(s)) {
			return ""
		}
		return s[lo:hi]
	}, Axioms: func(string) []string {
		return append([]string{"(forall ((s Str) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (blen s))) (= (blen (substr s a b)) (- b a))) :pattern ((substr s a b))))",
			"(forall ((s Str)) (! (= (substr s 0 (blen s)) s) :pattern ((substr s 0 (blen s)))))"}, lenAx...)
	}}
	Funcs["tolower"] = &Func{Eval: str1(func(s string) any { return strings.ToLower(s) })}
	Funcs["toupper"] = &Func{Eval: str1(func(s string) any { return strings.ToUpper(s) })}
}

var reMu sync.Mutex
var reCache = map[string]*regexp.Regexp{}

func compileRE(p string) (*regexp.Regexp, error) {
	reMu.Lock()
	defer reMu.Unlock()
	if r, ok := reCache[p]; ok {
		return r, nil
	}
	r, err := regexp.Compile(p)
	if err == nil {
		reCache[p] = r
	}
	return r, err
}

var canonMu sync.Mutex
var canon []string
var canonMap = map[string]string{}

// CanonRegex maps a pattern to the representative of its language: two
// patterns whose automata accept the same strings share a symbol.
func CanonRegex(p string) string {
	canonMu.Lock()
	defer canonMu.Unlock()
	if c, ok := canonMap[p]; ok {
		return c
	}
	for _, q := range canon {
		if eq, ok := RegexEquiv(p, q); ok && eq {
			canonMap[p] = q
			return q
		}
	}
	canon = append(canon, p)
	canonMap[p] = p
	return p
}

// Code points of valid UTF-8.
func ValidUTF8(s *Term) *Term   { return App("validutf8", Bool, s) }
func RunesTo(s, i *Term) *Term  { return App("runesto", Int, s, i) } // code points of s[:i]
func Boundary(s, i *Term) *Term { return App("isbound", Bool, s, i) }
func RuneLen(s, i *Term) *Term  { return App("runelen", Int, s, i) } // bytes of the code point at i

func init() {
	DeclareAux("validutf8", "(declare-fun validutf8 (Str) Bool)")
	DeclareAux("runesto", "(declare-fun runesto (Str Int) Int)")
	DeclareAux("isbound", "(declare-fun isbound (Str Int) Bool)")
	DeclareAux("runelen", "(declare-fun runelen (Str Int) Int)")
	DeclareAux("runes", "(declare-fun runes (Str) Int)")
	ax := []string{
		"(forall ((s Str)) (! (=> (validutf8 s) (and (= (runesto s 0) 0) (= (runesto s (blen s)) (runes s)) (isbound s 0) (isbound s (blen s)))) :pattern ((validutf8 s))))",
		"(forall ((s Str) (i Int)) (! (=> (isbound s i) (and (<= 0 i) (<= i (blen s)) (<= 0 (runesto s i)) (<= (runesto s i) i))) :pattern ((isbound s i))))",
		"(forall ((s Str) (i Int)) (! (=> (and (validutf8 s) (isbound s i) (< i (blen s))) (and (<= 1 (runelen s i)) (<= (runelen s i) 4) (<= (+ i (runelen s i)) (blen s)) (isbound s (+ i (runelen s i))) (= (runesto s (+ i (runelen s i))) (+ 1 (runesto s i))))) :pattern ((runelen s i))))",
		"(forall ((s Str)) (! (and (<= 0 (blen s)) (<= (blen s) 4611686018427387904)) :pattern ((blen s))))",
	}
	all := func(string) []string { return ax }
	bound := func(s string, i int64) bool {
		return i >= 0 && i <= int64(len(s)) && (i == int64(len(s)) || utf8.RuneStart(s[i]))
	}
	Funcs["validutf8"] = &Func{Eval: str1(func(s string) any { return utf8.ValidString(s) }), Axioms: all}
	Funcs["runesto"] = &Func{Eval: func(_ string, a []any) any {
		s, i := a[0].(string), bi(a[1])
		if i < 0 || i > int64(len(s)) {
			return 0
		}
		return utf8.RuneCountInString(s[:i])
	}, Axioms: all}
	Funcs["isbound"] = &Func{Eval: func(_ string, a []any) any { return bound(a[0].(string), bi(a[1])) }, Axioms: all}
	Funcs["runelen"] = &Func{Eval: func(_ string, a []any) any {
		s, i := a[0].(string), bi(a[1])
		if i < 0 || i >= int64(len(s)) {
			return 0
		}
		_, n := utf8.DecodeRuneInString(s[i:])
		return n
	}, Axioms: all}
}
