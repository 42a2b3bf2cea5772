// Package corpus writes the proto files whose generated code is put under
// contract. Every rule family is crossed with the branches of the templates
// that render it; constants sit on the edges of their types.
package corpus

import (
	"fmt"
	"strings"

	"pgvc/gen"
)

// B builds files of messages.
type B struct {
	Files   []gen.File
	prefix  string
	perMsg  int
	perFile int
	head    string
	msgs    []string
	cur     []string
	n       int // fields in the current message
	mi      int // messages so far
	fi      int
	pre     string // declarations every file needs, with %s for the file's suffix
}

func New(prefix string, perMsg, perFile int) *B {
	return &B{prefix: prefix, perMsg: perMsg, perFile: perFile}
}

// Pre sets declarations repeated in every file (names must contain @).
func (b *B) Pre(s string) *B { b.pre = s; return b }

func (b *B) rules(r string) string {
	if r == "" {
		return ""
	}
	return " [(validate.rules)." + r + "]"
}

// F adds a field; r is the text after "(validate.rules).".
func (b *B) F(typ, r string) {
	if b.n >= b.perMsg {
		b.endMsg()
	}
	b.n++
	b.cur = append(b.cur, fmt.Sprintf("  %s f%d = %d%s;", typ, b.n, b.n, b.rules(r)))
}

// Full adds a field with a whole option list.
func (b *B) Full(typ, opts string) {
	if b.n >= b.perMsg {
		b.endMsg()
	}
	b.n++
	if opts != "" {
		opts = " [" + opts + "]"
	}
	b.cur = append(b.cur, fmt.Sprintf("  %s f%d = %d%s;", typ, b.n, b.n, opts))
}

func (b *B) endMsg() {
	if len(b.cur) == 0 {
		return
	}
	s := fmt.Sprintf("message %s%d {\n%s\n}\n", strings.ToUpper(b.prefix[:1])+b.prefix[1:], b.mi, strings.Join(b.cur, "\n"))
	b.cur, b.n = nil, 0
	b.msg(s)
}

func (b *B) msg(s string) {
	b.mi++
	b.msgs = append(b.msgs, s)
	if len(b.msgs) >= b.perFile {
		b.EndFile()
	}
}

// Msg adds a message written out; @ stands for a unique suffix.
func (b *B) Msg(s string) {
	b.endMsg()
	b.msg(strings.ReplaceAll(s, "@", fmt.Sprintf("%s%d", b.prefix, b.mi)))
}

// EndFile closes the current file.
func (b *B) EndFile() {
	b.endMsg2()
	if len(b.msgs) == 0 {
		return
	}
	n := fmt.Sprintf("%s_%d", b.prefix, b.fi)
	b.fi++
	b.Files = append(b.Files, gen.File{Name: n, Body: strings.ReplaceAll(b.pre, "@", fmt.Sprintf("%s%d", b.prefix, b.fi)) + strings.ReplaceAll(strings.Join(b.msgs, ""), "~", fmt.Sprintf("%s%d", b.prefix, b.fi))})
	b.msgs = nil
}

func (b *B) endMsg2() {
	if len(b.cur) > 0 {
		s := fmt.Sprintf("message %s%d {\n%s\n}\n", strings.ToUpper(b.prefix[:1])+b.prefix[1:], b.mi, strings.Join(b.cur, "\n"))
		b.mi++
		b.cur, b.n = nil, 0
		b.msgs = append(b.msgs, s)
	}
}

// Done returns the files.
func (b *B) Done() []gen.File { b.EndFile(); return b.Files }

// Kind is a numeric kind with constants a < b < c < d on its edges.
type Kind struct {
	Name            string
	Lo, A, B, C, Hi string
}

var Kinds = []Kind{
	{"float", "-3.4028235e38", "-1.5", "0.25", "16777217", "3.4028235e38"},
	{"double", "-1.7976931348623157e308", "-1.5", "0.1", "9007199254740993", "1.7976931348623157e308"},
	{"int32", "-2147483648", "-7", "3", "1000", "2147483647"},
	{"int64", "-9223372036854775808", "-7", "3", "9007199254740993", "9223372036854775807"},
	{"uint32", "0", "1", "3", "2147483648", "4294967295"},
	{"uint64", "0", "1", "3", "9223372036854775808", "18446744073709551615"},
	{"sint32", "-2147483648", "-7", "3", "1000", "2147483647"},
	{"sint64", "-9223372036854775808", "-7", "3", "9007199254740993", "9223372036854775807"},
	{"fixed32", "0", "1", "3", "2147483648", "4294967295"},
	{"fixed64", "0", "1", "3", "9223372036854775808", "18446744073709551615"},
	{"sfixed32", "-2147483648", "-7", "3", "1000", "2147483647"},
	{"sfixed64", "-9223372036854775808", "-7", "3", "9007199254740993", "9223372036854775807"},
}

// NumRules are the rule sets of a numeric kind (text inside the braces).
func NumRules(k Kind) []string {
	var out []string
	for _, lo := range []string{"gt", "gte"} {
		out = append(out, fmt.Sprintf("%s: %s", lo, k.A))
		out = append(out, fmt.Sprintf("%s: %s", strings.Replace(lo, "g", "l", 1), k.C))
		for _, hi := range []string{"lt", "lte"} {
			out = append(out, fmt.Sprintf("%s: %s, %s: %s", lo, k.A, hi, k.C), fmt.Sprintf("%s: %s, %s: %s", lo, k.C, hi, k.A))
		}
	}
	out = append(out,
		"const: "+k.B, "const: "+k.Hi,
		fmt.Sprintf("in: [%s, %s, %s]", k.A, k.C, k.Hi),
		fmt.Sprintf("not_in: [%s, %s]", k.Lo, k.B),
		fmt.Sprintf("gte: %s, lte: %s, not_in: [%s]", k.A, k.C, k.B),
		fmt.Sprintf("gt: %s, lt: %s, not_in: [%s]", k.C, k.A, k.Hi),
		fmt.Sprintf("in: [%s]", k.B),
	)
	return out
}

// Numeric crosses kinds, rules and ignore_empty.
func Numeric(deep bool) []gen.File {
	b := New("num", 23, 4)
	for _, k := range Kinds {
		rs := NumRules(k)
		for _, ie := range []string{"", ", ignore_empty: true"} {
			for _, r := range rs {
				b.F(k.Name, fmt.Sprintf("%s = {%s%s}", k.Name, r, ie))
			}
		}
		// the edges themselves
		for _, op := range []string{"lt", "lte", "gt", "gte", "const"} {
			for _, c := range []string{k.Lo, k.Hi, "0"} {
				if c == k.Lo && k.Lo == "0" {
					continue
				}
				b.F(k.Name, fmt.Sprintf("%s = {%s: %s}", k.Name, op, c))
			}
		}
		// zero beside another bound
		for _, lo := range []string{"gt", "gte"} {
			for _, hi := range []string{"lt", "lte"} {
				b.F(k.Name, fmt.Sprintf("%s = {%s: 0, %s: %s}", k.Name, lo, hi, k.C))
				b.F(k.Name, fmt.Sprintf("%s = {%s: %s, %s: 0}", k.Name, lo, k.C, hi))
				if k.Lo != "0" {
					b.F(k.Name, fmt.Sprintf("%s = {%s: 0, %s: %s}", k.Name, lo, hi, k.A))
					b.F(k.Name, fmt.Sprintf("%s = {%s: %s, %s: 0}", k.Name, lo, k.A, hi))
				}
			}
		}
		b.F(k.Name, fmt.Sprintf("%s = {in: [0]}", k.Name))
		b.F(k.Name, fmt.Sprintf("%s = {not_in: [0, %s]}", k.Name, k.C))
		b.F(k.Name, fmt.Sprintf("%s = {ignore_empty: true}", k.Name))
		b.F(k.Name, fmt.Sprintf("%s = {ignore_empty: false, gt: %s}", k.Name, k.B))
		b.F(k.Name, "")
		b.endMsg()
	}
	if deep {
		cs := func(k Kind) []string { return []string{k.Lo, k.A, k.B, k.C, k.Hi} }
		for _, k := range Kinds {
			c := cs(k)
			for _, lo := range []string{"gt", "gte"} {
				for _, hi := range []string{"lt", "lte"} {
					for i := range c {
						for j := range c {
							if i != j {
								b.F(k.Name, fmt.Sprintf("%s = {%s: %s, %s: %s}", k.Name, lo, c[i], hi, c[j]))
							}
						}
					}
				}
			}
			b.endMsg()
		}
	}
	return b.Done()
}
