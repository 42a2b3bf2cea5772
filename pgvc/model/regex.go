package model

import (
	"regexp/syntax"
	"sort"
	"unicode"
	"unicode/utf8"
)

// RegexEquiv decides whether two patterns (unanchored search over the rune
// sequence of the input) match the same strings, by simultaneous subset
// construction over the partition of runes induced by both programs. The
// second result is false when the state limit was hit or a pattern is invalid.
func RegexEquiv(p, q string) (eq, ok bool) {
	if p == q {
		return true, true
	}
	_, diff, ok := RegexDiff(p, q)
	return !diff, ok
}

// RegexDiff returns a string on which the two patterns differ, if any.
func RegexDiff(p, q string) (w string, diff, ok bool) {
	a, err := prog(p)
	if err != nil {
		return "", false, false
	}
	b, err := prog(q)
	if err != nil {
		return "", false, false
	}
	cuts := map[rune]bool{0: true, utf8.MaxRune + 1: true, '\n': true, '\n' + 1: true, '0': true, '9' + 1: true, 'A': true, 'Z' + 1: true, '_': true, '_' + 1: true, 'a': true, 'z' + 1: true}
	for _, pr := range []*syntax.Prog{a, b} {
		for _, in := range pr.Inst {
			switch in.Op {
			case syntax.InstRune:
				r := in.Rune
				if len(r) == 1 {
					// fold
					for f := range cutsFold(r[0], syntax.Flags(in.Arg)&syntax.FoldCase != 0) {
						cuts[f] = true
						cuts[f+1] = true
					}
					continue
				}
				for i := 0; i+1 < len(r); i += 2 {
					cuts[r[i]] = true
					cuts[r[i+1]+1] = true
				}
			case syntax.InstRune1:
				cuts[in.Rune[0]] = true
				cuts[in.Rune[0]+1] = true
			}
		}
	}
	var cs []rune
	for c := range cuts {
		if c >= 0 && c <= utf8.MaxRune {
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	type pair struct{ x, y string }
	type node struct {
		sx, sy *rstate
		path   string
	}
	sx, sy := initState(a), initState(b)
	seen := map[pair]bool{{sx.key(), sy.key()}: true}
	queue := []node{{sx, sy, ""}}
	for len(queue) > 0 {
		n := queue[0]
		queue = queue[1:]
		if n.sx.acceptsEnd(a) != n.sy.acceptsEnd(b) {
			return n.path, true, true
		}
		if len(seen) > 20000 {
			return "", false, false
		}
		for _, c := range cs {
			if c >= 0xD800 && c <= 0xDFFF {
				c = 0xE000
			}
			mx, my := n.sx.step(a, c), n.sy.step(b, c)
			k := pair{mx.key(), my.key()}
			if !seen[k] {
				seen[k] = true
				queue = append(queue, node{mx, my, n.path + string(c)})
			}
		}
	}
	return "", false, true
}

func cutsFold(r rune, fold bool) map[rune]bool {
	m := map[rune]bool{r: true}
	if fold {
		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
			m[f] = true
		}
	}
	return m
}

func prog(p string) (*syntax.Prog, error) {
	re, err := syntax.Parse(p, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return syntax.Compile(re.Simplify())
}

// rstate: the set of instructions waiting for a rune (before closing over the
// assertions at the current position), the previous rune, and whether a match
// was already found.
type rstate struct {
	pcs  []uint32 // entry pcs, not yet closed
	prev rune     // -1 at start
	done bool
}

func initState(p *syntax.Prog) *rstate {
	return &rstate{pcs: []uint32{uint32(p.Start)}, prev: -1}
}

func (s *rstate) key() string {
	if s.done {
		return "D"
	}
	b := make([]byte, 0, len(s.pcs)*2+4)
	cls := prevClass(s.prev)
	b = append(b, cls)
	for _, x := range s.pcs {
		b = append(b, byte(x), byte(x>>8))
	}
	return string(b)
}

func prevClass(r rune) byte {
	switch {
	case r < 0:
		return 0
	case r == '\n':
		return 1
	case syntax.IsWordChar(r):
		return 2
	}
	return 3
}

func closure(p *syntax.Prog, pcs []uint32, prev, next rune) (runes []uint32, match bool) {
	flags := syntax.EmptyOpContext(prev, next)
	seen := map[uint32]bool{}
	var visit func(pc uint32)
	visit = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		in := p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			visit(in.Out)
			visit(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			visit(in.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(in.Arg)&^flags == 0 {
				visit(in.Out)
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			runes = append(runes, pc)
		}
	}
	for _, pc := range pcs {
		visit(pc)
	}
	return
}

func (s *rstate) acceptsEnd(p *syntax.Prog) bool {
	if s.done {
		return true
	}
	_, m := closure(p, s.pcs, s.prev, -1)
	return m
}

func (s *rstate) step(p *syntax.Prog, c rune) *rstate {
	if s.done {
		return s
	}
	rs, m := closure(p, s.pcs, s.prev, c)
	if m {
		return &rstate{done: true}
	}
	next := map[uint32]bool{uint32(p.Start): true}
	for _, pc := range rs {
		if p.Inst[pc].MatchRune(c) {
			next[p.Inst[pc].Out] = true
		}
	}
	n := &rstate{prev: c}
	for pc := range next {
		n.pcs = append(n.pcs, pc)
	}
	sort.Slice(n.pcs, func(i, j int) bool { return n.pcs[i] < n.pcs[j] })
	return n
}
