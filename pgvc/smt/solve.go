package smt

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Printer turns terms into an SMT-LIB script.
type printer struct {
	decl  map[string]string // symbol -> declaration
	order []string
	lits  map[string]*Term // string literals
	apps  map[string]*Term // function symbol -> sample term
	memo  map[*Term]string
}

func sym(n string) string {
	ok := true
	for i := 0; i < len(n); i++ {
		c := n[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!@$", c) >= 0) {
			ok = false
			break
		}
	}
	if ok && n != "" && !(n[0] >= '0' && n[0] <= '9') {
		return n
	}
	var b strings.Builder
	b.WriteString("|")
	for i := 0; i < len(n); i++ {
		c := n[i]
		if c == '|' || c == '\\' || c < 32 || c > 126 {
			fmt.Fprintf(&b, "<%02x>", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteString("|")
	return b.String()
}

func sortName(s Sort) string {
	switch s {
	case F32:
		return "(_ FloatingPoint 8 24)"
	case F64:
		return "(_ FloatingPoint 11 53)"
	}
	return string(s)
}

func litSym(s string) string { return sym("lit:" + s) }

func (p *printer) print(t *Term) string {
	if s, ok := p.memo[t]; ok {
		return s
	}
	s := p.print1(t)
	p.memo[t] = s
	return s
}

func (p *printer) print1(t *Term) string {
	switch t.Op {
	case "true", "false":
		return t.Op
	case "int":
		if t.I.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.I).String() + ")"
		}
		return t.I.String()
	case "str":
		s := litSym(t.Name)
		p.lits[s] = t
		return s
	case "fp":
		if t.Sort == F32 {
			return fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", t.F>>31, (t.F>>23)&0xff, t.F&(1<<23-1))
		}
		return fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", t.F>>63, (t.F>>52)&0x7ff, t.F&(1<<52-1))
	case "var":
		return sym(t.Name)
	case "app":
		n := sym(t.Name)
		if _, ok := p.decl[n]; !ok {
			var as []string
			for _, a := range t.Args {
				as = append(as, sortName(a.Sort))
			}
			p.decl[n] = fmt.Sprintf("(declare-fun %s (%s) %s)", n, strings.Join(as, " "), sortName(t.Sort))
			p.order = append(p.order, n)
			p.apps[t.Name] = t
		}
		if len(t.Args) == 0 {
			return n
		}
		return "(" + n + p.args(t.Args) + ")"
	case "forall", "exists":
		v, lo, hi, body := p.print(t.Args[0]), p.print(t.Args[1]), p.print(t.Args[2]), p.print(t.Args[3])
		pat := ""
		if tr := triggers(t.Args[3], t.Args[0]); len(tr) > 0 && t.Op == "forall" {
			for _, x := range tr {
				pat += " :pattern (" + p.print(x) + ")"
			}
		}
		rng := fmt.Sprintf("(and (<= %s %s) (< %s %s))", lo, v, v, hi)
		if t.Op == "forall" {
			b := fmt.Sprintf("(=> %s %s)", rng, body)
			if pat != "" {
				b = "(! " + b + pat + ")"
			}
			return fmt.Sprintf("(forall ((%s Int)) %s)", v, b)
		}
		return fmt.Sprintf("(exists ((%s Int)) (and %s %s))", v, rng, body)
	case "fp.lt", "fp.leq", "fp.eq", "fp.isNaN", "fp.neg", "and", "or", "not", "ite", "=", "<", "+", "-", "*", "div", "mod":
		return "(" + t.Op + p.args(t.Args) + ")"
	}
	panic("print " + t.Op)
}

func (p *printer) args(as []*Term) string {
	var b strings.Builder
	for _, a := range as {
		b.WriteByte(' ')
		b.WriteString(p.print(a))
	}
	return b.String()
}

// triggers finds applications f(..., v) whose only bound variable is v itself.
func triggers(body, v *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	bound := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		has := false
		for _, f := range t.free {
			if f == v {
				has = true
			}
			if f != v && bound[f] {
				// contains an inner bound variable
			}
		}
		if !has {
			return
		}
		if t.Op == "app" {
			direct := false
			ok := true
			for _, a := range t.Args {
				if a == v {
					direct = true
				} else {
					for _, f := range a.free {
						if f == v || bound[f] {
							ok = false
						}
					}
				}
			}
			if direct && ok {
				out = append(out, t)
			}
		}
		if t.Op == "forall" || t.Op == "exists" {
			bound[t.Args[0]] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	rec(body)
	if len(out) > 4 {
		out = out[:4]
	}
	return out
}

// Script renders the satisfiability query for the conjunction of fs.
func Script(fs []*Term, want []*Term) (string, []*Term) {
	p := &printer{decl: map[string]string{}, lits: map[string]*Term{}, apps: map[string]*Term{}, memo: map[*Term]string{}}
	free := map[*Term]bool{}
	var asserts []string
	for _, f := range fs {
		asserts = append(asserts, "(assert "+p.print(f)+")")
		for _, v := range f.free {
			free[v] = true
		}
	}
	var wanted []*Term
	for _, w := range want {
		ok := true
		for _, v := range w.free {
			if !free[v] {
				ok = false
			}
		}
		if ok {
			p.print(w)
			wanted = append(wanted, w)
		}
	}
	var b strings.Builder
	b.WriteString("(declare-sort Str 0)\n(declare-sort Ref 0)\n")
	// axioms first (they may mention further symbols declared by the function itself)
	done := map[string]bool{}
	var ax []string
	for {
		n := 0
		var names []string
		for name := range p.apps {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			if done[name] {
				continue
			}
			done[name] = true
			n++
			if f, ok := Funcs[BaseName(name)]; ok && f.Axioms != nil {
				ax = append(ax, f.Axioms(name)...)
			}
		}
		if n == 0 {
			break
		}
	}
	var lits []string
	for s := range p.lits {
		lits = append(lits, s)
	}
	// Axioms over strings mention the empty literal and the basic functions.
	text := strings.Join(ax, "\n")
	if strings.Contains(text, litSym("")) {
		if _, ok := p.lits[litSym("")]; !ok {
			p.lits[litSym("")] = StrC("")
			lits = append(lits, litSym(""))
		}
	}
	sort.Strings(lits)
	for _, l := range lits {
		fmt.Fprintf(&b, "(declare-fun %s () Str)\n", l)
	}
	if len(lits) > 1 {
		fmt.Fprintf(&b, "(assert (distinct %s))\n", strings.Join(lits, " "))
	}
	var vs []*Term
	for v := range free {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	for _, v := range vs {
		fmt.Fprintf(&b, "(declare-fun %s () %s)\n", sym(v.Name), sortName(v.Sort))
	}
	for _, n := range p.order {
		b.WriteString(p.decl[n] + "\n")
	}
	// functions named only in axioms
	for name, d := range axiomDecls {
		s := sym(name)
		if _, ok := p.decl[s]; !ok && strings.Contains(text, s) {
			b.WriteString(d + "\n")
		}
	}
	for _, a := range ax {
		b.WriteString("(assert " + a + ")\n")
	}
	// Facts about the library functions on the literals present.
	for _, l := range lits {
		t := p.lits[l]
		for name, s := range p.apps {
			f := Funcs[BaseName(name)]
			if f == nil || f.Eval == nil || len(s.Args) != 1 || s.Args[0].Sort != Str {
				continue
			}
			if r := App(name, s.Sort, t); r.IsConst() && r.Sort != Str {
				b.WriteString(fmt.Sprintf("(assert (= (%s %s) %s))\n", sym(name), l, p.print(r)))
			}
		}
	}
	for _, a := range asserts {
		b.WriteString(a + "\n")
	}
	return b.String(), wanted
}

var axiomDecls = map[string]string{}

// DeclareAux registers a symbol that may occur only in axioms.
func DeclareAux(name, decl string) { axiomDecls[name] = decl }

// Stats of all solver use in this process.
var Stats struct {
	Queries, Unsat, Sat, Unknown int64
	CVC5                         int64
	Nanos                        int64
	MaxNanos                     int64
}

type Result struct {
	Status string // "unsat","sat","unknown"
	Solver string
	Model  string
	Script string
	Why    string
	Dur    time.Duration
}

// TimeoutMS bounds each solver call.
var TimeoutMS = 10000

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var (
	poolMu sync.Mutex
	pool   []*z3proc
	sem    = make(chan struct{}, 8)
)

func getProc() (*z3proc, error) {
	poolMu.Lock()
	if n := len(pool); n > 0 {
		p := pool[n-1]
		pool = pool[:n-1]
		poolMu.Unlock()
		return p, nil
	}
	poolMu.Unlock()
	c := exec.Command("z3", "-in", "-memory:3000")
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	return &z3proc{c, in, bufio.NewReaderSize(out, 1<<16)}, nil
}

func putProc(p *z3proc) { poolMu.Lock(); pool = append(pool, p); poolMu.Unlock() }

func (p *z3proc) kill() { p.in.Close(); p.cmd.Process.Kill(); p.cmd.Wait() }

// Shutdown ends idle solver processes.
func Shutdown() {
	poolMu.Lock()
	defer poolMu.Unlock()
	for _, p := range pool {
		p.kill()
	}
	pool = nil
}

var cacheMu sync.Mutex
var cache = map[string]*Result{}

// Check decides satisfiability of the conjunction of fs; with a "sat" answer
// the values of the terms in want are reported in Model.
func Check(fs []*Term, want []*Term) *Result { return CheckT(fs, want, TimeoutMS) }

// CheckT is Check with a time limit in milliseconds.
func CheckT(fs []*Term, want []*Term, ms int) *Result {
	f := And(fs...)
	if f == False {
		atomic.AddInt64(&Stats.Queries, 1)
		atomic.AddInt64(&Stats.Unsat, 1)
		return &Result{Status: "unsat", Solver: "simplifier"}
	}
	script, wanted := Script([]*Term{f}, want)
	cacheMu.Lock()
	if r, ok := cache[script]; ok {
		cacheMu.Unlock()
		return r
	}
	cacheMu.Unlock()
	sem <- struct{}{}
	defer func() { <-sem }()
	atomic.AddInt64(&Stats.Queries, 1)
	start := time.Now()
	r := portfolio(script, wanted, ms)
	r.Script = script
	r.Dur = time.Since(start)
	atomic.AddInt64(&Stats.Nanos, int64(r.Dur))
	for {
		m := atomic.LoadInt64(&Stats.MaxNanos)
		if int64(r.Dur) <= m || atomic.CompareAndSwapInt64(&Stats.MaxNanos, m, int64(r.Dur)) {
			break
		}
	}
	switch r.Status {
	case "unsat":
		atomic.AddInt64(&Stats.Unsat, 1)
	case "sat":
		atomic.AddInt64(&Stats.Sat, 1)
	default:
		atomic.AddInt64(&Stats.Unknown, 1)
	}
	if r.Status != "unknown" {
		cacheMu.Lock()
		cache[script] = r
		cacheMu.Unlock()
	}
	return r
}

// portfolio asks z3 and, when it has no quick answer, cvc5 beside it.
func portfolio(script string, want []*Term, ms int) *Result {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	zc := make(chan *Result, 1)
	go func() { zc <- runZ3(ctx, script, want, ms) }()
	select {
	case r := <-zc:
		if r.Status != "unknown" {
			return r
		}
		zc <- r
	case <-time.After(1500 * time.Millisecond):
	}
	cc := make(chan *Result, 1)
	go func() { cc <- runCVC5(ctx, script, ms) }()
	var z *Result
	for i := 0; i < 2; i++ {
		select {
		case r := <-zc:
			if r.Status != "unknown" {
				return r
			}
			z = r
		case r := <-cc:
			if r.Status == "unsat" {
				atomic.AddInt64(&Stats.CVC5, 1)
				return r
			}
		}
	}
	return z
}

func runZ3(ctx context.Context, script string, want []*Term, ms int) *Result {
	p, err := getProc()
	if err != nil {
		return &Result{Status: "unknown", Solver: "z3", Model: err.Error()}
	}
	type ans struct {
		status, model string
		err           error
	}
	ch := make(chan ans, 1)
	go func() {
		var b bytes.Buffer
		fmt.Fprintf(&b, "(reset)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", ms)
		b.WriteString(script)
		b.WriteString("(check-sat)\n(echo \"<<end>>\")\n")
		if _, err := p.in.Write(b.Bytes()); err != nil {
			ch <- ans{err: err}
			return
		}
		read := func() (string, error) {
			var sb strings.Builder
			for {
				l, err := p.out.ReadString('\n')
				if err != nil {
					return "", err
				}
				if strings.TrimSpace(l) == "<<end>>" {
					return strings.TrimSpace(sb.String()), nil
				}
				sb.WriteString(l)
			}
		}
		st, err := read()
		if err != nil {
			ch <- ans{err: err}
			return
		}
		model := ""
		if st == "sat" && len(want) > 0 {
			pr := &printer{decl: map[string]string{}, lits: map[string]*Term{}, apps: map[string]*Term{}, memo: map[*Term]string{}}
			var mb bytes.Buffer
			mb.WriteString("(get-value (")
			for _, w := range want {
				mb.WriteString(pr.print(w) + " ")
			}
			mb.WriteString("))\n(echo \"<<end>>\")\n")
			p.in.Write(mb.Bytes())
			model, err = read()
		}
		ch <- ans{st, model, err}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			p.kill()
			return &Result{Status: "unknown", Solver: "z3", Model: a.err.Error()}
		}
		putProc(p)
		if a.status != "sat" && a.status != "unsat" {
			if os.Getenv("PGVC_DEBUG") != "" && a.status != "unknown" && a.status != "timeout" {
				fmt.Fprintln(os.Stderr, "z3:", a.status, "\n", script)
			}
			return &Result{Status: "unknown", Solver: "z3", Model: a.status}
		}
		return &Result{Status: a.status, Solver: "z3", Model: a.model}
	case <-ctx.Done():
		p.kill()
		return &Result{Status: "unknown", Solver: "z3", Model: "stopped"}
	case <-time.After(time.Duration(ms+5000) * time.Millisecond):
		p.kill()
		return &Result{Status: "unknown", Solver: "z3", Model: "timeout"}
	}
}

func runCVC5(ctx context.Context, script string, ms int) *Result {
	ctx, cancel := context.WithTimeout(ctx, time.Duration(ms+3000)*time.Millisecond)
	defer cancel()
	c := exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "-")
	c.Stdin = strings.NewReader("(set-logic ALL)\n" + script + "(check-sat)\n")
	out, _ := c.Output()
	s := strings.TrimSpace(string(out))
	if s == "unsat" || s == "sat" {
		return &Result{Status: s, Solver: "cvc5"}
	}
	return &Result{Status: "unknown", Solver: "cvc5", Model: s}
}

// ValidT is Valid with a time limit in milliseconds.
func ValidT(hyps []*Term, goal *Term, ms int) *Result {
	return CheckT(append(append([]*Term{}, hyps...), Not(goal)), nil, ms)
}

// Valid reports whether hyps imply goal.
func Valid(hyps []*Term, goal *Term, want []*Term) *Result {
	return Check(append(append([]*Term{}, hyps...), Not(goal)), want)
}

// SymName is the SMT-LIB symbol of a function name; SymOf of a literal.
func SymName(n string) string { return sym(n) }
func SymOf(t *Term) string    { return litSym(t.Name) }
