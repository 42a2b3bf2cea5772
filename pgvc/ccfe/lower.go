package ccfe

import (
	"fmt"
	"math/big"
	"path/filepath"
	"strconv"
	"strings"

	"pgvc/ir"
)

// Unit is a translated source file.
type Unit struct {
	*ir.Unit
	// Validate[class] is the validation function of a message class.
	Validate map[string]*ir.Func
	// Registered[class] is the class whose Validate is registered for it ("?" unknown).
	Registered map[string]string
	Names      map[string]string // global id -> name
	Src        string
}

type low struct {
	u      *Unit
	src    string
	file   string
	pre    [][]ir.Stmt // statements hoisted before the current one
	isVal  bool        // lowering a function with an error parameter
	errV   *ir.Var
	recs   map[string]*Node // local records by name
	refs   map[string]ir.Expr
	forks  int
	vars   map[string]bool // declared variables of the function
	lib    bool
	incond int
}

type bad struct{ at, why string }

func (l *low) fail(n *Node, f string, a ...any) {
	panic(bad{l.at(n), fmt.Sprintf(f, a...)})
}

func (l *low) at(n *Node) string {
	o := off(n.Range.Begin)
	ln := 1
	if o > 0 && o <= len(l.src) {
		ln += strings.Count(l.src[:o], "\n")
	}
	return fmt.Sprintf("%s:%d", l.file, ln)
}

func off(p Pos) int {
	if p.Exp != nil {
		return p.Exp.Offset
	}
	return p.Offset
}

// text is the source of a node as written.
func (l *low) text(n *Node) string {
	b, e := off(n.Range.Begin), off(n.Range.End)
	tl := n.Range.End.TokLen
	if n.Range.End.Exp != nil {
		tl = n.Range.End.Exp.TokLen
	}
	if b < 0 || e+tl > len(l.src) || b > e+tl {
		return ""
	}
	return l.src[b : e+tl]
}

// Lower translates the declarations of a file.
func Lower(root *Node, src string) *Unit { return lower(root, src, false) }

// LowerLib is Lower for a library: this, statics and objects on the heap are
// given by contracts, and a function's name alone identifies it.
func LowerLib(root *Node, src string) *Unit { return lower(root, src, true) }

func lower(root *Node, src string, lib bool) *Unit {
	u := &Unit{Unit: &ir.Unit{Funcs: map[string]*ir.Func{}, Globals: map[string]*ir.Glob{}, Types: map[string]*ir.T{}, Methods: map[string]map[string]bool{}},
		Validate: map[string]*ir.Func{}, Registered: map[string]string{}, Names: map[string]string{}, Src: src}
	body := readFile(src)
	l := &low{u: u, src: body, file: filepath.Base(src), lib: lib}
	l.decls(root)
	return u
}

func (l *low) decls(n *Node) {
	for _, c := range n.Inner {
		switch c.Kind {
		case "NamespaceDecl", "LinkageSpecDecl":
			l.decls(c)
		case "VarDecl":
			l.globalVar(c)
		case "FunctionDecl":
			l.function(c, "")
		case "CXXRecordDecl":
			for _, m := range c.Inner {
				if m.Kind == "CXXMethodDecl" {
					l.function(m, c.Name+"::")
				}
			}
		case "ClassTemplateSpecializationDecl":
			for _, m := range c.Inner {
				if l.lib && (m.Kind == "CXXMethodDecl" || m.Kind == "CXXConstructorDecl") {
					l.function(m, c.Name+"::")
				}
			}
		case "ClassTemplateDecl":
			for _, r := range c.Inner {
				if r.Kind == "CXXRecordDecl" || r.Kind == "ClassTemplateSpecializationDecl" {
					for _, m := range r.Inner {
						if (m.Kind == "CXXMethodDecl" || l.lib && m.Kind == "CXXConstructorDecl") && r.Kind == "ClassTemplateSpecializationDecl" {
							l.function(m, c.Name+"::")
						}
					}
				}
			}
		}
	}
}

func guard(f func()) (why *bad) {
	defer func() {
		if p := recover(); p != nil {
			b, ok := p.(bad)
			if !ok {
				panic(p)
			}
			why = &b
		}
	}()
	f()
	return
}

// classOf strips qualifiers off a class type.
func classOf(t Ty) string {
	s := t.Desg
	if s == "" {
		s = t.Qual
	}
	return stripT(s)
}

func stripT(s string) string {
	s = strings.TrimSpace(s)
	for {
		o := s
		s = strings.TrimPrefix(s, "const ")
		s = strings.TrimSuffix(s, " const")
		s = strings.TrimSpace(strings.TrimSuffix(s, "&"))
		if s == o {
			return s
		}
	}
}

// ClassName normalises the name of a class.
func ClassName(s string) string { return strings.TrimPrefix(stripT(s), "::") }

func (l *low) globalVar(c *Node) {
	l.u.Names["g:"+c.ID] = c.Name
	t := classOf(c.Type)
	if i := strings.Index(t, "pgv::Validator<"); i >= 0 || strings.Contains(c.Type.Qual, "pgv::Validator<") {
		q := c.Type.Qual
		i := strings.Index(q, "Validator<")
		cls := ClassName(strings.TrimSuffix(strings.TrimSpace(q[i+len("Validator<"):]), ">"))
		target := "?"
		var find func(n *Node)
		find = func(n *Node) {
			if n.Kind == "DeclRefExpr" && n.Ref != nil && n.Ref.Name == "Validate" {
				target = paramClass(n.Ref.Type.Qual)
			}
			for _, x := range n.Inner {
				find(x)
			}
		}
		find(c)
		if _, dup := l.u.Registered[cls]; dup {
			target = "?"
		}
		l.u.Registered[cls] = target
		return
	}
	g := &ir.Glob{Name: "g:" + c.ID, T: ty(c.Type)}
	if why := guard(func() { g.Init = l.init(c) }); why != nil {
		g.Init = &ir.Unsupported{P: ir.P{At: why.at}, Why: why.why}
	}
	l.u.Globals[g.Name] = g
}

// paramClass is the class of the first parameter of a function type.
func paramClass(q string) string {
	i := strings.IndexByte(q, '(')
	if i < 0 {
		return ""
	}
	d := 0
	for k := i + 1; k < len(q); k++ {
		switch q[k] {
		case '<', '(':
			d++
		case '>':
			d--
		case ',', ')':
			if d == 0 {
				return ClassName(q[i+1 : k])
			}
		}
	}
	return ""
}

func (l *low) function(c *Node, prefix string) {
	var body *Node
	var params, inits []*Node
	for _, x := range c.Inner {
		switch x.Kind {
		case "ParmVarDecl":
			params = append(params, x)
		case "CXXCtorInitializer":
			inits = append(inits, x)
		case "CompoundStmt":
			body = x
		}
	}
	if body == nil {
		return
	}
	f := &ir.Func{Name: prefix + c.Name, At: l.at(c)}
	isVal := false
	l.errV = nil
	for _, p := range params {
		v := &ir.Var{ID: p.ID, Name: p.Name, T: ty(p.Type)}
		f.Params = append(f.Params, v)
		if strings.HasSuffix(stripT(p.Type.Qual), "ValidationMsg *") {
			l.errV = v
			isVal = true
		}
	}
	isVal = isVal && strings.HasPrefix(c.Type.Qual, "bool ") && !l.lib
	l.isVal = isVal
	l.recs = map[string]*Node{}
	l.vars = map[string]bool{}
	res := &ir.T{K: ir.KIface, Name: "verdict"}
	if !isVal {
		q := c.Type.Qual
		if i := strings.IndexByte(q, '('); i >= 0 {
			res = ty(Ty{Qual: strings.TrimSpace(q[:i])})
		}
	}
	f.Results = []*ir.Var{{T: res}}
	if why := guard(func() {
		f.Body = &ir.Block{P: ir.P{At: l.at(body)}}
		for _, x := range inits {
			if x.AnyInit != nil && len(x.Inner) == 1 {
				f.Body.L = append(f.Body.L, &ir.ExprStmt{X: &ir.Call{P: f.Body.P, Name: "member init", Recv: &ir.Global{Name: "this"}, Args: []ir.Expr{&ir.Lit{T: &ir.T{K: ir.KStr}, S: x.AnyInit.Name}, l.expr(x.Inner[0])}}})
			}
		}
		f.Body.L = append(f.Body.L, l.block(body.Inner)...)
	}); why != nil {
		f.Body = &ir.Block{L: []ir.Stmt{&ir.Bad{P: ir.P{At: why.at}, Why: why.why}}}
	}
	if c.Name == "Validate" && isVal && len(params) == 2 {
		l.u.Validate[paramClass(c.Type.Qual)] = f
		f.Name = "Validate(" + paramClass(c.Type.Qual) + ")"
	}
	l.u.Funcs[prefix+c.Name+"|"+c.Type.Qual] = f
	if l.lib && prefix != "" {
		l.u.Funcs[c.Name+"|"+c.Type.Qual] = f
	}
}

var ints = map[string]*ir.T{
	"int": {K: ir.KInt, Bits: 32, Signed: true}, "unsigned int": {K: ir.KInt, Bits: 32}, "long": {K: ir.KInt, Bits: 64, Signed: true}, "unsigned long": {K: ir.KInt, Bits: 64},
	"long long": {K: ir.KInt, Bits: 64, Signed: true}, "unsigned long long": {K: ir.KInt, Bits: 64}, "short": {K: ir.KInt, Bits: 16, Signed: true}, "unsigned short": {K: ir.KInt, Bits: 16},
	"char": {K: ir.KInt, Bits: 8, Signed: true}, "signed char": {K: ir.KInt, Bits: 8, Signed: true}, "unsigned char": {K: ir.KInt, Bits: 8},
	"bool": {K: ir.KBool}, "float": {K: ir.KFloat, Bits: 32}, "double": {K: ir.KFloat, Bits: 64},
	"int32_t": {K: ir.KInt, Bits: 32, Signed: true}, "int64_t": {K: ir.KInt, Bits: 64, Signed: true}, "uint32_t": {K: ir.KInt, Bits: 32}, "uint64_t": {K: ir.KInt, Bits: 64},
	"size_t": {K: ir.KInt, Bits: 64}, "ptrdiff_t": {K: ir.KInt, Bits: 64, Signed: true},
}

func ty(t Ty) *ir.T {
	for _, s := range []string{t.Desg, t.Qual} {
		s = stripT(s)
		if s == "" {
			continue
		}
		if b, ok := ints[s]; ok {
			c := *b
			c.Name = s
			return &c
		}
		if isStr(s) {
			return &ir.T{K: ir.KStr, Name: "string"}
		}
	}
	return &ir.T{K: ir.KOther, Name: classOf(t)}
}

func isStr(s string) bool {
	s = stripT(s)
	switch s {
	case "std::basic_string<char>", "std::string", "string", "pgv::ValidationMsg", "ValidationMsg", "std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "__string_type", "basic_string<char>", "basic_string<char, char_traits<char>, allocator<char>>":
		return true
	}
	return false
}

func (l *low) block(ns []*Node) []ir.Stmt {
	var out []ir.Stmt
	for _, n := range ns {
		l.pre = append(l.pre, nil)
		s := l.stmt(n)
		h := l.pre[len(l.pre)-1]
		l.pre = l.pre[:len(l.pre)-1]
		out = append(out, h...)
		out = append(out, s...)
	}
	return out
}

func (l *low) hoist(s ...ir.Stmt) {
	if len(l.pre) == 0 || l.incond > 0 {
		panic(bad{"", "effect in a conditional expression"})
	}
	l.pre[len(l.pre)-1] = append(l.pre[len(l.pre)-1], s...)
}

func (l *low) sub(n *Node) ir.Stmt {
	if n == nil || n.Kind == "" {
		return nil
	}
	saved := l.incond
	l.incond = 0
	defer func() { l.incond = saved }()
	if n.Kind == "CompoundStmt" {
		return &ir.Block{P: ir.P{At: l.at(n)}, L: l.block(n.Inner)}
	}
	return &ir.Block{P: ir.P{At: l.at(n)}, L: l.block([]*Node{n})}
}

func skip(n *Node) *Node {
	for {
		switch n.Kind {
		case "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "SubstNonTypeTemplateParmExpr", "AttributedStmt", "FullExpr":
			if len(n.Inner) >= 1 {
				n = n.Inner[len(n.Inner)-1]
				continue
			}
		}
		return n
	}
}

// deep also looks through casts that change nothing.
func deep(n *Node) *Node {
	for {
		m := skip(n)
		switch m.Kind {
		case "ImplicitCastExpr", "CXXConstCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr":
			switch m.CastKind {
			case "NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "FunctionToPointerDecay", "ArrayToPointerDecay":
				m = m.Inner[0]
			}
		case "CXXConstructExpr":
			if len(m.Inner) == 1 && sameClass(m, m.Inner[0]) {
				m = m.Inner[0]
			}
		}
		if m == n {
			return n
		}
		n = m
	}
}

func (l *low) stmt(n *Node) []ir.Stmt {
	p := ir.P{At: l.at(n)}
	switch n.Kind {
	case "CompoundStmt":
		return []ir.Stmt{l.sub(n)}
	case "NullStmt":
		return nil
	case "DeclStmt":
		var out []ir.Stmt
		for _, d := range n.Inner {
			out = append(out, l.localDecl(d)...)
		}
		return out
	case "IfStmt":
		in := n.Inner
		var init []ir.Stmt
		if n.HasInit || n.HasVar {
			l.fail(n, "declaration in a condition")
		}
		c := l.expr(in[0])
		s := &ir.If{P: p, C: c, Then: l.sub(in[1])}
		if n.HasElse && len(in) > 2 {
			s.Else = l.sub(in[2])
		}
		return append(init, s)
	case "ForStmt":
		return l.forStmt(n)
	case "CXXForRangeStmt":
		return l.rangeFor(n)
	case "SwitchStmt":
		return l.switchStmt(n)
	case "BreakStmt":
		return []ir.Stmt{&ir.Break{P: p}}
	case "ContinueStmt":
		return []ir.Stmt{&ir.Continue{P: p}}
	case "ReturnStmt":
		if len(n.Inner) == 0 {
			return []ir.Stmt{&ir.Return{P: p}}
		}
		e := l.expr(n.Inner[0])
		if l.isVal {
			e = l.verdict(e, p)
		}
		return []ir.Stmt{&ir.Return{P: p, X: []ir.Expr{e}}}
	case "WhileStmt":
		return []ir.Stmt{&ir.For{P: p, C: l.expr(n.Inner[0]), Body: l.sub(n.Inner[1])}}
	}
	return l.exprStmt(n)
}

func (l *low) verdict(e ir.Expr, p ir.P) ir.Expr {
	no := &ir.Comp{P: p, T: &ir.T{K: ir.KStruct, Name: "rejected"}, Flds: []string{"text"}, Vals: []ir.Expr{&ir.Un{P: p, Op: "*", X: l.errV}}}
	yes := &ir.Nil{P: p}
	if b, ok := e.(*ir.Lit); ok && b.T.K == ir.KBool {
		if b.B {
			return yes
		}
		return no
	}
	return &ir.Cond{P: p, C: &ir.Call{P: p, Name: "accepted", Args: []ir.Expr{e}}, A: yes, B: no}
}

func (l *low) exprStmt(n *Node) []ir.Stmt {
	p := ir.P{At: l.at(n)}
	m := skip(n)
	switch m.Kind {
	case "CStyleCastExpr", "CXXFunctionalCastExpr", "CXXStaticCastExpr":
		if m.CastKind == "ToVoid" {
			return nil
		}
	case "CXXThrowExpr":
		return []ir.Stmt{&ir.Throw{P: p}}
	case "BinaryOperator":
		if x := deep(m.Inner[0]); l.lib && m.Opcode == "=" && x.Kind == "CXXOperatorCallExpr" && opName(x) == "operator[]" {
			return []ir.Stmt{&ir.ExprStmt{P: p, X: &ir.Call{P: p, Name: "store[]", Args: []ir.Expr{l.expr(x.Inner[1]), l.expr(x.Inner[2]), l.expr(m.Inner[1])}}}}
		}
		if m.Opcode == "=" {
			return []ir.Stmt{&ir.Assign{P: p, Lhs: []ir.Expr{l.lval(m.Inner[0])}, Rhs: []ir.Expr{l.expr(m.Inner[1])}}}
		}
		if m.Opcode == "," {
			return append(l.exprStmt(m.Inner[0]), l.exprStmt(m.Inner[1])...)
		}
	case "CompoundAssignOperator":
		lv := l.lval(m.Inner[0])
		op := strings.TrimSuffix(m.Opcode, "=")
		t := ty(m.Type)
		var rhs ir.Expr = &ir.Bin{P: p, Op: op, X: l.rv(m.Inner[0]), Y: l.expr(m.Inner[1]), T: t}
		if m.Compl != nil {
			ct := ty(*m.Compl)
			if ct.K == ir.KInt && t.K == ir.KInt && (ct.Bits != t.Bits || ct.Signed != t.Signed) {
				rhs = &ir.Conv{P: p, T: t, X: &ir.Bin{P: p, Op: op, X: &ir.Conv{P: p, T: ct, X: l.rv(m.Inner[0])}, Y: l.expr(m.Inner[1]), T: ct}}
			}
		}
		return []ir.Stmt{&ir.Assign{P: p, Lhs: []ir.Expr{lv}, Rhs: []ir.Expr{rhs}}}
	case "UnaryOperator":
		if m.Opcode == "++" || m.Opcode == "--" {
			t := ty(m.Type)
			one := &ir.Lit{P: p, T: t, I: big.NewInt(1)}
			return []ir.Stmt{&ir.Assign{P: p, Op: m.Opcode[:1], Lhs: []ir.Expr{l.lval(m.Inner[0])}, Rhs: []ir.Expr{one}}}
		}
	case "CXXOperatorCallExpr":
		switch op := opName(m); op {
		case "operator=":
			return []ir.Stmt{&ir.Assign{P: p, Lhs: []ir.Expr{l.lval(m.Inner[1])}, Rhs: []ir.Expr{l.strOf(m.Inner[2])}}}
		case "operator+=":
			lv := l.lval(m.Inner[1])
			return []ir.Stmt{&ir.Assign{P: p, Lhs: []ir.Expr{lv}, Rhs: []ir.Expr{&ir.Call{P: p, Name: "operator+|", Args: []ir.Expr{l.expr(m.Inner[1]), l.strOf(m.Inner[2])}}}}}
		case "operator<<":
			var parts []ir.Expr
			cur := m
			for {
				parts = append([]ir.Expr{l.strOf(cur.Inner[2])}, parts...)
				nx := deep(cur.Inner[1])
				if nx.Kind == "CXXOperatorCallExpr" && opName(nx) == "operator<<" {
					cur = nx
					continue
				}
				if nx.Kind != "DeclRefExpr" {
					l.fail(m, "stream insertion")
				}
				v := l.lval(nx)
				return []ir.Stmt{&ir.Assign{P: p, Lhs: []ir.Expr{v}, Rhs: []ir.Expr{&ir.Call{P: p, Name: "cat", Args: append([]ir.Expr{l.expr(nx)}, parts...)}}}}
			}
		}
	}
	return []ir.Stmt{&ir.ExprStmt{P: p, X: l.expr(m)}}
}

func (l *low) lval(n *Node) ir.Expr {
	n = deep(n)
	p := ir.P{At: l.at(n)}
	switch n.Kind {
	case "DeclRefExpr":
		if n.Ref == nil {
			break
		}
		if _, ok := l.u.Names["g:"+n.Ref.ID]; ok {
			l.fail(n, "assignment to global %s", n.Ref.Name)
		}
		return &ir.Var{P: p, ID: n.Ref.ID, Name: n.Ref.Name, T: ty(n.Type)}
	case "UnaryOperator":
		if n.Opcode == "*" {
			return &ir.Un{P: p, Op: "*", X: l.expr(n.Inner[0]), T: ty(n.Type)}
		}
	}
	l.fail(n, "assignment to %s", n.Kind)
	return nil
}

// rv reads an lvalue node.
func (l *low) rv(n *Node) ir.Expr { return l.expr(n) }

func (l *low) localDecl(d *Node) []ir.Stmt {
	p := ir.P{At: l.at(d)}
	switch d.Kind {
	case "CXXRecordDecl":
		if d.Name == "" {
			l.fail(d, "anonymous record")
		}
		l.recs[d.Name] = d
		return nil
	case "VarDecl":
		if l.lib && d.Storage == "static" && d.TLS == "" {
			l.vars[d.ID] = true
			v := &ir.Var{P: p, ID: d.ID, Name: d.Name, T: ty(d.Type)}
			return []ir.Stmt{&ir.Assign{P: p, Define: true, Lhs: []ir.Expr{v}, Rhs: []ir.Expr{&ir.Call{P: p, Name: "static", Args: []ir.Expr{&ir.Lit{T: &ir.T{K: ir.KStr}, S: l.at(d) + " " + d.Name}, l.init(d)}}}}}
		}
		if d.Storage == "static" || d.Storage == "extern" || d.TLS != "" {
			l.fail(d, "local variable that outlives the call")
		}
		l.vars[d.ID] = true
		v := &ir.Var{P: p, ID: d.ID, Name: d.Name, T: ty(d.Type)}
		q := strings.TrimSpace(d.Type.Qual)
		if strings.HasSuffix(q, "&") && !strings.HasPrefix(q, "const ") && !strings.Contains(q, " const &") && !(l.lib && strings.Contains(classOf(d.Type), "unordered_map<")) {
			l.fail(d, "reference to a mutable object")
		}
		return []ir.Stmt{&ir.Assign{P: p, Define: true, Lhs: []ir.Expr{v}, Rhs: []ir.Expr{l.init(d)}}}
	case "UsingDecl", "TypedefDecl", "TypeAliasDecl", "UsingDirectiveDecl", "StaticAssertDecl", "NamespaceAliasDecl":
		return nil
	}
	l.fail(d, "local %s", d.Kind)
	return nil
}

func (l *low) init(d *Node) ir.Expr {
	p := ir.P{At: l.at(d)}
	var e *Node
	for _, c := range d.Inner {
		if !strings.HasSuffix(c.Kind, "Attr") && c.Kind != "FullComment" {
			e = c
		}
	}
	cls := classOf(d.Type)
	if strings.Contains(cls, "unordered_set<") {
		m := e
		if m != nil {
			m = skip(m)
		}
		if m == nil || m.Kind == "CXXConstructExpr" && len(args(m)) == 0 {
			if err := l.checkSet(cls); err != "" {
				l.fail(d, "%s", err)
			}
			return &ir.Call{P: p, Name: "make", TArg: &ir.T{K: ir.KMap, Name: cls}}
		}
		if strings.Contains(cls, "reference_wrapper") {
			l.fail(d, "unordered_set with initial elements")
		}
	}
	if e == nil {
		t := ty(d.Type)
		switch t.K {
		case ir.KStr:
			return &ir.Lit{P: p, T: t}
		}
		return &ir.Call{P: p, Name: "uninit", TArg: t}
	}
	return l.strTo(d.Type, e)
}

// args are the explicit arguments of a construction or call.
func args(n *Node) []*Node {
	var out []*Node
	for _, c := range n.Inner {
		if c.Kind != "CXXDefaultArgExpr" {
			out = append(out, c)
		}
	}
	return out
}

// checkSet accepts sets of references compared by value.
func (l *low) checkSet(cls string) string {
	i := strings.Index(cls, "unordered_set<")
	ps := splitT(cls[i+len("unordered_set<"):])
	if len(ps) == 1 || !strings.HasPrefix(stripT(ps[0]), "std::reference_wrapper<") {
		if len(ps) == 1 && !strings.Contains(ps[0], "reference_wrapper") {
			return ""
		}
		return "set of " + ps[0]
	}
	if len(ps) < 3 {
		return "set of references without value comparison"
	}
	// equality is that of the referenced values, the hash a function of the value
	name := func(s string) string { return s[strings.LastIndexByte(s, ':')+1:] }
	h, c := l.recs[name(ps[1])], l.recs[name(ps[2])]
	if h == nil || c == nil {
		return "hash or comparison not local"
	}
	cb, hb := opBody(c), opBody(h)
	if cb == nil || hb == nil {
		return "hash or comparison without body"
	}
	eq := deep(cb)
	isGet := func(n *Node, ps []*Node) int {
		n = deep(n)
		if n.Kind == "ImplicitCastExpr" && n.CastKind == "IntegralCast" {
			if it := deep(n.Inner[0]); ty(it.Type).K == ir.KBool {
				n = it
			}
		}
		if n.Kind == "CXXMemberCallExpr" && len(n.Inner) == 1 && n.Inner[0].Kind == "MemberExpr" && (n.Inner[0].Name == "get" || strings.HasPrefix(n.Inner[0].Name, "operator ")) {
			r := deep(n.Inner[0].Inner[0])
			for i, p := range ps {
				if r.Kind == "DeclRefExpr" && r.Ref != nil && r.Ref.ID == p.ID {
					return i
				}
			}
		}
		return -1
	}
	var a, b *Node
	switch {
	case eq.Kind == "BinaryOperator" && eq.Opcode == "==":
		a, b = eq.Inner[0], eq.Inner[1]
	case eq.Kind == "CXXOperatorCallExpr" && opName(eq) == "operator==":
		a, b = eq.Inner[1], eq.Inner[2]
	default:
		return "comparison is not =="
	}
	pc := opParams(c)
	x, y := isGet(a, pc), isGet(b, pc)
	if x < 0 || y < 0 || x == y {
		return "comparison is not that of the two values"
	}
	hv := deep(hb)
	for hv.Kind == "ImplicitCastExpr" {
		hv = deep(hv.Inner[0])
	}
	if hv.Kind != "CXXOperatorCallExpr" || opName(hv) != "operator()" || len(hv.Inner) != 3 || isGet(hv.Inner[2], opParams(h)) != 0 {
		return "hash is not a function of the value"
	}
	if f := deep(hv.Inner[1]); f.Kind != "MemberExpr" || !strings.HasPrefix(classOf(f.Type), "std::hash<") {
		return "hash is not std::hash"
	}
	return ""
}

func opParams(r *Node) []*Node {
	var out []*Node
	for _, m := range r.Inner {
		if m.Kind == "CXXMethodDecl" && m.Name == "operator()" {
			for _, x := range m.Inner {
				if x.Kind == "ParmVarDecl" {
					out = append(out, x)
				}
			}
		}
	}
	return out
}

func opBody(r *Node) *Node {
	for _, m := range r.Inner {
		if m.Kind == "CXXMethodDecl" && m.Name == "operator()" {
			for _, x := range m.Inner {
				if x.Kind == "CompoundStmt" && len(x.Inner) == 1 && x.Inner[0].Kind == "ReturnStmt" && len(x.Inner[0].Inner) == 1 {
					return x.Inner[0].Inner[0]
				}
			}
		}
	}
	return nil
}

func splitT(s string) []string {
	d := 0
	var out []string
	st := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '<', '(':
			d++
		case ')':
			d--
		case '>':
			if d == 0 {
				return append(out, strings.TrimSpace(s[st:i]))
			}
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return out
}

func (l *low) forStmt(n *Node) []ir.Stmt {
	p := ir.P{At: l.at(n)}
	in := n.Inner // init, var, cond, inc, body
	if len(in) != 5 {
		l.fail(n, "for statement")
	}
	blk := &ir.Block{P: p}
	if in[0].Kind != "" {
		blk.L = append(blk.L, l.block([]*Node{in[0]})...)
	}
	if in[1].Kind != "" || in[2].Kind == "" || in[3].Kind == "" {
		l.fail(n, "for statement without condition and step")
	}
	// iteration over an iterator pair
	c := deep(in[2])
	if c.Kind == "CXXOperatorCallExpr" && opName(c) == "operator!=" {
		it, end := deep(c.Inner[1]), deep(c.Inner[2])
		st := deep(in[3])
		if it.Kind == "DeclRefExpr" && end.Kind == "DeclRefExpr" && st.Kind == "CXXOperatorCallExpr" && opName(st) == "operator++" {
			if s := deep(st.Inner[1]); s.Kind == "DeclRefExpr" && s.Ref.ID == it.Ref.ID {
				x := &ir.Call{P: p, Name: "sequence", Args: []ir.Expr{l.expr(it), l.expr(end)}}
				v := &ir.Var{P: p, ID: it.Ref.ID + "*", Name: "*" + it.Ref.Name, T: &ir.T{K: ir.KOther}}
				saved := l.refs
				l.refs = map[string]ir.Expr{it.Ref.ID: v}
				for k, e := range saved {
					l.refs[k] = e
				}
				body := l.sub(in[4])
				l.refs = saved
				blk.L = append(blk.L, &ir.Range{P: p, V: v, X: x, Body: body, Define: true})
				return []ir.Stmt{blk}
			}
		}
		l.fail(n, "iterator loop")
	}
	post := l.exprStmt(in[3])
	if len(post) != 1 {
		l.fail(n, "for step")
	}
	l.incond++
	cond := l.expr(in[2])
	l.incond--
	blk.L = append(blk.L, &ir.For{P: p, C: cond, Post: post[0], Body: l.sub(in[4])})
	return []ir.Stmt{blk}
}

func (l *low) rangeFor(n *Node) []ir.Stmt {
	p := ir.P{At: l.at(n)}
	in := n.Inner
	if len(in) != 8 || in[1].Kind != "DeclStmt" || in[6].Kind != "DeclStmt" {
		l.fail(n, "range for")
	}
	rg := in[1].Inner[0]
	v := in[6].Inner[0]
	q := strings.TrimSpace(v.Type.Qual)
	if strings.HasSuffix(q, "&") && !strings.HasPrefix(q, "const ") && !strings.Contains(q, " const &") {
		l.fail(n, "loop over mutable elements")
	}
	l.vars[v.ID] = true
	x := l.expr(rg.Inner[len(rg.Inner)-1])
	vt := ty(v.Type)
	if strings.Contains(classOf(rg.Type), "protobuf::Map<") {
		k := &ir.Var{P: p, ID: v.ID + ".first", Name: v.Name + ".first"}
		val := &ir.Var{P: p, ID: v.ID + ".second", Name: v.Name + ".second"}
		pair := &ir.Var{P: p, ID: v.ID, Name: v.Name, T: vt}
		mk := &ir.Assign{P: p, Define: true, Lhs: []ir.Expr{pair}, Rhs: []ir.Expr{&ir.Comp{P: p, T: &ir.T{K: ir.KStruct, Name: "pair"}, Flds: []string{"first", "second"}, Vals: []ir.Expr{k, val}}}}
		b := l.sub(in[7])
		return []ir.Stmt{&ir.Range{P: p, K: k, V: val, X: x, Define: true, Body: &ir.Block{P: p, L: []ir.Stmt{mk, b}}}}
	}
	val := &ir.Var{P: p, ID: v.ID, Name: v.Name, T: vt}
	return []ir.Stmt{&ir.Range{P: p, V: val, X: &ir.Call{P: p, Name: "elements", Args: []ir.Expr{x}}, Define: true, Body: l.sub(in[7])}}
}

func (l *low) switchStmt(n *Node) []ir.Stmt {
	p := ir.P{At: l.at(n)}
	if n.HasInit || n.HasVar || len(n.Inner) != 2 || n.Inner[1].Kind != "CompoundStmt" {
		l.fail(n, "switch form")
	}
	s := &ir.Switch{P: p, Tag: l.expr(n.Inner[0])}
	var cur *ir.Case
	var body []*Node
	flush := func() {
		if cur == nil {
			return
		}
		if k := len(body); k > 0 && body[k-1].Kind == "BreakStmt" {
			body = body[:k-1]
		} else {
			cur.Fall = true
		}
		cur.Body = l.block(body)
		s.Cases = append(s.Cases, *cur)
		cur, body = nil, nil
	}
	for _, c := range n.Inner[1].Inner {
		for c != nil && (c.Kind == "CaseStmt" || c.Kind == "DefaultStmt") {
			if cur == nil || len(body) > 0 || cur.Default != (c.Kind == "DefaultStmt") {
				flush()
				cur = &ir.Case{}
			}
			if c.Kind == "DefaultStmt" {
				cur.Default = true
				c = c.Inner[len(c.Inner)-1]
				continue
			}
			cur.Vals = append(cur.Vals, l.constant(c.Inner[0]))
			c = c.Inner[len(c.Inner)-1]
		}
		if c != nil {
			if cur == nil {
				l.fail(n, "statement before the first case")
			}
			body = append(body, c)
		}
	}
	if cur != nil {
		flush()
	}
	if k := len(s.Cases); k > 0 {
		s.Cases[k-1].Fall = false
	}
	return []ir.Stmt{s}
}

func (l *low) constant(n *Node) ir.Expr {
	p := ir.P{At: l.at(n)}
	m := n
	for m != nil {
		if m.Kind == "ConstantExpr" && len(m.Value) > 0 {
			if v, ok := new(big.Int).SetString(m.Str(), 10); ok {
				return &ir.Lit{P: p, T: &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: "int"}, I: v}
			}
		}
		if len(m.Inner) == 0 {
			break
		}
		m = m.Inner[0]
	}
	l.fail(n, "case label")
	return nil
}

func opName(n *Node) string {
	r := deep(n.Inner[0])
	if r.Kind == "DeclRefExpr" && r.Ref != nil {
		return r.Ref.Name
	}
	return "?"
}

// sameClass: a construction from a value of the same class is a copy.
func sameClass(n, a *Node) bool {
	if ty(n.Type).K == ir.KStr {
		return ty(a.Type).K == ir.KStr
	}
	return classOf(n.Type) == classOf(a.Type)
}

// cstring is the array of a string literal.
func (l *low) cstring(n *Node) (string, bool) {
	n = deep(n)
	if n.Kind != "StringLiteral" {
		return "", false
	}
	s, err := unquote(n.Str())
	if err != nil {
		l.fail(n, "string literal %s: %v", n.Str(), err)
	}
	return s, true
}

func unquote(q string) (string, error) {
	if len(q) < 2 || q[0] != '"' || q[len(q)-1] != '"' {
		return "", fmt.Errorf("prefix")
	}
	q = q[1 : len(q)-1]
	var b strings.Builder
	for i := 0; i < len(q); i++ {
		if q[i] != '\\' {
			b.WriteByte(q[i])
			continue
		}
		i++
		switch c := q[i]; c {
		case 'n':
			b.WriteByte('\n')
		case 't':
			b.WriteByte('\t')
		case 'r':
			b.WriteByte('\r')
		case 'a':
			b.WriteByte(7)
		case 'b':
			b.WriteByte(8)
		case 'f':
			b.WriteByte(12)
		case 'v':
			b.WriteByte(11)
		case '\\', '"', '\'', '?':
			b.WriteByte(c)
		case 'x':
			j := i + 1
			for j < len(q) && j < i+3 && strings.IndexByte("0123456789abcdefABCDEF", q[j]) >= 0 {
				j++
			}
			v, err := strconv.ParseUint(q[i+1:j], 16, 8)
			if err != nil {
				return "", err
			}
			b.WriteByte(byte(v))
			i = j - 1
		case 'u', 'U':
			k := 4
			if c == 'U' {
				k = 8
			}
			v, err := strconv.ParseUint(q[i+1:i+1+k], 16, 32)
			if err != nil {
				return "", err
			}
			b.WriteRune(rune(v))
			i += k
		default:
			if c < '0' || c > '7' {
				return "", fmt.Errorf("escape \\%c", c)
			}
			j := i
			v := 0
			for j < len(q) && j < i+3 && q[j] >= '0' && q[j] <= '7' {
				v = v*8 + int(q[j]-'0')
				j++
			}
			b.WriteByte(byte(v))
			i = j - 1
		}
	}
	return b.String(), nil
}

func cut(s string) string {
	if i := strings.IndexByte(s, 0); i >= 0 {
		return s[:i]
	}
	return s
}

// strOf is the expression, a literal array read as a NUL-terminated string.
func (l *low) strOf(n *Node) ir.Expr {
	if s, ok := l.cstring(n); ok {
		return &ir.Lit{P: ir.P{At: l.at(n)}, T: &ir.T{K: ir.KStr, Name: "string"}, S: cut(s)}
	}
	return l.expr(n)
}

func (l *low) strTo(t Ty, n *Node) ir.Expr {
	if ty(t).K == ir.KStr {
		return l.strOf(n)
	}
	return l.expr(n)
}

func (l *low) exprs(ns []*Node) []ir.Expr {
	var out []ir.Expr
	for _, n := range ns {
		out = append(out, l.strOf(n))
	}
	return out
}

func (l *low) expr(n *Node) ir.Expr {
	n = skip(n)
	p := ir.P{At: l.at(n)}
	t := ty(n.Type)
	switch n.Kind {
	case "IntegerLiteral":
		v, ok := new(big.Int).SetString(n.Str(), 10)
		if !ok {
			l.fail(n, "literal %s", n.Str())
		}
		return &ir.Lit{P: p, T: t, I: v}
	case "CharacterLiteral":
		v, _ := new(big.Int).SetString(n.Str(), 10)
		return &ir.Lit{P: p, T: t, I: v}
	case "FloatingLiteral":
		f, err := strconv.ParseFloat(n.Str(), 64)
		if err != nil {
			l.fail(n, "literal %s", n.Str())
		}
		return &ir.Lit{P: p, T: t, F: f}
	case "CXXBoolLiteralExpr":
		return &ir.Lit{P: p, T: t, B: n.Str() == "true"}
	case "StringLiteral":
		s, _ := l.cstring(n)
		return &ir.Lit{P: p, T: &ir.T{K: ir.KStr, Name: "string"}, S: cut(s)}
	case "DeclRefExpr":
		if n.Ref == nil {
			l.fail(n, "reference")
		}
		switch n.Ref.Kind {
		case "VarDecl", "ParmVarDecl", "BindingDecl":
			if e, ok := l.refs[n.Ref.ID]; ok && e == nil {
				l.fail(n, "reference")
			}
			if _, ok := l.u.Names["g:"+n.Ref.ID]; ok {
				return &ir.Global{P: p, Name: "g:" + n.Ref.ID, T: t}
			}
			if l.local(n) {
				return &ir.Var{P: p, ID: n.Ref.ID, Name: n.Ref.Name, T: t}
			}
			return &ir.Global{P: p, Name: n.Ref.Name, T: t}
		case "EnumConstantDecl":
			return &ir.Global{P: p, Name: "enum:" + l.text(n), T: t}
		case "FunctionDecl", "CXXMethodDecl":
			return &ir.Global{P: p, Name: "func:" + n.Ref.Name + "|" + n.Ref.Type.Qual, T: t}
		}
		l.fail(n, "reference to %s", n.Ref.Kind)
	case "ImplicitCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CStyleCastExpr", "CXXConstCastExpr":
		x := n.Inner[len(n.Inner)-1]
		if l.lib {
			switch n.CastKind {
			case "BaseToDerived":
				return l.expr(x)
			case "PointerToBoolean":
				return &ir.Call{P: p, Name: "nonnull", Args: []ir.Expr{l.expr(x)}, T: t}
			case "NullToPointer":
				return &ir.Nil{P: p, T: t}
			}
		}
		switch n.CastKind {
		case "NoOp", "LValueToRValue", "DerivedToBase", "UncheckedDerivedToBase", "ConstructorConversion", "FunctionToPointerDecay", "ArrayToPointerDecay", "UserDefinedConversion", "BitCast":
			if n.CastKind == "BitCast" && !strings.HasSuffix(classOf(n.Type), "*") {
				l.fail(n, "cast BitCast")
			}
			if n.Kind != "ImplicitCastExpr" && ty(n.Type).K == ir.KStr {
				return l.strOf(x)
			}
			return l.expr(x)
		case "IntegralCast", "FloatingCast", "IntegralToFloating":
			if t.K == ir.KOther { // enumerations
				t = &ir.T{K: ir.KInt, Bits: 32, Signed: true, Name: t.Name}
			}
			st := ty(skip(x).Type)
			if st.K == ir.KBool && t.K == ir.KInt {
				return &ir.Cond{P: p, C: l.expr(x), A: &ir.Lit{P: p, T: t, I: big.NewInt(1)}, B: &ir.Lit{P: p, T: t, I: big.NewInt(0)}, T: t}
			}
			return &ir.Conv{P: p, T: t, X: l.expr(x)}
		case "IntegralToBoolean", "FloatingToBoolean":
			return &ir.Bin{P: p, Op: "!=", X: l.expr(x), Y: &ir.Conv{P: p, T: ty(skip(x).Type), X: &ir.Lit{P: p, T: ty(skip(x).Type), I: big.NewInt(0)}}, T: t}
		}
		l.fail(n, "cast %s", n.CastKind)
	case "BinaryOperator":
		switch n.Opcode {
		case "&&", "||":
			a := l.expr(n.Inner[0])
			l.incond++
			b := l.expr(n.Inner[1])
			l.incond--
			return &ir.Bin{P: p, Op: n.Opcode, X: a, Y: b, T: t}
		case "=", ",":
			l.fail(n, "operator %s in an expression", n.Opcode)
		}
		return &ir.Bin{P: p, Op: n.Opcode, X: l.expr(n.Inner[0]), Y: l.expr(n.Inner[1]), T: t}
	case "ConditionalOperator":
		c := l.expr(n.Inner[0])
		l.incond++
		defer func() { l.incond-- }()
		return &ir.Cond{P: p, C: c, A: l.strTo(n.Type, n.Inner[1]), B: l.strTo(n.Type, n.Inner[2]), T: t}
	case "UnaryOperator":
		switch n.Opcode {
		case "!", "-", "+":
			return &ir.Un{P: p, Op: n.Opcode, X: l.expr(n.Inner[0]), T: t}
		case "&":
			x := deep(n.Inner[0])
			if x.Kind == "DeclRefExpr" && l.local(x) {
				return &ir.Un{P: p, Op: "&", X: &ir.Var{P: p, ID: x.Ref.ID, Name: x.Ref.Name, T: ty(x.Type)}}
			}
			if x.Kind == "MemberExpr" {
				if b := deep(x.Inner[0]); b.Kind == "DeclRefExpr" && l.local(b) {
					return &ir.Un{P: p, Op: "&", X: &ir.Var{P: p, ID: b.Ref.ID, Name: b.Ref.Name, T: ty(b.Type)}}
				}
			}
		case "*":
			if l.lib {
				return &ir.Call{P: p, Name: "deref", Args: []ir.Expr{l.expr(n.Inner[0])}, T: t}
			}
			return &ir.Un{P: p, Op: "*", X: l.expr(n.Inner[0]), T: t}
		case "++", "--":
			if n.Postfix {
				break
			}
		}
		l.fail(n, "operator %s", n.Opcode)
	case "UnaryExprOrTypeTraitExpr":
		if n.Name == "sizeof" && len(n.Inner) == 1 {
			if s, ok := l.cstring(n.Inner[0]); ok {
				return &ir.Lit{P: p, T: t, I: big.NewInt(int64(len(s) + 1))}
			}
		}
		l.fail(n, "sizeof")
	case "MemberExpr":
		return &ir.Sel{P: p, X: l.expr(n.Inner[0]), Name: n.Name, T: t}
	case "CXXMemberCallExpr":
		m := skip(n.Inner[0])
		if m.Kind != "MemberExpr" {
			l.fail(n, "member call")
		}
		recv := m.Inner[0]
		rt := classOf(skip(recv).Type)
		if (m.Name == "emplace" || m.Name == "insert") && strings.Contains(rt, "unordered_set<") && len(args(n)) == 2 {
			return l.emplace(n, recv, args(n)[1])
		}
		if b := deep(recv); b.Kind == "CXXOperatorCallExpr" && opName(b) == "operator->" {
			recv = b.Inner[1]
		}
		return &ir.Call{P: p, Name: "." + m.Name, Recv: l.expr(recv), Args: l.exprs(args(n)[1:]), T: t, TArg: &ir.T{Name: rt}}
	case "CXXOperatorCallExpr":
		op := opName(n)
		if op == "operator*" && len(n.Inner) == 2 {
			if r := deep(n.Inner[1]); r.Kind == "DeclRefExpr" && r.Ref != nil {
				if e, ok := l.refs[r.Ref.ID]; ok {
					return e
				}
			}
		}
		return &ir.Call{P: p, Name: op + "|", Args: l.exprs(n.Inner[1:]), T: t, TArg: &ir.T{Name: classOf(n.Type)}}
	case "CallExpr":
		r := deep(n.Inner[0])
		if r.Kind != "DeclRefExpr" || r.Ref == nil {
			l.fail(n, "call of %s", r.Kind)
		}
		return &ir.Call{P: p, Name: r.Ref.Name + "|" + r.Ref.Type.Qual, Args: l.exprs(args(n)[1:]), T: t, TArg: &ir.T{Name: l.text(r)}}
	case "CXXConstructExpr", "CXXTemporaryObjectExpr":
		as := args(n)
		cls := classOf(n.Type)
		if t.K == ir.KStr {
			switch len(as) {
			case 0:
				return &ir.Lit{P: p, T: t}
			case 1:
				return l.strOf(as[0])
			case 2:
				if s, ok := l.cstring(as[0]); ok {
					if k := l.expr(as[1]); k != nil {
						return &ir.Call{P: p, Name: "stringn", Args: []ir.Expr{&ir.Lit{P: p, T: t, S: s}, k}, T: t}
					}
				}
			}
			l.fail(n, "string construction")
		}
		if strings.Contains(cls, "StringPiece") {
			if len(as) == 2 {
				if s, ok := l.cstring(as[0]); ok {
					return &ir.Call{P: p, Name: "stringn", Args: []ir.Expr{&ir.Lit{P: p, T: &ir.T{K: ir.KStr, Name: "string"}, S: s}, l.expr(as[1])}, T: t}
				}
				return &ir.Call{P: p, Name: "piece", Args: l.exprs(as), T: t}
			}
			if len(as) == 1 {
				return l.strOf(as[0])
			}
		}
		if len(as) == 1 && sameClass(n, skip(as[0])) {
			return l.expr(as[0])
		}
		if strings.HasSuffix(cls, "re2::RE2") || cls == "re2::RE2" {
			return &ir.Call{P: p, Name: "RE2", Args: l.exprs(as), T: t}
		}
		if strings.Contains(cls, "basic_ostringstream") {
			return &ir.Lit{P: p, T: &ir.T{K: ir.KStr, Name: "string"}}
		}
		if strings.Contains(cls, "reference_wrapper<") && len(as) == 1 {
			return l.expr(as[0])
		}
		if strings.HasPrefix(cls, "std::set<") || strings.HasPrefix(cls, "std::unordered_set<") {
			if len(as) == 1 {
				if il := initList(as[0]); il != nil {
					return &ir.Call{P: p, Name: "setof", Args: l.exprs(il), T: t, TArg: &ir.T{Name: cls}}
				}
			}
		}
		return &ir.Call{P: p, Name: "new " + cls, Args: l.exprs(as), T: t}
	case "CXXThisExpr":
		if l.lib {
			return &ir.Global{P: p, Name: "this", T: t}
		}
		l.fail(n, "this")
	case "CXXTypeidExpr":
		if l.lib && n.TypeArg != nil {
			return &ir.Call{P: p, Name: "typeid", TArg: &ir.T{Name: n.TypeArg.Qual}}
		}
	case "CXXNewExpr":
		if l.lib && len(n.Inner) == 1 {
			return l.expr(n.Inner[0])
		}
	case "CXXDefaultArgExpr":
		l.fail(n, "default argument")
	}
	l.fail(n, "expression %s", n.Kind)
	return nil
}

func initList(n *Node) []*Node {
	n = skip(n)
	switch n.Kind {
	case "CXXStdInitializerListExpr", "ImplicitCastExpr":
		return initList(n.Inner[0])
	case "InitListExpr":
		if n.Inner == nil {
			return []*Node{}
		}
		return n.Inner
	}
	return nil
}

func (l *low) local(n *Node) bool {
	if n.Ref == nil {
		return false
	}
	if n.Ref.Kind == "ParmVarDecl" {
		return true
	}
	return l.vars[n.Ref.ID]
}

// emplace is a test for membership followed by an insertion.
func (l *low) emplace(n, set, item *Node) ir.Expr {
	p := ir.P{At: l.at(n)}
	l.forks++
	s := l.expr(set)
	it := l.expr(item)
	key := &ir.Var{P: p, ID: fmt.Sprintf("key#%d", l.forks), Name: "key"}
	has := &ir.Var{P: p, ID: fmt.Sprintf("has#%d", l.forks), Name: "has"}
	l.hoist(
		&ir.Assign{P: p, Define: true, Lhs: []ir.Expr{key}, Rhs: []ir.Expr{it}},
		&ir.Assign{P: p, Define: true, Lhs: []ir.Expr{nil, has}, Rhs: []ir.Expr{&ir.CommaOK{P: p, X: &ir.Index{P: p, X: s, I: key}}}},
		&ir.Assign{P: p, Lhs: []ir.Expr{&ir.Index{P: p, X: s, I: key}}, Rhs: []ir.Expr{&ir.Lit{P: p, T: &ir.T{K: ir.KBool}, B: true}}})
	return &ir.Comp{P: p, T: &ir.T{K: ir.KStruct, Name: "pair"}, Flds: []string{"second"}, Vals: []ir.Expr{&ir.Un{P: p, Op: "!", X: has}}}
}
