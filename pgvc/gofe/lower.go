// Package gofe is the Go front end: it type-checks real Go source with
// go/types and lowers it, statement by statement, to the IR.
package gofe

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"strings"

	"pgvc/ir"
)

// Loaded is a parsed and type-checked package.
type Loaded struct {
	Fset  *token.FileSet
	Files map[string]*ast.File // by base name
	Pkg   *types.Package
	Info  *types.Info
	Types map[types.Type]*ir.T
}

// Load type-checks the Go files with imports resolved from export data files.
func Load(pkgPath string, files []string, exports map[string]string) (*Loaded, error) {
	l := &Loaded{Fset: token.NewFileSet(), Files: map[string]*ast.File{}, Types: map[types.Type]*ir.T{}}
	var list []*ast.File
	for _, f := range files {
		af, err := parser.ParseFile(l.Fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		l.Files[filepath.Base(f)] = af
		list = append(list, af)
	}
	imp := importer.ForCompiler(l.Fset, "gc", func(path string) (io.ReadCloser, error) {
		if e, ok := exports[path]; ok && e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})
	l.Info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{}}
	conf := types.Config{Importer: imp}
	p, err := conf.Check(pkgPath, l.Fset, list, l.Info)
	if err != nil {
		return nil, err
	}
	l.Pkg = p
	return l, nil
}

type low struct {
	l    *Loaded
	unit *ir.Unit
	ids  map[types.Object]string
	n    int
}

// Lower translates every function and package variable of the named files
// (all files when names is nil).
func (l *Loaded) Lower(names map[string]bool) *ir.Unit {
	u := &ir.Unit{Funcs: map[string]*ir.Func{}, Globals: map[string]*ir.Glob{}, Types: map[string]*ir.T{}, Methods: map[string]map[string]bool{}}
	w := &low{l: l, unit: u, ids: map[types.Object]string{}}
	for name, f := range l.Files {
		if names != nil && !names[name] {
			continue
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil {
					continue
				}
				obj, _ := l.Info.Defs[d.Name].(*types.Func)
				if obj == nil {
					continue
				}
				fn := w.fun(obj.FullName(), obj.Type().(*types.Signature), d.Recv, d.Type, d.Body)
				fn.At = w.pos(d)
				u.Funcs[obj.FullName()] = fn
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i, n := range vs.Names {
							if n.Name == "_" {
								continue
							}
							obj := l.Info.Defs[n]
							g := &ir.Glob{Name: obj.Pkg().Path() + "." + n.Name, T: w.typ(obj.Type())}
							if len(vs.Values) == len(vs.Names) {
								g.Init = w.expr(vs.Values[i])
							} else if len(vs.Values) > 0 {
								g.Init = &ir.Unsupported{P: w.p(n), Why: "multi-value var"}
							}
							u.Globals[g.Name] = g
						}
					}
				}
			}
		}
	}
	// method sets of the package's named types
	sc := l.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		t := tn.Type()
		u.Types[l.Pkg.Path()+"."+n] = w.typ(t)
		u.Methods[w.typ(t).Name] = methods(t)
		u.Methods[w.typ(types.NewPointer(t)).Name] = methods(types.NewPointer(t))
	}
	return u
}

func methods(t types.Type) map[string]bool {
	m := map[string]bool{}
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		m[ms.At(i).Obj().Name()] = true
	}
	return m
}

func (w *low) pos(n ast.Node) string {
	p := w.l.Fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
}
func (w *low) p(n ast.Node) ir.P { return ir.P{At: w.pos(n)} }

func (w *low) typ(t types.Type) *ir.T {
	if t == nil {
		return &ir.T{K: ir.KVoid, Name: "void"}
	}
	if r, ok := w.l.Types[t]; ok {
		return r
	}
	r := &ir.T{Name: types.TypeString(t, nil)}
	w.l.Types[t] = r
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			r.K = ir.KBool
		case u.Info()&types.IsInteger != 0:
			r.K = ir.KInt
			r.Signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				r.Bits = 8
			case types.Int16, types.Uint16:
				r.Bits = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				r.Bits = 32
			default:
				r.Bits = 64
			}
		case u.Info()&types.IsFloat != 0:
			r.K = ir.KFloat
			r.Bits = 64
			if u.Kind() == types.Float32 {
				r.Bits = 32
			}
		case u.Info()&types.IsString != 0:
			r.K = ir.KStr
		case u.Kind() == types.UntypedNil:
			r.K = ir.KNil
		}
	case *types.Pointer:
		r.K = ir.KPtr
		r.Elem = w.typ(u.Elem())
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			r.K = ir.KStr
			r.Bytes = true
		} else {
			r.K = ir.KSlice
			r.Elem = w.typ(u.Elem())
		}
	case *types.Array:
		r.K = ir.KSlice
		r.Elem = w.typ(u.Elem())
	case *types.Map:
		r.K = ir.KMap
		r.Key = w.typ(u.Key())
		r.Elem = w.typ(u.Elem())
	case *types.Struct:
		r.K = ir.KStruct
		for i := 0; i < u.NumFields(); i++ {
			r.Fields = append(r.Fields, ir.Field{Name: u.Field(i).Name(), T: w.typ(u.Field(i).Type())})
		}
	case *types.Interface:
		r.K = ir.KIface
		for i := 0; i < u.NumMethods(); i++ {
			r.Methods = append(r.Methods, u.Method(i).Name())
		}
	case *types.Signature:
		r.K = ir.KFunc
	case *types.Tuple:
		r.K = ir.KTuple
	}
	if pt, ok := t.(*types.Pointer); ok {
		if _, ok := pt.Elem().(*types.Named); ok {
			w.unit.Methods[r.Name] = methods(t)
		}
	} else if _, ok := t.(*types.Named); ok {
		w.unit.Methods[r.Name] = methods(t)
	}
	return r
}

func (w *low) vr(o types.Object) *ir.Var {
	id, ok := w.ids[o]
	if !ok {
		w.n++
		id = fmt.Sprintf("%s#%d", o.Name(), w.n)
		w.ids[o] = id
	}
	return &ir.Var{ID: id, Name: o.Name(), T: w.typ(o.Type())}
}

func (w *low) fun(name string, sig *types.Signature, recv *ast.FieldList, ft *ast.FuncType, body *ast.BlockStmt) *ir.Func {
	f := &ir.Func{Name: name, Variadic: sig.Variadic()}
	if recv != nil && len(recv.List) == 1 {
		if len(recv.List[0].Names) == 1 {
			if o := w.l.Info.Defs[recv.List[0].Names[0]]; o != nil {
				f.Recv = w.vr(o)
			}
		}
		if f.Recv == nil {
			f.Recv = &ir.Var{ID: "_recv", Name: "_", T: w.typ(sig.Recv().Type())}
		}
	}
	for _, p := range ft.Params.List {
		if len(p.Names) == 0 {
			f.Params = append(f.Params, &ir.Var{ID: "_", Name: "_", T: w.typ(w.l.Info.TypeOf(p.Type))})
		}
		for _, n := range p.Names {
			o := w.l.Info.Defs[n]
			if o == nil {
				f.Params = append(f.Params, &ir.Var{ID: "_", Name: "_"})
				continue
			}
			f.Params = append(f.Params, w.vr(o))
		}
	}
	if ft.Results != nil {
		for _, p := range ft.Results.List {
			if len(p.Names) == 0 {
				f.Results = append(f.Results, &ir.Var{T: w.typ(w.l.Info.TypeOf(p.Type))})
			}
			for _, n := range p.Names {
				if o := w.l.Info.Defs[n]; o != nil {
					f.Results = append(f.Results, w.vr(o))
				} else {
					f.Results = append(f.Results, &ir.Var{T: w.typ(w.l.Info.TypeOf(p.Type))})
				}
			}
		}
	}
	f.Body = w.block(body)
	return f
}

func (w *low) block(b *ast.BlockStmt) *ir.Block {
	return &ir.Block{P: w.p(b), L: w.stmts(b.List)}
}

func (w *low) stmts(l []ast.Stmt) []ir.Stmt {
	var out []ir.Stmt
	for _, s := range l {
		out = append(out, w.stmt(s))
	}
	return out
}

func (w *low) stmt(s ast.Stmt) ir.Stmt {
	if s == nil {
		return nil
	}
	p := w.p(s)
	switch s := s.(type) {
	case *ast.BlockStmt:
		return w.block(s)
	case *ast.EmptyStmt:
		return &ir.Empty{P: p}
	case *ast.ExprStmt:
		return &ir.ExprStmt{P: p, X: w.expr(s.X)}
	case *ast.AssignStmt:
		a := &ir.Assign{P: p, Define: s.Tok == token.DEFINE}
		if s.Tok != token.ASSIGN && s.Tok != token.DEFINE {
			a.Op = strings.TrimSuffix(s.Tok.String(), "=")
		}
		for _, l := range s.Lhs {
			a.Lhs = append(a.Lhs, w.lhs(l))
		}
		if len(s.Rhs) == 1 && len(s.Lhs) == 2 {
			if e := w.commaOK(s.Rhs[0]); e != nil {
				a.Rhs = []ir.Expr{e}
				return a
			}
		}
		for _, r := range s.Rhs {
			a.Rhs = append(a.Rhs, w.expr(r))
		}
		return a
	case *ast.IncDecStmt:
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		return &ir.Assign{P: p, Lhs: []ir.Expr{w.lhs(s.X)}, Op: op, Rhs: []ir.Expr{&ir.Lit{P: p, T: w.typ(w.l.Info.TypeOf(s.X)), I: big.NewInt(1)}}}
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		b := &ir.Block{P: p}
		if gd.Tok == token.VAR {
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				a := &ir.Assign{P: p, Define: true}
				for _, n := range vs.Names {
					a.Lhs = append(a.Lhs, w.lhs(n))
				}
				if len(vs.Values) == 0 {
					for _, n := range vs.Names {
						a.Rhs = append(a.Rhs, &ir.Call{P: p, Name: "zero", TArg: w.typ(w.l.Info.Defs[n].Type()), T: w.typ(w.l.Info.Defs[n].Type())})
					}
				} else if len(vs.Values) == 1 && len(vs.Names) == 2 && w.commaOK(vs.Values[0]) != nil {
					a.Rhs = append(a.Rhs, w.commaOK(vs.Values[0]))
				} else {
					for _, v := range vs.Values {
						a.Rhs = append(a.Rhs, w.expr(v))
					}
				}
				b.L = append(b.L, a)
			}
		}
		// a declaration list shares the enclosing scope; IDs are unique
		if len(b.L) == 1 {
			return b.L[0]
		}
		return b
	case *ast.IfStmt:
		return &ir.If{P: p, Init: w.stmt0(s.Init), C: w.expr(s.Cond), Then: w.block(s.Body), Else: w.stmt0(s.Else)}
	case *ast.ForStmt:
		f := &ir.For{P: p, Init: w.stmt0(s.Init), Post: w.stmt0(s.Post), Body: w.block(s.Body)}
		if s.Cond != nil {
			f.C = w.expr(s.Cond)
		}
		return f
	case *ast.RangeStmt:
		r := &ir.Range{P: p, X: w.expr(s.X), Body: w.block(s.Body), Define: s.Tok == token.DEFINE}
		get := func(e ast.Expr) *ir.Var {
			if e == nil {
				return nil
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					return nil
				}
				if o := w.l.Info.Defs[id]; o != nil {
					return w.vr(o)
				}
				if o := w.l.Info.Uses[id]; o != nil {
					return w.vr(o)
				}
			}
			return &ir.Var{ID: "?unsupported"}
		}
		r.K, r.V = get(s.Key), get(s.Value)
		return r
	case *ast.SwitchStmt:
		sw := &ir.Switch{P: p, Init: w.stmt0(s.Init)}
		if s.Tag != nil {
			sw.Tag = w.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			k := ir.Case{Default: cc.List == nil}
			for _, e := range cc.List {
				k.Vals = append(k.Vals, w.expr(e))
			}
			body := cc.Body
			if n := len(body); n > 0 {
				if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					k.Fall = true
					body = body[:n-1]
				}
			}
			k.Body = w.stmts(body)
			sw.Cases = append(sw.Cases, k)
		}
		return sw
	case *ast.TypeSwitchStmt:
		ts := &ir.TypeSwitch{P: p, Init: w.stmt0(s.Init)}
		var x ast.Expr
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			x = a.X.(*ast.TypeAssertExpr).X
		case *ast.AssignStmt:
			x = a.Rhs[0].(*ast.TypeAssertExpr).X
		}
		ts.X = w.expr(x)
		for _, c := range s.Body.List {
			cc := c.(*ast.CaseClause)
			k := ir.TCase{Default: cc.List == nil}
			for _, e := range cc.List {
				if tv := w.l.Info.Types[e]; tv.IsNil() {
					k.Types = append(k.Types, nil)
				} else {
					k.Types = append(k.Types, w.typ(tv.Type))
				}
			}
			if o := w.l.Info.Implicits[cc]; o != nil {
				k.Bind = w.vr(o)
			}
			k.Body = w.stmts(cc.Body)
			ts.Cases = append(ts.Cases, k)
		}
		return ts
	case *ast.ReturnStmt:
		r := &ir.Return{P: p}
		for _, e := range s.Results {
			r.X = append(r.X, w.expr(e))
		}
		return r
	case *ast.BranchStmt:
		if s.Label == nil {
			switch s.Tok {
			case token.BREAK:
				return &ir.Break{P: p}
			case token.CONTINUE:
				return &ir.Continue{P: p}
			}
		}
		return &ir.Bad{P: p, Why: "branch " + s.Tok.String()}
	case *ast.DeferStmt:
		return &ir.Defer{P: p, X: w.expr(s.Call)}
	}
	return &ir.Bad{P: p, Why: fmt.Sprintf("statement %T", s)}
}

func (w *low) stmt0(s ast.Stmt) ir.Stmt {
	if s == nil {
		return nil
	}
	return w.stmt(s)
}

func (w *low) lhs(e ast.Expr) ir.Expr {
	if id, ok := e.(*ast.Ident); ok {
		if id.Name == "_" {
			return nil
		}
		if o := w.l.Info.Defs[id]; o != nil {
			return w.vr(o)
		}
	}
	return w.expr(e)
}

func (w *low) commaOK(e ast.Expr) ir.Expr {
	for {
		if pe, ok := e.(*ast.ParenExpr); ok {
			e = pe.X
		} else {
			break
		}
	}
	switch x := e.(type) {
	case *ast.TypeAssertExpr:
		return &ir.Assert{P: w.p(e), X: w.expr(x.X), T: w.typ(w.l.Info.TypeOf(x.Type)), OK: true}
	case *ast.IndexExpr:
		if _, ok := w.l.Info.TypeOf(x.X).Underlying().(*types.Map); ok {
			return &ir.CommaOK{P: w.p(e), X: w.expr(x)}
		}
	}
	return nil
}

func (w *low) bad(n ast.Node, f string, a ...any) ir.Expr {
	return &ir.Unsupported{P: w.p(n), Why: fmt.Sprintf(f, a...)}
}

func (w *low) lit(n ast.Node, v constant.Value, t types.Type) ir.Expr {
	it := w.typ(t)
	l := &ir.Lit{P: w.p(n), T: it}
	switch it.K {
	case ir.KBool:
		l.B = constant.BoolVal(v)
	case ir.KInt:
		v = constant.ToInt(v)
		b, ok := new(big.Int).SetString(v.ExactString(), 10)
		if !ok {
			return w.bad(n, "int const %s", v)
		}
		l.I = b
	case ir.KFloat:
		if it.Bits == 32 {
			f, _ := constant.Float32Val(constant.ToFloat(v))
			l.F = float64(f)
		} else {
			l.F, _ = constant.Float64Val(constant.ToFloat(v))
		}
	case ir.KStr:
		l.S = constant.StringVal(v)
	default:
		// constant converted to an interface: keep its default kind
		switch v.Kind() {
		case constant.String:
			l.T = &ir.T{K: ir.KStr, Name: "string"}
			l.S = constant.StringVal(v)
		case constant.Bool:
			l.T = &ir.T{K: ir.KBool, Name: "bool"}
			l.B = constant.BoolVal(v)
		case constant.Int:
			l.T = &ir.T{K: ir.KInt, Name: "int", Bits: 64, Signed: true}
			l.I, _ = new(big.Int).SetString(v.ExactString(), 10)
		case constant.Float:
			l.T = &ir.T{K: ir.KFloat, Name: "float64", Bits: 64}
			l.F, _ = constant.Float64Val(v)
		default:
			return w.bad(n, "const %s", v)
		}
	}
	return l
}

func (w *low) expr(e ast.Expr) ir.Expr {
	tv, has := w.l.Info.Types[e]
	if has && tv.Value != nil {
		return w.lit(e, tv.Value, tv.Type)
	}
	if has && tv.IsNil() {
		return &ir.Nil{P: w.p(e), T: w.typ(tv.Type)}
	}
	p := w.p(e)
	t := w.typ(tv.Type)
	switch x := e.(type) {
	case *ast.ParenExpr:
		return w.expr(x.X)
	case *ast.Ident:
		o := w.l.Info.Uses[x]
		if o == nil {
			o = w.l.Info.Defs[x]
		}
		switch o := o.(type) {
		case *types.Var:
			if o.Parent() == o.Pkg().Scope() {
				return &ir.Global{P: p, Name: o.Pkg().Path() + "." + o.Name(), T: w.typ(o.Type())}
			}
			return w.vrp(o, p)
		case *types.Func:
			return &ir.Global{P: p, Name: "func:" + o.FullName(), T: t}
		case *types.Nil:
			return &ir.Nil{P: p, T: t}
		}
		return w.bad(e, "identifier %s", x.Name)
	case *ast.SelectorExpr:
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := w.l.Info.Uses[id].(*types.PkgName); isPkg {
				o := w.l.Info.Uses[x.Sel]
				if f, ok := o.(*types.Func); ok {
					return &ir.Global{P: p, Name: "func:" + f.FullName(), T: t}
				}
				return &ir.Global{P: p, Name: o.Pkg().Path() + "." + o.Name(), T: w.typ(o.Type())}
			}
		}
		if s := w.l.Info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
			return &ir.Call{P: p, Name: "methodvalue", Recv: w.expr(x.X), Args: nil, T: t, TArg: &ir.T{Name: s.Obj().(*types.Func).FullName()}}
		}
		return w.sel(x, p, t)
	case *ast.CallExpr:
		return w.call(x, p, t)
	case *ast.UnaryExpr:
		if x.Op == token.AND {
			y := x.X
			for {
				if pe, ok := y.(*ast.ParenExpr); ok {
					y = pe.X
				} else {
					break
				}
			}
			if c, ok := y.(*ast.CompositeLit); ok {
				r := w.comp(c)
				if cc, ok := r.(*ir.Comp); ok {
					cc.Addr = true
					cc.T = t
				}
				return r
			}
		}
		return &ir.Un{P: p, Op: x.Op.String(), X: w.expr(x.X), T: t}
	case *ast.StarExpr:
		return &ir.Un{P: p, Op: "*", X: w.expr(x.X), T: t}
	case *ast.BinaryExpr:
		return &ir.Bin{P: p, Op: x.Op.String(), X: w.expr(x.X), Y: w.expr(x.Y), T: t}
	case *ast.IndexExpr:
		if _, ok := w.l.Info.TypeOf(x.X).(*types.Signature); ok {
			return w.bad(e, "generic instance")
		}
		return &ir.Index{P: p, X: w.expr(x.X), I: w.expr(x.Index), T: t}
	case *ast.SliceExpr:
		s := &ir.Slice{P: p, X: w.expr(x.X), T: t}
		if x.Low != nil {
			s.Lo = w.expr(x.Low)
		}
		if x.High != nil {
			s.Hi = w.expr(x.High)
		}
		if x.Max != nil {
			return w.bad(e, "3-index slice")
		}
		return s
	case *ast.CompositeLit:
		return w.comp(x)
	case *ast.TypeAssertExpr:
		return &ir.Assert{P: p, X: w.expr(x.X), T: w.typ(w.l.Info.TypeOf(x.Type))}
	case *ast.FuncLit:
		return &ir.FuncLit{P: p, F: w.fun("func@"+w.pos(x), tv.Type.(*types.Signature), nil, x.Type, x.Body)}
	}
	return w.bad(e, "expression %T", e)
}

func (w *low) vrp(o types.Object, p ir.P) ir.Expr {
	v := w.vr(o)
	v.P = p
	return v
}

// sel lowers a field selection, making embedded steps explicit.
func (w *low) sel(x *ast.SelectorExpr, p ir.P, t *ir.T) ir.Expr {
	s := w.l.Info.Selections[x]
	base := w.expr(x.X)
	if s == nil {
		return w.bad(x, "selector %s", x.Sel.Name)
	}
	cur := s.Recv()
	idx := s.Index()
	for k, i := range idx {
		if pt, ok := cur.Underlying().(*types.Pointer); ok {
			cur = pt.Elem()
		}
		st, ok := cur.Underlying().(*types.Struct)
		if !ok {
			return w.bad(x, "selector path")
		}
		f := st.Field(i)
		cur = f.Type()
		tt := w.typ(cur)
		if k == len(idx)-1 {
			tt = t
		}
		base = &ir.Sel{P: p, X: base, Name: f.Name(), T: tt}
	}
	return base
}

func (w *low) comp(c *ast.CompositeLit) ir.Expr {
	t := w.l.Info.TypeOf(c)
	it := w.typ(t)
	r := &ir.Comp{P: w.p(c), T: it}
	ut := t.Underlying()
	if pt, ok := ut.(*types.Pointer); ok { // elided &T in nested literals
		ut = pt.Elem().Underlying()
		r.Addr = true
	}
	switch u := ut.(type) {
	case *types.Struct:
		for i, e := range c.Elts {
			if kv, ok := e.(*ast.KeyValueExpr); ok {
				r.Flds = append(r.Flds, kv.Key.(*ast.Ident).Name)
				r.Vals = append(r.Vals, w.expr(kv.Value))
			} else {
				r.Flds = append(r.Flds, u.Field(i).Name())
				r.Vals = append(r.Vals, w.expr(e))
			}
		}
	case *types.Map:
		for _, e := range c.Elts {
			kv := e.(*ast.KeyValueExpr)
			r.Keys = append(r.Keys, w.expr(kv.Key))
			r.Vals = append(r.Vals, w.expr(kv.Value))
		}
	case *types.Slice, *types.Array:
		for _, e := range c.Elts {
			if _, ok := e.(*ast.KeyValueExpr); ok {
				return w.bad(c, "indexed composite")
			}
			r.Vals = append(r.Vals, w.expr(e))
		}
	default:
		return w.bad(c, "composite of %s", it.Name)
	}
	return r
}

func (w *low) call(x *ast.CallExpr, p ir.P, t *ir.T) ir.Expr {
	fun := x.Fun
	for {
		if pe, ok := fun.(*ast.ParenExpr); ok {
			fun = pe.X
		} else {
			break
		}
	}
	ftv := w.l.Info.Types[fun]
	c := &ir.Call{P: p, T: t, Spread: x.Ellipsis.IsValid()}
	if ftv.IsType() {
		return &ir.Conv{P: p, T: w.typ(ftv.Type), X: w.expr(x.Args[0])}
	}
	if ftv.IsBuiltin() {
		name := ""
		switch f := fun.(type) {
		case *ast.Ident:
			name = f.Name
		case *ast.SelectorExpr:
			name = f.Sel.Name
		}
		c.Name = name
		args := x.Args
		if name == "make" || name == "new" {
			c.TArg = w.typ(w.l.Info.TypeOf(args[0]))
			args = args[1:]
		}
		for _, a := range args {
			c.Args = append(c.Args, w.expr(a))
		}
		return c
	}
	for _, a := range x.Args {
		c.Args = append(c.Args, w.expr(a))
	}
	switch f := fun.(type) {
	case *ast.Ident:
		if o, ok := w.l.Info.Uses[f].(*types.Func); ok {
			c.Name = o.FullName()
			return c
		}
	case *ast.SelectorExpr:
		if s := w.l.Info.Selections[f]; s != nil {
			if s.Kind() == types.MethodVal {
				o := s.Obj().(*types.Func)
				c.Name = o.FullName()
				c.Recv = w.recvPath(f, s)
				return c
			}
		} else if o, ok := w.l.Info.Uses[f.Sel].(*types.Func); ok {
			c.Name = o.FullName()
			return c
		}
	}
	c.Fn = w.expr(fun)
	return c
}

// recvPath makes promotion through embedded fields explicit.
func (w *low) recvPath(f *ast.SelectorExpr, s *types.Selection) ir.Expr {
	base := w.expr(f.X)
	cur := s.Recv()
	idx := s.Index()
	for _, i := range idx[:len(idx)-1] {
		if pt, ok := cur.Underlying().(*types.Pointer); ok {
			cur = pt.Elem()
		}
		st, ok := cur.Underlying().(*types.Struct)
		if !ok {
			break
		}
		fl := st.Field(i)
		cur = fl.Type()
		base = &ir.Sel{P: w.p(f), X: base, Name: fl.Name(), T: w.typ(cur)}
	}
	return base
}
