package plug

import (
	"fmt"
	"strings"

	"pgvc/gen"
	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/sym"
)

// Contracts of the functions of the templates packages.

const (
	tplPkg    = "github.com/envoyproxy/protoc-gen-validate/templates"
	sharedPkg = tplPkg + "/shared"
	goPkg     = tplPkg + "/goshared"
)

// unit loads a package once.
func (p *P) unit(e *gen.Env, dir string) *ir.Unit {
	if u, ok := p.units[dir]; ok {
		return u
	}
	if p.units == nil {
		p.units = map[string]*ir.Unit{}
	}
	_, u, err := LoadPkg(e, dir)
	if err != nil {
		p.Unsup = append(p.Unsup, dir+": "+err.Error())
		u = nil
	}
	if u != nil {
		for n := range p.W.GoMsg {
			for _, t := range []string{n, "*" + n} {
				if u.Methods[t] == nil {
					u.Methods[t] = map[string]bool{}
				}
			}
		}
	}
	p.units[dir] = u
	return u
}

// call runs a function of a unit.
func (p *P) call(u *ir.Unit, what, full string, kind *string, recv sym.Val, mk func(x *sym.X, st *sym.State) []sym.Val, done func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term)) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(sym.Unsup); ok {
				p.Unsup = append(p.Unsup, what+": "+s.Error())
				return
			}
			panic(r)
		}
	}()
	if u == nil {
		return
	}
	f := u.Funcs[full]
	if f == nil {
		p.Unsup = append(p.Unsup, what+": there is no function "+full)
		return
	}
	p.H.Kind = kind
	defer func() { p.H.Kind = nil }()
	x := sym.NewX(u, p.H)
	st := sym.NewState()
	args := mk(x, st)
	res := x.Inline(st, f, full, recv, args)
	t := smt.False
	for _, e := range st.Exits {
		if e.Kind == sym.Thr {
			t = smt.Or(t, e.G)
		}
	}
	for f := range x.Funcs {
		p.Funcs[f] = true
	}
	p.Loops += x.Loops
	done(x, st, res, t)
}

// cat is the canonical concatenation of texts.
func cat(ts ...*smt.Term) *smt.Term {
	var flat []*smt.Term
	var rec func(t *smt.Term)
	rec = func(t *smt.Term) {
		if t.Op == "app" && t.Name == "cat" {
			rec(t.Args[0])
			rec(t.Args[1])
			return
		}
		if t.Op == "str" {
			if t.Name == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].Op == "str" {
				flat[n-1] = smt.StrC(flat[n-1].Name + t.Name)
				return
			}
		}
		flat = append(flat, t)
	}
	for _, t := range ts {
		rec(t)
	}
	if len(flat) == 0 {
		return smt.StrC("")
	}
	r := flat[len(flat)-1]
	for i := len(flat) - 2; i >= 0; i-- {
		r = smt.App("cat", smt.Str, flat[i], r)
	}
	return r
}

func itoa(t *smt.Term) *smt.Term { return smt.App("itoa", smt.Str, t) }

// text is the term of a text value.
func text(v sym.Val) (*smt.Term, bool) {
	switch u := v.(type) {
	case sym.TV:
		if u.T.Sort == smt.Str {
			return u.T, true
		}
		if u.T.Sort == smt.Int {
			return itoa(u.T), true
		}
	case sym.TypedV:
		return text(u.V)
	case sym.OpaqueV:
		if u.Kind == "pname" {
			return smt.App("pname", smt.Str, u.T), true
		}
		if strings.HasPrefix(u.Kind, "%") && len(u.Args) == 1 {
			if t, ok := text(u.Args[0]); ok {
				return smt.App("fmt"+u.Kind, smt.Str, t), true
			}
		}
	case sym.CatV:
		var ts []*smt.Term
		for _, p := range u.Parts {
			if p.Arg == nil {
				ts = append(ts, smt.StrC(p.Lit))
				continue
			}
			t, ok := text(p.Arg)
			if !ok {
				return nil, false
			}
			ts = append(ts, t)
		}
		return cat(ts...), true
	case sym.UnionV:
		var r *smt.Term
		for i := len(u) - 1; i >= 0; i-- {
			t, ok := text(u[i].V)
			if !ok {
				return nil, false
			}
			if r == nil {
				r = t
			} else {
				r = smt.Ite(u[i].G, t, r)
			}
		}
		return r, r != nil
	}
	return nil, false
}

// refOf is the reference of a message value; a fresh empty message is its own.
func refOf(v sym.Val) (*smt.Term, bool) {
	switch u := v.(type) {
	case sym.MsgV:
		return u.Ref, true
	case sym.NilV:
		return nilRef, true
	case sym.OpaqueV:
		return u.T, true
	case sym.TypedV:
		return refOf(u.V)
	case sym.StructV:
		return smt.Var("empty!"+u.Ty[strings.LastIndexByte(u.Ty, '.')+1:], smt.Ref), true
	case sym.UnionV:
		var r *smt.Term
		for i := len(u) - 1; i >= 0; i-- {
			t, ok := refOf(u[i].V)
			if !ok {
				return nil, false
			}
			if r == nil {
				r = t
			} else {
				r = smt.Ite(u[i].G, t, r)
			}
		}
		return r, r != nil
	}
	return nil, false
}

var nilRef = smt.App("nilref", smt.Ref)

// ---- paths

func fName(f *smt.Term) *smt.Term    { return smt.App("pname", smt.Str, f) }
func fOpts(f *smt.Term) *smt.Term    { return smt.App("pf.opts", smt.Ref, f) }
func pDir(t *smt.Term) *smt.Term     { return smt.App("path.dir", smt.Str, t) }
func pBase(t *smt.Term) *smt.Term    { return smt.App("path.base", smt.Str, t) }
func pExt(t *smt.Term) *smt.Term     { return smt.App("path.ext", smt.Str, t) }
func pStem(t *smt.Term) *smt.Term    { return smt.App("path.stem", smt.Str, t) }
func pJoin(a, b *smt.Term) *smt.Term { return smt.App("path.join", smt.Str, a, b) }
func setExt(p, e *smt.Term) *smt.Term {
	return pJoin(pDir(p), cat(pStem(p), e))
}
func replaceAll(s, a, b *smt.Term) *smt.Term { return smt.App("text.replaceall", smt.Str, s, a, b) }
func javaName(s *smt.Term) *smt.Term         { return smt.App("java.name", smt.Str, s) }
func optHas(n string, f *smt.Term) *smt.Term { return smt.App("opts.has."+n, smt.Bool, f) }
func optStr(n string, f *smt.Term) *smt.Term { return smt.App("opts."+n, smt.Str, f) }
func nDeps(f *smt.Term) *smt.Term            { return smt.App("pf.ndeps", smt.Int, f) }
func depAt(f, i *smt.Term) *smt.Term         { return smt.App("pf.dep", smt.Str, f, i) }
func nEnums(f *smt.Term) *smt.Term           { return smt.App("pfile.nenums", smt.Int, f) }
func enumAt(f, i *smt.Term) *smt.Term        { return smt.App("pfile.enum", smt.Ref, f, i) }
func nSvcs(f *smt.Term) *smt.Term            { return smt.App("pfile.nsvcs", smt.Int, f) }
func svcAt(f, i *smt.Term) *smt.Term         { return smt.App("pfile.svc", smt.Ref, f, i) }
func goOut(f *smt.Term) *smt.Term            { return smt.App("path.go", smt.Str, f) }

func pathV(t *smt.Term) sym.Val { return sym.TV{T: t, Y: filePath} }

// tmplCall applies the contracts of what the templates packages use.
func (h *Hooks) tmplCall(x *sym.X, st *sym.State, name, meth string, recv sym.Val, args []sym.Val, at string) (sym.Val, bool) {
	txt := func(i int) *smt.Term {
		if i < len(args) {
			if t, ok := text(args[i]); ok {
				return t
			}
		}
		return nil
	}
	if t, ok := recv.(sym.TV); ok && t.Y != nil && t.Y.Name == pgs+"FilePath" {
		h.use("protoc-gen-star: FilePath's Dir, Base, Ext, BaseName, SetExt, SetBase, Push as documented (path/filepath)")
		switch meth {
		case "String":
			return sym.StrV(t.T), true
		case "Dir", "Pop":
			return pathV(pDir(t.T)), true
		case "Base":
			return sym.StrV(pBase(t.T)), true
		case "Ext":
			return sym.StrV(pExt(t.T)), true
		case "BaseName":
			return sym.StrV(pStem(t.T)), true
		}
		if a := txt(0); a != nil {
			switch meth {
			case "SetExt":
				return pathV(setExt(t.T, a)), true
			case "SetBase":
				return pathV(pJoin(pDir(t.T), a)), true
			case "Push":
				return pathV(pJoin(t.T, a)), true
			}
		}
		return nil, false
	}
	if r, ok := recv.(sym.OpaqueV); ok {
		switch r.Kind + "." + meth {
		case "pfile.InputPath":
			return pathV(fName(r.T)), true
		case "pfile.Package":
			return op("ppkg", smt.App("pfile.pkg", smt.Ref, r.T)), true
		case "ppkg.ProtoName":
			return op("pname", r.T), true
		case "pfile.AllEnums":
			return sym.ListV{Tag: "enums:" + r.T.String(), Len: nEnums(r.T), At: func(i *smt.Term) sym.Val { return op("penum", enumAt(r.T, i)) }}, true
		case "pfile.Services":
			return sym.ListV{Tag: "svcs:" + r.T.String(), Len: nSvcs(r.T), At: func(i *smt.Term) sym.Val { return op("psvc", svcAt(r.T, i)) }}, true
		case "penum.Name", "psvc.Name":
			return op("pname", r.T), true
		case "pfdesc.GetDependency":
			return h.deps(r.T), true
		case "pfopts.GetJavaOuterClassname":
			return sym.StrV(smt.Ite(optHas("JavaOuterClassname", r.T), optStr("JavaOuterClassname", r.T), smt.StrC(""))), true
		case "pfopts.GetJavaPackage":
			return sym.StrV(smt.Ite(optHas("JavaPackage", r.T), optStr("JavaPackage", r.T), smt.StrC(""))), true
		case "tpl.Name":
			if h.TplName != nil {
				return sym.StrV(smt.StrC(*h.TplName)), true
			}
			return sym.StrV(smt.App("tpl.name", smt.Str, r.T)), true
		case "goctx.OutputPath":
			if f, ok := args[0].(sym.OpaqueV); ok && f.Kind == "pfile" {
				h.use("protoc-gen-star: OutputPath is where protoc-gen-go writes the file")
				return pathV(goOut(f.T)), true
			}
		case "goctx.Name":
			if f, ok := args[0].(sym.OpaqueV); ok {
				h.use("protoc-gen-star: Context.Name is the Go name of the entity")
				return op("pname", smt.App("goname", smt.Ref, f.T)), true
			}
		case "poneof.Extension":
			return h.extension(x, st, r, args)
		case "pfield.Message":
			return op("pmsg", smt.App("pf.msg", smt.Ref, r.T)), true
		case "pfield.File":
			return op("pfile", smt.App("pf.file", smt.Ref, r.T)), true
		}
	}
	switch name {
	case "github.com/lyft/protoc-gen-star.JoinPaths", "path/filepath.Join", "path.Join":
		var r *smt.Term
		for i := range args {
			t := txt(i)
			if t == nil {
				return nil, false
			}
			if r == nil {
				r = t
			} else {
				r = pJoin(r, t)
			}
		}
		if r == nil {
			return nil, false
		}
		h.use("protoc-gen-star: JoinPaths joins path elements (path/filepath.Join)")
		if strings.HasPrefix(name, "github") {
			return pathV(r), true
		}
		return sym.StrV(r), true
	case "strings.Replace":
		if n, ok := termOf(args[3]); ok && n == smt.IntC(-1) && txt(0) != nil && txt(1) != nil && txt(2) != nil {
			return sym.StrV(replaceAll(txt(0), txt(1), txt(2))), true
		}
	case "strings.ReplaceAll":
		if txt(0) != nil && txt(1) != nil && txt(2) != nil {
			return sym.StrV(replaceAll(txt(0), txt(1), txt(2))), true
		}
	case sharedPkg + ".Needs":
		m, ok1 := args[0].(sym.OpaqueV)
		k, ok2 := termOf(args[1])
		if ok1 && ok2 && k.Op == "str" && m.Kind == "pmsg" && len(x.Stack()) > 0 {
			return sym.BoolV(smt.App("needs."+k.Name, smt.Bool, m.T)), true
		}
	case tplPkg + ".makeTemplate":
		if n, ok := termOf(args[0]); ok && !h.inUnit(x, name) {
			return sym.OpaqueV{Kind: "tpl", T: n, Args: []sym.Val{args[0], args[1]}}, true
		}
	case "text/template.New":
		if n, ok := termOf(args[0]); ok {
			h.use("text/template: New makes a template of that name")
			return op("tpl", n), true
		}
	case "registerfn", sharedPkg + ".RegisterFunctions":
		return sym.TupleV{}, true
	case tplPkg + "/java.sanitizeClassName":
		if t := txt(0); t != nil {
			return sym.StrV(javaName(t)), true
		}
	case tplPkg + "/cc.CcFilePath", tplPkg + "/java.JavaFilePath":
		if h.Unit != "" && strings.HasPrefix(name, h.Unit+".") { // its own body is verified
			return nil, false
		}
		f, ok1 := args[0].(sym.OpaqueV)
		if !ok1 || f.Kind != "pfile" {
			return nil, false
		}
		k := name[strings.LastIndexByte(name, '.')+1:]
		return optptr(smt.Not(smt.App("nil."+k, smt.Bool, f.T)), pathV(smt.App("path."+k, smt.Str, f.T))), true
	case "fmt.Sprintf":
		if f, ok := termOf(args[0]); ok && f.Op == "str" {
			if v, ok := h.sprintf(f.Name, args[1:]); ok {
				return v, true
			}
		}
	}
	return nil, false
}

// sprintf of texts is a text.
func (h *Hooks) sprintf(f string, args []sym.Val) (sym.Val, bool) {
	var ts []*smt.Term
	lit := ""
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit += string(f[i])
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			lit += "%"
			continue
		}
		if strings.IndexByte("svdq", f[i]) < 0 || k >= len(args) {
			return nil, false
		}
		t, ok := text(args[k])
		if !ok || f[i] == 'd' && (t.Op != "app" || t.Name != "itoa") {
			return nil, false
		}
		if f[i] == 'q' {
			t = smt.App("fmt%q", smt.Str, t)
		}
		k++
		ts = append(ts, smt.StrC(lit), t)
		lit = ""
	}
	if k != len(args) {
		return nil, false
	}
	h.use("fmt: Sprintf of texts and numbers")
	return sym.StrV(cat(append(ts, smt.StrC(lit))...)), true
}

func (h *Hooks) deps(f *smt.Term) sym.Val {
	return sym.ListV{Tag: "deps:" + f.String(), Len: nDeps(f), At: func(i *smt.Term) sym.Val { return sym.StrV(depAt(f, i)) }}
}

// Binary concatenates texts.
func (h *Hooks) Binary(x *sym.X, st *sym.State, op string, a, b sym.Val, t *ir.T, at string) (sym.Val, bool) {
	if op == "+" && t != nil && t.K == ir.KStr {
		p, ok1 := text(a)
		q, ok2 := text(b)
		if ok1 && ok2 {
			return sym.TV{T: cat(p, q), Y: t}, true
		}
	}
	return h.Hooks.Binary(x, st, op, a, b, t, at)
}

// fileHyps are facts on a file.
func fileHyps(f *smt.Term) []*smt.Term {
	n0 := func(t *smt.Term) *smt.Term { return smt.Le(smt.IntC(0), t) }
	return []*smt.Term{n0(nDeps(f)), n0(nEnums(f)), n0(nSvcs(f)), n0(nMsgs(f)), n0(nTop(f)),
		smt.Implies(model.IsNil(fOpts(f)), smt.And(smt.Not(javaMulti(f)), smt.Not(optHas("JavaOuterClassname", f)), smt.Not(optHas("JavaPackage", f))))}
}

// JavaClass is the class protoc generates for the file.
func javaClass(f *smt.Term) *smt.Term {
	s := javaName(pStem(fName(f)))
	k := smt.Fresh("k", smt.Int)
	some := func(n *smt.Term, at func(f, i *smt.Term) *smt.Term) *smt.Term {
		k = smt.Fresh("k", smt.Int)
		return smt.Exists(k, smt.IntC(0), n, smt.Eq(smt.App("pname", smt.Str, at(f, k)), s))
	}
	clash := smt.Or(some(nEnums(f), enumAt), some(nMsgs(f), msgOf), some(nSvcs(f), svcAt))
	return smt.Ite(smt.And(smt.Not(javaMulti(f)), optHas("JavaOuterClassname", f)), optStr("JavaOuterClassname", f), smt.Ite(clash, cat(s, smt.StrC("OuterClass")), s))
}

func javaDir(f *smt.Term) *smt.Term {
	pkg := smt.Ite(optHas("JavaPackage", f), optStr("JavaPackage", f), smt.App("pname", smt.Str, smt.App("pfile.pkg", smt.Ref, f)))
	return replaceAll(pkg, smt.StrC("."), smt.StrC("/"))
}

// pathAnd gives nil-ness and text of an optional path.
func pathAnd(x *sym.X, h *Hooks, v sym.Val) (null, t *smt.Term, ok bool) {
	null = x.IsNilVal(v)
	switch u := v.(type) {
	case sym.OpaqueV:
		if u.Kind == "optptr" {
			t, ok = text(u.Args[0])
		}
	case sym.UnionV:
		for _, a := range u {
			if _, isNil := a.V.(sym.NilV); isNil {
				continue
			}
			_, tt, ok2 := pathAnd(x, h, a.V)
			if !ok2 {
				return nil, nil, false
			}
			if t == nil {
				t = tt
			} else {
				t = smt.Ite(a.G, tt, t)
			}
		}
		ok = t != nil
	case sym.NilV:
		return smt.True, smt.StrC(""), true
	}
	return
}

// VerifyPaths verifies where outputs go.
func (p *P) VerifyPaths(e *gen.Env) {
	f, m := smt.Var("self!file", smt.Ref), smt.Var("self!msg", smt.Ref)
	tpl := smt.Var("self!tpl", smt.Ref)
	props := []string{"C25"}
	three := func(x *sym.X, st *sym.State) []sym.Val {
		return []sym.Val{op("pfile", f), op("goctx", smt.True), op("tpl", tpl)}
	}
	check := func(what string, wantNil, want *smt.Term) func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
		return func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
			if o, ok := res.(sym.PtrV); ok {
				res = optptr(smt.True, st.Env[o.ID])
			}
			null, t, ok := pathAnd(x, p.H, res)
			if !ok {
				p.Unsup = append(p.Unsup, what+": its result "+sym.Str(res)+" is not tracked")
				return
			}
			k := smt.Fresh("k", smt.Int)
			hyps := append(fileHyps(f), x.Facts...)
			hyps = append(hyps, smt.Forall(k, smt.IntC(0), nMsgs(f), smt.Not(model.IsNil(msgOf(f, k)))))
			p.add("paths", what+" has a path exactly for the files to generate for", "", props, hyps, smt.Iff(null, wantNil))
			p.add("paths", what+" is the documented path", "", props, append(append([]*smt.Term{}, hyps...), smt.Not(null)), smt.Eq(t, want))
			p.add("paths", what+" does not stop the run", "", props, hyps, smt.Not(throws))
			p.safety(x, what, "paths", props, hyps)
		}
	}
	u := p.unit(e, "templates/cc")
	p.H.Unit = tplPkg + "/cc"
	p.call(u, "CcFilePath", tplPkg+"/cc.CcFilePath", nil, nil, three, check("CcFilePath", smt.False, setExt(fName(f), cat(smt.StrC(".pb.validate."), smt.App("tpl.name", smt.Str, tpl)))))
	u = p.unit(e, "templates/java")
	p.H.Unit = tplPkg + "/java"
	k := smt.Fresh("k", smt.Int)
	imports := smt.Exists(k, smt.IntC(0), nDeps(f), model.HasSuffix(depAt(f, k), smt.StrC("validate.proto")))
	p.call(u, "JavaFilePath", tplPkg+"/java.JavaFilePath", nil, nil, three, check("JavaFilePath", smt.Not(imports), pJoin(javaDir(f), cat(javaClass(f), smt.StrC("Validator.java")))))
	p.call(u, "JavaMultiFilePath", tplPkg+"/java.JavaMultiFilePath", nil, nil, func(x *sym.X, st *sym.State) []sym.Val { return []sym.Val{op("pfile", f), op("pmsg", m)} },
		func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
			t, ok := text(res)
			if !ok {
				p.Unsup = append(p.Unsup, "JavaMultiFilePath: its result is not tracked")
				return
			}
			hyps := append(fileHyps(f), smt.Not(model.IsNil(m)))
			hyps = append(hyps, x.Facts...)
			p.add("paths", "JavaMultiFilePath is the documented path", "", props, hyps, smt.Eq(t, pJoin(javaDir(f), cat(smt.App("pname", smt.Str, m), smt.StrC("Validator.java")))))
			p.add("paths", "JavaMultiFilePath does not stop the run", "", props, hyps, smt.Not(throws))
			p.safety(x, "JavaMultiFilePath", "paths", props, hyps)
		})
	u = p.unit(e, "templates")
	p.H.Unit = tplPkg
	for _, n := range []string{"h", "cc", "java", "go"} {
		n := n
		p.H.TplName = &n
		what := "FilePathFor of template " + n
		p.call(u, what, tplPkg+".FilePathFor", nil, nil, func(x *sym.X, st *sym.State) []sym.Val { return []sym.Val{op("tpl", tpl)} }, func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
			fv, ok := res.(sym.FuncV)
			if !ok {
				p.Unsup = append(p.Unsup, what+": its result "+sym.Str(res)+" is not tracked")
				return
			}
			out := x.Invoke(st, fv.Name, &fv, nil, three(x, st), nil)
			null, want := smt.False, setExt(goOut(f), smt.StrC(".validate.go"))
			fn := map[string]string{"h": "CcFilePath", "cc": "CcFilePath", "java": "JavaFilePath"}[n]
			if fn != "" {
				null, want = smt.App("nil."+fn, smt.Bool, f), smt.App("path."+fn, smt.Str, f)
			}
			check(what, null, want)(x, st, out, throws)
		})
	}
	p.H.TplName = nil
	p.call(u, "Template", tplPkg+".Template", nil, nil, func(x *sym.X, st *sym.State) []sym.Val { return []sym.Val{op("params", smt.True)} }, func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
		m, ok := res.(sym.ConstMap)
		if !ok {
			p.Unsup = append(p.Unsup, "Template: its result is not tracked")
			return
		}
		want := map[string]string{"go": "go=go.Register", "cc": "h=cc.RegisterHeader cc=cc.RegisterModule", "java": "java=java.Register"}
		got := map[string]string{}
		for i, k := range m.Keys {
			b, ok := m.Vals[i].(sym.Build)
			if !ok || k.Op != "str" {
				p.Unsup = append(p.Unsup, "Template: an entry is not tracked")
				return
			}
			var ts []string
			for _, it := range b.Items {
				if o, ok := it.V.(sym.OpaqueV); ok && o.Kind == "tpl" && len(o.Args) == 2 {
					ts = append(ts, o.T.Name+"="+strings.TrimPrefix(o.Args[1].(sym.FuncV).Name, tplPkg+"/"))
				}
			}
			got[k.Name] = strings.Join(ts, " ")
		}
		okAll := len(got) == len(want)
		for k, w := range want {
			okAll = okAll && got[k] == w
		}
		p.add("paths", "Template knows the languages go, cc and java, with their templates: "+fmt.Sprint(got), "", props, nil, smt.B(okAll))
	})
	p.call(u, "makeTemplate", tplPkg+".makeTemplate", nil, nil, func(x *sym.X, st *sym.State) []sym.Val {
		return []sym.Val{sym.StrV(smt.Var("ext", smt.Str)), sym.FuncV{Name: "registerfn"}, op("params", smt.True)}
	}, func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
		if o, ok := res.(sym.OpaqueV); ok && o.Kind == "tpl" {
			p.add("paths", "makeTemplate makes a template of the name given", "", props, nil, smt.Eq(o.T, smt.Var("ext", smt.Str)))
		} else {
			p.Unsup = append(p.Unsup, "makeTemplate: its result is not tracked")
		}
	})
	p.H.Unit = ""
}

// inUnit: is a call of this function being executed?
func (h *Hooks) inUnit(x *sym.X, name string) bool {
	for _, s := range x.Stack() {
		if s == name {
			return true
		}
	}
	return false
}
