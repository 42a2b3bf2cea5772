package plug

import (
	"pgvc/ir"
	"pgvc/smt"
	"pgvc/sym"
)

// The run of the module: the targets are in an arbitrary order.
func nTargets() *smt.Term              { return smt.Var("n!targets", smt.Int) }
func target(i *smt.Term) *smt.Term     { return smt.App("target", smt.Ref, i) }
func nMsgs(f *smt.Term) *smt.Term      { return smt.App("pfile.nall", smt.Int, f) } // every message, nested ones included
func msgOf(f, i *smt.Term) *smt.Term   { return smt.App("pfile.all", smt.Ref, f, i) }
func nTop(f *smt.Term) *smt.Term       { return smt.App("pfile.ntop", smt.Int, f) }
func topOf(f, i *smt.Term) *smt.Term   { return smt.App("pfile.top", smt.Ref, f, i) }
func badMsg(m *smt.Term) *smt.Term     { return smt.App("badmsg", smt.Bool, m) }
func param(n string) *smt.Term         { return smt.App("param", smt.Str, smt.StrC(n)) }
func tplKnown(l *smt.Term) *smt.Term   { return smt.App("tpl.known", smt.Bool, l) }
func nTpls(l *smt.Term) *smt.Term      { return smt.App("tpl.n", smt.Int, l) }
func tplAt(l, i *smt.Term) *smt.Term   { return smt.App("tpl", smt.Ref, l, i) }
func pathNil(t, f *smt.Term) *smt.Term { return smt.App("path.nil", smt.Bool, t, f) }
func pathOf(t, f *smt.Term) *smt.Term  { return smt.App("path", smt.Str, t, f) }
func without(p, m *smt.Term) *smt.Term { return smt.App("path.without", smt.Str, p, m) } // module prefix cut
func javaMulti(f *smt.Term) *smt.Term  { return smt.App("opt.multi", smt.Bool, f) }
func javaPath(f, m *smt.Term) *smt.Term {
	return smt.App("path.java", smt.Str, f, m)
}

var filePath = &ir.T{K: ir.KStr, Name: pgs + "FilePath"}

// An arbitrary but fixed artifact; its ghost tells whether it was added.
var gPath, gTpl, gNode = smt.Var("g!path", smt.Str), smt.Var("g!tpl", smt.Ref), smt.Var("g!node", smt.Ref)

const ghost = "obj#ghost:added"

// executeCall applies the contracts of what Execute uses.
func (h *Hooks) executeCall(x *sym.X, st *sym.State, name, meth string, recv sym.Val, args []sym.Val, at string) (sym.Val, bool) {
	switch r := recv.(type) {
	case sym.OpaqueV:
		switch r.Kind + "." + meth {
		case "module.Parameters":
			return op("params", smt.True), true
		case "module.Artifacts":
			return op("artifacts", smt.True), true
		case "module.AddGeneratorTemplateFile":
			if len(args) != 3 {
				return nil, false
			}
			p, ok1 := termOf(args[0])
			t, ok2 := args[1].(sym.OpaqueV)
			n, ok3 := args[2].(sym.OpaqueV)
			g, ok4 := st.Env[ghost].(sym.TV)
			if !ok1 || !ok2 || !ok3 || !ok4 || t.Kind != "tpl" || n.Kind != "pfile" && n.Kind != "pmsg" {
				return nil, false
			}
			h.use("protoc-gen-star: AddGeneratorTemplateFile adds the rendered template as an output of that name")
			st.Env[ghost] = sym.BoolV(smt.Or(g.T, smt.And(smt.Eq(p, gPath), smt.Eq(t.T, gTpl), smt.Eq(n.T, gNode))))
			return sym.TupleV{}, true
		case "params.Str":
			k, ok := termOf(args[0])
			if !ok {
				return nil, false
			}
			h.use("protoc-gen-star: Parameters.Str reads a plugin parameter")
			return sym.StrV(smt.App("param", smt.Str, k)), true
		case "pfile.Name":
			return op("pname", r.T), true
		case "pfile.AllMessages":
			h.use("protoc-gen-star: AllMessages lists every message of the file, nested ones included; Messages the top-level ones")
			return sym.ListV{Tag: "allmsgs:" + r.T.String(), Len: nMsgs(r.T), At: func(i *smt.Term) sym.Val { return op("pmsg", msgOf(r.T, i)) }}, true
		case "pfile.Messages":
			return sym.ListV{Tag: "msgs:" + r.T.String(), Len: nTop(r.T), At: func(i *smt.Term) sym.Val { return op("pmsg", topOf(r.T, i)) }}, true
		case "pfile.Descriptor":
			return op("pfdesc", r.T), true
		case "pfdesc.GetOptions":
			return op("pfopts", r.T), true
		case "pfopts.GetJavaMultipleFiles":
			return sym.BoolV(javaMulti(r.T)), true
		}
		if r.Kind == "pathfn" && name == "pathfn" {
			f, ok1 := args[0].(sym.OpaqueV)
			t, ok2 := args[2].(sym.OpaqueV)
			if !ok1 || !ok2 || f.Kind != "pfile" || t.T != r.T {
				return nil, false
			}
			return optptr(smt.Not(pathNil(t.T, f.T)), sym.TV{T: pathOf(t.T, f.T), Y: filePath}), true
		}
		if r.Kind == "optptr" && meth == "String" {
			if p, ok := r.Args[0].(sym.TV); ok && p.Y == filePath {
				x.Oblige(st, r.T, at, "nil path")
				return sym.StrV(p.T), true
			}
		}
	case sym.TV:
		if r.Y == filePath && meth == "String" {
			return sym.StrV(r.T), true
		}
	}
	switch name {
	case "github.com/envoyproxy/protoc-gen-validate/templates.Template":
		return op("tpls", smt.True), true
	case "github.com/envoyproxy/protoc-gen-validate/templates.FilePathFor":
		if t, ok := args[0].(sym.OpaqueV); ok && t.Kind == "tpl" {
			return sym.FuncV{Name: "pathfn", Recv: op("pathfn", t.T)}, true
		}
	case "github.com/envoyproxy/protoc-gen-validate/templates/java.JavaMultiFilePath":
		f, ok1 := args[0].(sym.OpaqueV)
		m, ok2 := args[1].(sym.OpaqueV)
		if ok1 && ok2 && f.Kind == "pfile" && m.Kind == "pmsg" {
			return sym.TV{T: javaPath(f.T, m.T), Y: filePath}, true
		}
	case "strings.TrimPrefix":
		p, ok1 := termOf(args[0])
		m, ok2 := termOf(args[1])
		if ok1 && ok2 {
			return sym.StrV(smt.App("cutprefix", smt.Str, p, m)), true
		}
	case "strings.TrimLeft":
		p, ok1 := termOf(args[0])
		c, ok2 := termOf(args[1])
		if ok1 && ok2 && c == smt.StrC("/") && p.Op == "app" && p.Name == "cutprefix" {
			return sym.StrV(without(p.Args[0], p.Args[1])), true
		}
	}
	return nil, false
}

// Index of the table of templates.
func (h *Hooks) Index(x *sym.X, v, i sym.Val) (sym.Val, bool) {
	o, ok := v.(sym.OpaqueV)
	k, ok2 := termOf(i)
	if ok && ok2 && o.Kind == "tpls" {
		l := sym.ListV{Tag: "tpls:" + k.String(), Len: nTpls(k), At: func(i *smt.Term) sym.Val { return op("tpl", tplAt(k, i)) }}
		return sym.UnionV{{G: tplKnown(k), V: l}, {G: smt.Not(tplKnown(k)), V: sym.NilV{}}}, true
	}
	return nil, false
}

func (p *P) verifyExecute() {
	p.exec("Execute", "Execute", nil, func(x *sym.X, st *sym.State) []sym.Val {
		st.Env[ghost] = sym.BoolV(smt.False)
		targets := sym.MapV{Tag: "targets", Len: nTargets(), Key: func(i *smt.Term) sym.Val { return op("pname", target(i)) }, At: func(i *smt.Term) sym.Val { return op("pfile", target(i)) }}
		return []sym.Val{targets, op("pkgs", smt.True)}
	}, func(x *sym.X, st *sym.State, throws *smt.Term) {
		i, j := smt.Var("self!i", smt.Int), smt.Var("self!j", smt.Int)
		k, l := smt.Fresh("k", smt.Int), smt.Fresh("l", smt.Int)
		n0 := func(t *smt.Term) *smt.Term { return smt.Le(smt.IntC(0), t) }
		hyps := append([]*smt.Term{n0(nTargets()), smt.Forall(k, smt.IntC(0), nTargets(), smt.And(fileHyps(target(k))...)), n0(nTpls(param("lang")))}, x.Facts...)
		lang := param("lang")
		noLang := smt.Or(smt.Eq(lang, smt.StrC("")), smt.Not(tplKnown(lang)))
		p.add("execute", "a bad message in any file to generate, nested or not, stops the run", "", []string{"C01", "C02", "C03"},
			append(append([]*smt.Term{}, hyps...), n0(i), smt.Lt(i, nTargets()), n0(j), smt.Lt(j, nMsgs(target(i))), badMsg(msgOf(target(i), j))), throws)
		p.add("execute", "a missing or unknown lang stops the run", "", []string{"C25"}, append(append([]*smt.Term{}, hyps...), noLang), throws)
		k, l = smt.Fresh("k", smt.Int), smt.Fresh("l", smt.Int)
		someBad := smt.Exists(k, smt.IntC(0), nTargets(), smt.Exists(l, smt.IntC(0), nMsgs(target(k)), badMsg(msgOf(target(k), l))))
		p.add("execute", "the run stops only for a bad message or a missing or unknown lang", "", []string{"C01", "C25"}, append(append([]*smt.Term{}, hyps...), throws), smt.Or(noLang, someBad))
		// outputs
		end, ok := st.Env[ghost].(sym.TV)
		for _, e := range st.Exits {
			if e.Kind == sym.Ret && e.Env != nil {
				end, ok = e.Env[ghost].(sym.TV)
			}
		}
		if !ok {
			p.Unsup = append(p.Unsup, "Execute: the artifacts added are not tracked")
			return
		}
		k, l = smt.Fresh("k", smt.Int), smt.Fresh("l", smt.Int)
		m := smt.Fresh("m", smt.Int)
		f, t := target(k), tplAt(lang, l)
		perMsg := smt.And(smt.Eq(lang, smt.StrC("java")), javaMulti(f))
		one := smt.And(smt.Not(perMsg), smt.Eq(gPath, without(pathOf(t, f), param("module"))), smt.Eq(gTpl, t), smt.Eq(gNode, f))
		many := smt.And(perMsg, smt.Exists(m, smt.IntC(0), nTop(f), smt.And(smt.Eq(gPath, javaPath(f, topOf(f, m))), smt.Eq(gTpl, t), smt.Eq(gNode, topOf(f, m)))))
		want := smt.Exists(k, smt.IntC(0), nTargets(), smt.Exists(l, smt.IntC(0), nTpls(lang), smt.And(smt.Not(pathNil(t, f)), smt.Or(one, many))))
		ok2 := append(append([]*smt.Term{}, hyps...), smt.Not(throws))
		p.add("execute", "an output is added only for a file to generate, at its path", "", []string{"C25"}, append(append([]*smt.Term{}, ok2...), end.T), want)
		p.add("execute", "every file to generate has its outputs", "", []string{"C25"}, append(append([]*smt.Term{}, ok2...), want), end.T)
		p.safety(x, "Execute", "execute", []string{"C25"}, hyps)
	})
}
