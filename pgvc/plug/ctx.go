package plug

import (
	"strings"

	"google.golang.org/protobuf/reflect/protoreflect"

	"pgvc/gen"
	"pgvc/govc"
	"pgvc/ir"
	"pgvc/model"
	"pgvc/smt"
	"pgvc/sym"
)

// kindProps are the properties of the rules of a kind.
func kindProps(kind string) []string {
	switch kind {
	case "string":
		return []string{"C05", "C06"}
	case "bytes":
		return []string{"C07"}
	case "bool", "enum":
		return []string{"C08"}
	case "repeated":
		return []string{"C09"}
	case "map":
		return []string{"C10"}
	case "any", "duration", "timestamp":
		return []string{"C14"}
	case "":
		return []string{"C11", "C09", "C10"}
	}
	return []string{"C04"}
}

// the context of a field, item, key or value
type ctxSpec struct {
	typ, wtyp, rules, msg *smt.Term
}

// resolve is the specification of what rules say: the kind names the template,
// unless the field is a wrapper message; without a kind, lists, maps of
// messages and messages are still visited.
func (s *S) resolve(kind string, typ, rules *smt.Term) ctxSpec {
	c := ctxSpec{wtyp: smt.StrC(""), msg: model.Get(rules, s.MD.Fields().ByName("message"))}
	embed := smt.And(smt.Not(tyRep(typ)), smt.Not(tyMap(typ)), isEmbed(typ))
	if kind == "" {
		empty := func(n string) *smt.Term { return smt.Var("empty!"+n, smt.Ref) }
		rep := smt.And(tyField(typ), tyRep(typ))
		mp := smt.And(tyField(typ), tyMap(typ), isEmbed(tyElem(typ)))
		pick := func(a, b, c, d *smt.Term) *smt.Term { return smt.Ite(rep, a, smt.Ite(mp, b, smt.Ite(embed, c, d))) }
		c.typ = pick(smt.StrC("repeated"), smt.StrC("map"), smt.StrC("message"), smt.StrC("none"))
		c.rules = pick(empty("RepeatedRules"), empty("MapRules"), c.msg, nilRef)
		c.msg = pick(c.msg, c.msg, c.msg, nilRef)
		return c
	}
	c.typ, c.rules = smt.StrC(kind), s.sub(kind, rules).r
	if wrappers[kind] != "" {
		c.typ = smt.Ite(embed, smt.StrC("wrapper"), smt.StrC(kind))
		c.wtyp = smt.Ite(embed, smt.StrC(kind), smt.StrC(""))
	}
	return c
}

// same compares references, one of which may be absent for any reason.
func sameRef(a, b *smt.Term) *smt.Term {
	null := func(t *smt.Term) *smt.Term { return nullness(t) }
	return smt.Or(smt.And(null(a), null(b)), smt.Eq(a, b))
}

func nullness(t *smt.Term) *smt.Term {
	switch {
	case t == nilRef:
		return smt.True
	case t.Op == "var" && strings.HasPrefix(t.Name, "empty!"):
		return smt.False
	case t.Op == "ite":
		return smt.Ite(t.Args[0], nullness(t.Args[1]), nullness(t.Args[2]))
	}
	return model.IsNil(t)
}

const ruleCtx = sharedPkg + ".RuleContext"

func ctxOf(typ, wtyp *smt.Term, rules, msg sym.Val, onKey *smt.Term, index, acc *smt.Term, f *smt.Term) sym.StructV {
	return sym.StructV{Ty: ruleCtx, F: map[string]sym.Val{"Field": op("pfield", f), "Rules": rules, "MessageRules": msg, "Typ": sym.StrV(typ), "WrapperTyp": sym.StrV(wtyp), "OnKey": sym.BoolV(onKey), "Index": sym.StrV(index), "AccessorOverride": sym.StrV(acc)}}
}

type ctxWant struct {
	f, typ, wtyp, rules, msg, onKey, index, acc *smt.Term
}

// checkCtx obliges a resulting context to be the one wanted.
func (p *P) checkCtx(what string, props []string, x *sym.X, hyps []*smt.Term, v sym.Val, w ctxWant) {
	c, ok := v.(sym.StructV)
	if !ok {
		p.Unsup = append(p.Unsup, what+": its result "+sym.Str(v)+" is not tracked")
		return
	}
	bad := func(n string) { p.Unsup = append(p.Unsup, what+": "+n+" is not tracked: "+sym.Str(c.F[n])) }
	goal := func(n string, g *smt.Term) { p.add("context", what+": "+n, "", props, hyps, g) }
	for _, t := range []struct {
		n string
		w *smt.Term
	}{{"Typ", w.typ}, {"WrapperTyp", w.wtyp}, {"Index", w.index}, {"AccessorOverride", w.acc}} {
		if g, ok := text(c.F[t.n]); ok {
			goal(t.n, smt.Eq(g, t.w))
		} else {
			bad(t.n)
		}
	}
	for _, t := range []struct {
		n string
		w *smt.Term
	}{{"Field", w.f}, {"Rules", w.rules}, {"MessageRules", w.msg}} {
		if g, ok := refOf(c.F[t.n]); ok {
			goal(t.n, sameRef(g, t.w))
		} else {
			bad(t.n)
		}
	}
	if b, ok := c.F["OnKey"].(sym.TV); ok && b.T.Sort == smt.Bool {
		goal("OnKey", smt.Iff(b.T, w.onKey))
	} else {
		bad("OnKey")
	}
}

// tupleErr splits (value, error).
func tupleErr(x *sym.X, v sym.Val) (sym.Val, *smt.Term, bool) {
	t, ok := v.(sym.TupleV)
	if !ok || len(t) != 2 {
		return nil, nil, false
	}
	return t[0], x.IsNilVal(t[1]), true
}

// VerifyFns verifies the functions the templates call.
func (p *P) VerifyFns(e *gen.Env) {
	s := p.H.S
	u := p.unit(e, "templates/shared")
	p.H.Unit = sharedPkg
	defer func() { p.H.Unit = "" }()
	f := smt.Var("self!f", smt.Ref)
	ft := fieldType(f)
	rules := fieldRules(f)
	frGo := strings.TrimSuffix(val, ".") + ".FieldRules"
	name, idx := smt.Var("acc", smt.Str), smt.Var("idx", smt.Str)
	str := func(t *smt.Term) sym.Val { return sym.StrV(t) }
	kindHyps := func(rules *smt.Term, kind string) []*smt.Term {
		hs := []*smt.Term{s.which(rules, kind), smt.Implies(model.IsNil(rules), smt.B(kind == "")), smt.Implies(model.IsNil(rules), model.IsNil(model.Get(rules, s.MD.Fields().ByName("message"))))}
		if kind != "" {
			hs = append(hs, smt.Not(model.IsNil(rules)), smt.Not(model.IsNil(s.sub(kind, rules).r)))
		}
		return hs
	}
	ruleMsg := func(kind string, r *smt.Term) sym.Val {
		for _, fd := range p.W.GoMsg[frGo].Fields {
			if string(fd.Desc.Name()) == kind {
				return sym.MsgV{Ref: r, Go: string(fd.Message.GoIdent.GoImportPath) + "." + fd.Message.GoIdent.GoName}
			}
		}
		return nil
	}
	msgGo := strings.TrimSuffix(val, ".") + ".MessageRules"
	for _, kind := range s.Kinds() {
		kind := kind
		what := "context of " + kind + " rules"
		if kind == "" {
			what = "context of no rules"
		}
		props := kindProps(kind)
		if wrappers[kind] != "" {
			props = append(append([]string{}, props...), "C13")
		}
		p.call(u, what, sharedPkg+".rulesContext", &kind, nil, func(x *sym.X, st *sym.State) []sym.Val { return []sym.Val{op("pfield", f)} },
			func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
				c, noErr, ok := tupleErr(x, res)
				if !ok {
					p.Unsup = append(p.Unsup, what+": its result is not tracked")
					return
				}
				hyps := append(append(wfDeep(ft), tyField(ft), smt.Not(model.IsNil(rules))), kindHyps(rules, kind)...)
				hyps = append(hyps, x.Facts...)
				w := s.resolve(kind, ft, rules)
				p.add("context", what+": no error", "", props, hyps, smt.And(noErr, smt.Not(throws)))
				p.checkCtx(what, props, x, hyps, c, ctxWant{f, w.typ, w.wtyp, w.rules, w.msg, smt.False, smt.StrC(""), smt.StrC("")})
				p.safety(x, what, "context", props, hyps)
			})
		// items and values
		for _, outer := range []string{"repeated", "map", "key"} {
			outer := outer
			oKind, fld, owner := outer, "items", "C09"
			et := tyElem(ft)
			fn := "(" + ruleCtx + ").Elem"
			if outer != "repeated" {
				oKind, fld, owner = "map", "values", "C10"
			}
			if outer == "key" {
				fld, et, fn = "keys", tyKey(ft), "("+ruleCtx+").Key"
			}
			or := smt.Var("self!outer", smt.Ref)
			in := s.sub(oKind, rules) // descriptor only
			inner := model.Get(or, in.fd(fld))
			what := strings.Replace(what, "context of", "context of "+oKind+" "+fld+" with", 1)
			props := append(append([]string{}, props...), owner)
			if outer == "key" {
				props = append(props, "C16")
			}
			p.call(u, what, fn, &kind, ctxOf(smt.StrC(oKind), smt.StrC(""), ruleMsg(oKind, or), sym.MsgV{Ref: smt.Var("self!omsg", smt.Ref), Go: msgGo}, smt.False, smt.StrC(""), smt.StrC(""), f),
				func(x *sym.X, st *sym.State) []sym.Val { return []sym.Val{str(name), str(idx)} },
				func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
					c, noErr, ok := tupleErr(x, res)
					if !ok {
						p.Unsup = append(p.Unsup, what+": its result is not tracked")
						return
					}
					hyps := append(append(wfDeep(ft), tyField(ft), smt.Not(model.IsNil(or))), kindHyps(inner, kind)...)
					if outer == "repeated" {
						hyps = append(hyps, tyRep(ft))
					} else {
						hyps = append(hyps, tyMap(ft))
					}
					if outer == "key" { // keys are scalars
						hyps = append(hyps, smt.Not(isEmbed(et)))
					}
					hyps = append(hyps, x.Facts...)
					w := s.resolve(kind, et, inner)
					p.add("context", what+": no error", "", props, hyps, smt.And(noErr, smt.Not(throws)))
					p.checkCtx(what, props, x, hyps, c, ctxWant{f, w.typ, w.wtyp, w.rules, w.msg, smt.B(outer == "key"), idx, name})
					p.safety(x, what, "context", props, hyps)
				})
		}
	}
	// unwrapping
	r0, m0, t0 := smt.Var("self!r", smt.Ref), smt.Var("self!m", smt.Ref), smt.Var("self!wt", smt.Str)
	k0, i0 := smt.Var("self!onkey", smt.Bool), smt.Var("self!index", smt.Str)
	props := []string{"C13", "C16"}
	p.call(u, "Unwrap", "("+ruleCtx+").Unwrap", nil, ctxOf(smt.StrC("wrapper"), t0, sym.MsgV{Ref: r0, Go: msgGo}, sym.MsgV{Ref: m0, Go: msgGo}, k0, i0, smt.Var("self!acc", smt.Str), f),
		func(x *sym.X, st *sym.State) []sym.Val { return []sym.Val{str(name)} },
		func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
			c, noErr, ok := tupleErr(x, res)
			if !ok {
				p.Unsup = append(p.Unsup, "Unwrap: its result is not tracked")
				return
			}
			p.add("context", "Unwrap: no error", "", props, x.Facts, smt.And(noErr, smt.Not(throws)))
			p.checkCtx("Unwrap", props, x, x.Facts, c, ctxWant{f, t0, smt.StrC(""), r0, m0, k0, i0, name})
		})
	// options
	for _, o := range []struct{ fn, kind, term, prop string }{{"Disabled", "pmsg", "pm.disabled", "C15"}, {"Ignored", "pmsg", "pm.ignored", "C15"}, {"RequiredOneOf", "poneof", "oo.required", "C12"}} {
		o := o
		m := smt.Var("self!msg", smt.Ref)
		props := []string{"C11"}
		if o.prop == "C12" {
			props = []string{"C12"}
		}
		p.call(u, o.fn, sharedPkg+"."+o.fn, nil, nil, func(x *sym.X, st *sym.State) []sym.Val { return []sym.Val{op(o.kind, m)} }, func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
			v, noErr, ok := tupleErr(x, res)
			b, ok2 := v.(sym.TV)
			if !ok || !ok2 || b.T.Sort != smt.Bool {
				p.Unsup = append(p.Unsup, o.fn+": its result is not tracked")
				return
			}
			p.add("options", o.fn+" reads the option", "", props, append(x.Facts, smt.Not(model.IsNil(m))), smt.And(noErr, smt.Not(throws), smt.Iff(b.T, smt.App(o.term, smt.Bool, m))))
		})
	}
	// helpers of well-known strings
	wkT := &ir.T{K: ir.KStr, Name: sharedPkg + ".WellKnown"}
	need := func(r *smt.Term, wk string) *smt.Term { // of string rules
		sd := s.fd("string").Message()
		on := func(n string) *smt.Term {
			fd := sd.Fields().ByName(protoreflect.Name(n))
			return smt.And(smt.Not(model.IsNil(r)), smt.Eq(model.Which(r, fd.ContainingOneof()), smt.IntC(int64(fd.Number()))), model.Get(r, fd))
		}
		switch wk {
		case "email":
			return on("email")
		case "hostname":
			return smt.Or(on("email"), on("hostname"), on("address"))
		}
		return on("uuid")
	}
	isStr := func(t *smt.Term) *smt.Term {
		plain := smt.And(smt.Not(tyRep(t)), smt.Not(tyMap(t)))
		return smt.And(plain, smt.Or(smt.Eq(tyProto(t), smt.IntC(9)), smt.And(isEmbed(t), smt.Eq(msgWKT(tyMsg(t)), smt.StrC("StringValue")))))
	}
	strOf := func(r *smt.Term) *smt.Term { // string rules of field rules
		return model.Get(r, s.fd("string"))
	}
	isKind := func(r *smt.Term, k string) *smt.Term { return smt.And(smt.Not(model.IsNil(r)), s.which(r, k)) }
	needField := func(f *smt.Term, wk string) *smt.Term {
		t, r := fieldType(f), fieldRules(f)
		items := s.sub("repeated", r).get("items")
		keys, values := s.sub("map", r).get("keys"), s.sub("map", r).get("values")
		in := func(outer string, rr, et *smt.Term) *smt.Term {
			return smt.And(isKind(r, outer), isStr(et), isKind(rr, "string"), need(strOf(rr), wk))
		}
		return smt.Or(smt.And(tyRep(t), in("repeated", items, tyElem(t))),
			smt.And(tyMap(t), smt.Or(in("map", keys, tyKey(t)), in("map", values, tyElem(t)))),
			smt.And(isStr(t), isKind(r, "string"), need(strOf(r), wk)))
	}
	for _, wk := range []string{"email", "hostname", "uuid"} {
		wk := wk
		m := smt.Var("self!msg", smt.Ref)
		i := smt.Fresh("i", smt.Int)
		fwf := func(i *smt.Term) *smt.Term {
			ff := fieldOf(m, i)
			t, r := fieldType(ff), fieldRules(ff)
			hs := append(wfDeep(t), tyField(t), smt.Not(model.IsNil(r)))
			hs = append(hs, smt.Not(isEmbed(tyKey(t))), smt.Implies(tyRep(t), smt.Eq(tyProto(tyElem(t)), tyProto(t))))
			// a oneof member that is not set reads as its default
			member := func(r *smt.Term, n string) {
				fd := s.MD.Fields().ByName(protoreflect.Name(n))
				hs = append(hs, smt.Implies(smt.Or(model.IsNil(r), smt.Not(smt.Eq(model.Which(r, fd.ContainingOneof()), smt.IntC(int64(fd.Number()))))), model.IsNil(model.Get(r, fd))))
			}
			known := func(r *smt.Term) { // of string rules
				for _, n := range []string{"email", "hostname", "address", "uuid"} {
					fd := s.fd("string").Message().Fields().ByName(protoreflect.Name(n))
					hs = append(hs, smt.Implies(smt.Or(model.IsNil(r), smt.Not(smt.Eq(model.Which(r, fd.ContainingOneof()), smt.IntC(int64(fd.Number()))))), smt.Not(model.Get(r, fd))))
				}
			}
			for _, n := range []string{"string", "repeated", "map"} {
				member(r, n)
			}
			known(strOf(r))
			rr, mr := s.sub("repeated", r), s.sub("map", r)
			hs = append(hs, smt.Implies(model.IsNil(rr.r), model.IsNil(rr.get("items"))))
			for _, n := range []string{"keys", "values"} {
				hs = append(hs, smt.Implies(model.IsNil(mr.r), model.IsNil(mr.get(n))))
			}
			for _, q := range []*smt.Term{rr.get("items"), mr.get("keys"), mr.get("values")} {
				member(q, "string")
				known(strOf(q))
			}
			return smt.And(hs...)
		}
		props := []string{"C18", "C06"}
		p.call(u, "Needs "+wk, sharedPkg+".Needs", nil, nil, func(x *sym.X, st *sym.State) []sym.Val {
			return []sym.Val{op("pmsg", m), sym.TV{T: smt.StrC(wk), Y: wkT}}
		}, func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
			b, ok := res.(sym.TV)
			if !ok || b.T.Sort != smt.Bool {
				p.Unsup = append(p.Unsup, "Needs: its result is not tracked")
				return
			}
			hyps := append([]*smt.Term{smt.Not(model.IsNil(m)), smt.Le(smt.IntC(0), nFields(m)), smt.Forall(i, smt.IntC(0), nFields(m), fwf(i))}, x.Facts...)
			j := smt.Var("self!j", smt.Int)
			k := smt.Fresh("k", smt.Int)
			p.add("needs", "a message with a field of "+wk+" rules needs its helper", "", props, append(append([]*smt.Term{}, hyps...), smt.Le(smt.IntC(0), j), smt.Lt(j, nFields(m)), fwf(j), needField(fieldOf(m, j), wk)), b.T)
			p.add("needs", "a message needs the "+wk+" helper only for a field of such rules", "", props, append(append([]*smt.Term{}, hyps...), b.T), someOf(k, nFields(m), append(hyps, b.T), fwf, func(k *smt.Term) *smt.Term { return needField(fieldOf(m, k), wk) }))
			p.safety(x, "Needs", "needs", props, hyps)
		})
		pf := smt.Var("self!file", smt.Ref)
		p.call(u, "FileNeeds "+wk, sharedPkg+".FileNeeds", nil, nil, func(x *sym.X, st *sym.State) []sym.Val {
			return []sym.Val{op("pfile", pf), sym.TV{T: smt.StrC(wk), Y: wkT}}
		}, func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
			b, ok := res.(sym.TV)
			if !ok || b.T.Sort != smt.Bool {
				p.Unsup = append(p.Unsup, "FileNeeds: its result is not tracked")
				return
			}
			k := smt.Fresh("k", smt.Int)
			hyps := append([]*smt.Term{smt.Le(smt.IntC(0), nMsgs(pf))}, x.Facts...)
			p.add("needs", "a file needs the "+wk+" helper exactly when a message of it does, nested or not", "", props, hyps, smt.Iff(b.T, smt.Exists(k, smt.IntC(0), nMsgs(pf), smt.App("needs."+wk, smt.Bool, msgOf(pf, k)))))
		})
	}
	p.verifyGoFns(e)
}

// someOf is an existential with the integers of the hypotheses as witnesses,
// each with what holds of every index.
func someOf(k, n *smt.Term, hyps []*smt.Term, all, body func(*smt.Term) *smt.Term) *smt.Term {
	g := smt.Exists(k, smt.IntC(0), n, body(k))
	seen := map[*smt.Term]bool{}
	for _, h := range hyps {
		for _, v := range h.FreeVars() {
			if v.Sort == smt.Int && !seen[v] {
				seen[v] = true
				in := smt.And(smt.Le(smt.IntC(0), v), smt.Lt(v, n))
				g = smt.Or(g, smt.And(in, smt.Or(body(v), smt.Not(all(v)))))
			}
		}
	}
	return g
}

// verifyGoFns verifies the decisions templates take through functions on
// constants: for all of them, whatever the corpus holds.
func (p *P) verifyGoFns(e *gen.Env) {
	durGo, tsGo := "google.golang.org/protobuf/types/known/durationpb.Duration", "google.golang.org/protobuf/types/known/timestamppb.Timestamp"
	a, b := smt.Var("self!a", smt.Ref), smt.Var("self!b", smt.Ref)
	ctx := op("goctx", smt.Var("self!ctx", smt.Ref))
	for _, l := range []struct {
		dir, recv, cprop string
	}{{"templates/goshared", goPkg + ".goSharedFuncs", "C14"}, {"templates/cc", tplPkg + "/cc.CCFuncs", "C20"}} {
		l := l
		u := p.unit(e, l.dir)
		p.H.Unit = tplPkg + strings.TrimPrefix(l.dir, "templates")
		recv := sym.StructV{Ty: l.recv, F: map[string]sym.Val{"Context": ctx}}
		lang := strings.TrimPrefix(l.dir, "templates/")
		cmp := func(fn, g string, valid func(s, n *smt.Term) *smt.Term) {
			gm := p.W.GoMsg[g]
			if gm == nil {
				p.Unsup = append(p.Unsup, lang+"."+fn+": "+g+" is not known")
				return
			}
			val := func(r *smt.Term) (sec, nanos, ns *smt.Term) {
				sec, nanos = secNanos(gm.Desc, r)
				return sec, nanos, smt.Add(smt.Mul(sec, billion), nanos)
			}
			what := lang + "." + fn
			p.call(u, what, "("+l.recv+")."+fn, nil, recv, func(x *sym.X, st *sym.State) []sym.Val {
				return []sym.Val{sym.MsgV{Ref: a, Go: g}, sym.MsgV{Ref: b, Go: g}}
			}, func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
				t, ok := res.(sym.TV)
				if !ok || t.T.Sort != smt.Bool {
					p.Unsup = append(p.Unsup, what+": its result is not tracked")
					return
				}
				as, an, ans := val(a)
				bs, bn, bns := val(b)
				hyps := append([]*smt.Term{smt.Not(model.IsNil(a)), smt.Not(model.IsNil(b)), valid(as, an), valid(bs, bn)}, x.Facts...)
				// a constant set as bound was accepted by the checker; equal bounds were not
				hyps = append(hyps, smt.Not(smt.Eq(ans, bns)))
				p.add("decision", what+" orders constants", "", []string{l.cprop}, hyps, smt.And(smt.Not(throws), smt.Iff(t.T, smt.Lt(bns, ans))))
				p.safety(x, what, "decision", []string{l.cprop}, hyps)
			})
		}
		cmp("durGt", durGo, func(s, n *smt.Term) *smt.Term {
			ns := smt.Add(smt.Mul(s, billion), n)
			return smt.And(govc.DurValid(s, n), smt.Eq(govc.Clamp(ns), ns))
		})
		if l.cprop == "C14" {
			cmp("tsGt", tsGo, govc.TSValid)
		}
		// accessors
		acc := smt.Var("self!acc", smt.Str)
		for _, fn := range []string{"accessor"} {
			what := lang + "." + fn
			props := []string{"C09", "C10", "C13"}
			if lang == "cc" {
				props = []string{"C20"}
			}
			p.call(u, what, "("+l.recv+")."+fn, nil, recv, func(x *sym.X, st *sym.State) []sym.Val {
				return []sym.Val{ctxOf(smt.Var("self!typ", smt.Str), smt.StrC(""), sym.NilV{}, sym.NilV{}, smt.False, smt.StrC(""), acc, smt.Var("self!f", smt.Ref))}
			}, func(x *sym.X, st *sym.State, res sym.Val, throws *smt.Term) {
				t, ok := text(res)
				if !ok {
					p.Unsup = append(p.Unsup, what+": its result is not tracked")
					return
				}
				hyps := append([]*smt.Term{smt.Not(smt.Eq(acc, smt.StrC("")))}, x.Facts...)
				p.add("decision", what+" reads items, keys, values and wrapped values through the variable that holds them", "", props, hyps, smt.And(smt.Not(throws), smt.Eq(t, acc)))
			})
		}
	}
	p.H.Unit = ""
}
