package check

import (
	"fmt"
	"time"

	"pgvc/gen"
	"pgvc/govc"
	"pgvc/plug"
	"pgvc/smt"
)

func init() {
	for _, id := range []string{"C01", "C02", "C03"} {
		Checks[id] = plugCheck
	}
}

func plugCheck(c *Ctx) error {
	c.Trust("the Go type checker and the lowering of typed Go syntax to the verifier's language (pgvc/gofe)",
		"the verification condition generator (pgvc/sym) and the axioms of its theory of strings (pgvc/model)",
		"the specification of contradictory and misfit rules written from the documentation (pgvc/plug/spec.go)",
		"z3 4.8.12, cvc5 1.1.2", "protoc: descriptors and options")
	c.Assume["protoc-gen-star's view of a file (types, labels, nesting) is the file's"] = true
	c.Assume["rule messages nest to any depth: the recursive calls of the checker are used by their contract (partial correctness; the recursion follows the finite nesting of the rules)"] = true
	p, err := plug.New(c.Env)
	if err != nil {
		return err
	}
	real, err := plug.NewReal(p, c.Env)
	if err != nil {
		return err
	}
	// inputs first: they name what fails when something does
	cs := plug.Cands(c.Seed, c.Deep())
	ms, err := real.Run(cs)
	if err != nil {
		return err
	}
	found := false
	for _, m := range ms {
		if m.Prop != c.Prop {
			continue
		}
		found = true
		c.Violation(Viol{Key: "checker/" + m.C.Kind + fmt.Sprint(m.Refused), Text: m.Text, Data: map[string]any{"proto": m.C.Decl(), "refused": m.Refused, "why": m.Why, "plug": "candidate", "type": m.C.T.Type, "rules": m.C.Rules, "disabled": m.C.Disabled}})
	}
	runs := plug.RunCases()
	rm, err := real.RunAll(c.Env, runs)
	if err != nil {
		return err
	}
	for _, m := range rm {
		if m.C.Prop != c.Prop {
			continue
		}
		found = true
		c.Violation(Viol{Key: "run/" + m.C.What, Text: m.Text, Data: map[string]any{"plug": "run", "files": m.C.Files, "param": m.C.Param, "expected_refused": m.C.Want, "why": m.Why}})
	}
	gen.Logf("%d candidates, %d runs: %d, %d misjudged", len(cs), len(runs), len(ms), len(rm))
	c.Cov["rule_sets_run"] = len(cs)
	c.Cov["runs"] = len(runs)
	p.Verify()
	return plugProve(c, p, found, "(the enumerated rule sets and runs only)")
}

// plugProve discharges the checker's obligations of the property.
func plugProve(c *Ctx, p *plug.P, found bool, stands string) error {
	for f := range p.Funcs {
		c.Funcs[f] = true
	}
	c.Loops += p.Loops
	var todo []*govc.Oblig
	for _, o := range p.Obligs {
		for _, q := range o.Props {
			if q == c.Prop {
				o.Oblig.Msg = o.Kind
				todo = append(todo, o.Oblig)
				c.Kinds["plugin"]++
			}
		}
	}
	for _, u := range p.H.UsedList() {
		c.Trust("assumed contract: " + u)
	}
	for _, u := range p.Unsup {
		c.Bounded = append(c.Bounded, "bounded "+stands+": "+u)
	}
	return discharge(c, todo, found)
}

// discharge sends obligations to the solvers; found says inputs show a
// violation already.
func discharge(c *Ctx, todo []*govc.Oblig, found bool) error {
	deadline := c.Start.Add(budget)
	max := 12
	if found {
		deadline, max = time.Now().Add(60*time.Second), 6
		smt.TimeoutMS = 2500
	}
	done, failed, skipped := govc.DischargeList(todo, max, deadline)
	gen.Logf("%d obligations: %d discharged, %d failed, %d skipped", len(todo), len(done)-len(failed), len(failed), skipped)
	c.Oblig += len(todo)
	c.Done += len(done) - len(failed)
	c.Skipped += skipped
	for i := 0; i < len(done) && len(c.Samples) < 8; i += 1 + len(done)/8 {
		c.Samples = append(c.Samples, done[i].ID())
	}
	if skipped > 0 && len(failed) == 0 && !found {
		c.Violation(Viol{Key: "plugin/budget", NoInput: true, Text: fmt.Sprintf("%d obligations were not decided within %v", skipped, budget), Data: map[string]any{"skipped": skipped}})
	}
	for _, o := range failed {
		data := map[string]any{"obligation": o.ID(), "at": o.At, "tier": c.Tier}
		if o.Res != nil {
			data["verifier"] = map[string]any{"status": o.Res.Status, "solver": o.Res.Solver, "goal": trunc(o.Res.Why, 2000), "script": trunc(o.Res.Script, 20000)}
		}
		if found {
			// the inputs above show the violation; the obligation is named with them
			if v := c.Viols[0]; v.Data["obligation"] == nil {
				for k, x := range data {
					v.Data[k] = x
				}
			}
			continue
		}
		c.Violation(Viol{Key: "plugin/" + o.ID(), Text: "obligation not discharged: " + o.ID(), Data: data, NoInput: true})
	}
	return nil
}

// replayPlug runs a reported rule set or run against the current plugin.
func replayPlug(what, typ, rules string, disabled bool, rc plug.RunCase) int {
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer e.Close()
	p, err := plug.New(e)
	var real *plug.Real
	if err == nil {
		real, err = plug.NewReal(p, e)
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	if what == "run" {
		ms, err := real.RunAll(e, []plug.RunCase{rc})
		for _, m := range ms {
			fmt.Println("still:", m.Text, m.Why)
		}
		fmt.Println(len(ms), "misjudged", err)
		return 0
	}
	for _, deep := range []bool{false, true} {
		for _, c := range plug.Cands(0, deep) {
			if c.T.Type == typ && c.Rules == rules && c.Disabled == disabled {
				ms, err := real.Run([]*plug.Cand{c})
				for _, m := range ms {
					fmt.Println("still:", m.Text)
				}
				fmt.Println(len(ms), "misjudged", err)
				return 0
			}
		}
	}
	fmt.Println("the rule set is not among the candidates")
	return 0
}
