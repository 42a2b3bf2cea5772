package check

import (
	"fmt"

	"pgvc/gen"
	"pgvc/plug"
)

func init() { Checks["C25"] = outputsCheck }

// outputsCheck decides what the plugin writes where: the contracts of the
// functions that name outputs and of Execute, beside runs of the real plugin.
func outputsCheck(c *Ctx) error {
	c.Trust("the Go type checker and the lowering of typed Go syntax to the verifier's language (pgvc/gofe)",
		"the verification condition generator (pgvc/sym) and the axioms of its theory of strings (pgvc/model)",
		"z3 4.8.12, cvc5 1.1.2", "protoc and its own C++ and Java generators, protoc-gen-go: where they write and what they name")
	c.Assume["what a template renders depends on its node only (rendering is by text/template, whose maps are visited in key order); reruns with other environments and target orders cross-check it"] = true
	p, err := plug.New(c.Env)
	if err != nil {
		return err
	}
	real, err := plug.NewReal(p, c.Env)
	if err != nil {
		return err
	}
	found := false
	runs := plug.RunCases()
	rm, err := real.RunAll(c.Env, runs)
	if err != nil {
		return err
	}
	n := 0
	for _, r := range runs {
		if r.Prop == c.Prop {
			n++
		}
	}
	for _, m := range rm {
		if m.C.Prop != c.Prop {
			continue
		}
		found = true
		c.Violation(Viol{Key: "run/" + m.C.What, Text: m.Text, Data: map[string]any{"plug": "run", "files": m.C.Files, "param": m.C.Param, "expected_refused": m.C.Want, "why": m.Why}})
	}
	ms, k, err := plug.RunOutputs(c.Env, c.Seed, c.Deep())
	if err != nil {
		return err
	}
	for _, m := range ms {
		v := Viol{Key: "outputs/" + m.Key, Text: m.Text, Data: m.Data}
		v.Data["plug"] = "outputs"
		c.Violation(v)
		if !c.isKnown(v.Key) {
			found = true
		}
	}
	gen.Logf("%d runs: %d misjudged", n+k, len(ms))
	c.Cov["runs"] = n + k
	p.Verify()
	p.VerifyPaths(c.Env)
	c.Bounded = append(c.Bounded, "bounded (names of the output runs, against protoc's Java generator): sanitizeClassName, whose contract is used where it is called")
	return plugProve(c, p, found, "(the output runs only)")
}

// replayOutputs repeats the output runs.
func replayOutputs(text string) int {
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer e.Close()
	ms, n, err := plug.RunOutputs(e, 1, false)
	for _, m := range ms {
		if m.Text == text {
			fmt.Println("still:", m.Text)
		}
	}
	fmt.Println(n, "runs,", len(ms), "misjudged", err)
	return 0
}
