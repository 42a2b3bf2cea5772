package check

import (
	"fmt"
	"sort"
	"strings"

	"pgvc/ccvc"
	"pgvc/gen"
	"pgvc/replay"
)

func init() { Checks["C21"] = hdrCheck }

func hdrCheck(c *Ctx) error {
	c.Trust("clang 18 -ast-dump: types, overloads, conversions; the lowering of its syntax tree to the verifier's language (pgvc/ccfe)",
		"the verification condition generator (pgvc/sym, pgvc/ccvc/header.go) and the axioms of its theory of strings (pgvc/model)",
		"z3 4.8.12, cvc5 1.1.2",
		"C++ integers are bounded by their types; operations that could leave the range wrap or are obligations")
	c.Assume["Utf8Len: strings are valid UTF-8 of at most INT_MAX bytes"] = true
	c.Assume["the registry: registrations do not run concurrently with each other or with validations; message types are distinguished by typeid, two types stand for any two"] = true
	for _, h := range ccvc.Helpers {
		c.Assume["definition: "+h.Text] = true
	}
	// inputs first: they name what fails when something does
	found := false
	cs := replay.HeaderCases(c.Seed, c.Deep())
	rp, err := replay.NewHeader(c.Env)
	if err != nil {
		c.Bounded = append(c.Bounded, "validate.h does not compile with the replay program: "+trunc(err.Error(), 300))
	} else {
		got, err := rp.Run(cs)
		if err != nil {
			return err
		}
		for i, g := range got {
			if g == cs[i].Want {
				continue
			}
			found = true
			fn := strings.Fields(cs[i].Line)[0]
			c.Violation(Viol{Key: "header/" + fn, Text: fmt.Sprintf("%s yields %s, by definition %s", cs[i].Text, g, cs[i].Want), Data: map[string]any{"plug": "header", "encoded": cs[i].Line, "yields": g, "expected": cs[i].Want}})
		}
		c.Cov["calls_compared"] = len(got)
	}
	gen.Logf("%d calls compared", len(cs))
	u, err := ccvc.HeaderUnit(c.Env)
	if err != nil {
		c.Bounded = append(c.Bounded, "bounded (the enumerated calls only): clang: "+trunc(err.Error(), 300))
		return nil
	}
	r := ccvc.VerifyHeader(u)
	for _, f := range r.Funcs {
		c.Funcs[f] = true
	}
	c.Loops += r.Loops
	var un []string
	for k, v := range r.Unsup {
		un = append(un, k+": "+v)
	}
	sort.Strings(un)
	for _, s := range un {
		c.Bounded = append(c.Bounded, "bounded (the enumerated calls only): "+s)
	}
	for _, o := range r.Obligs {
		c.Kinds[o.Kind]++
	}
	for _, s := range r.H.UsedList() {
		c.Trust("assumed contract: " + s)
	}
	return discharge(c, r.Obligs, found)
}

// replayHeader repeats a recorded call.
func replayHeader(line string) int {
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer e.Close()
	rp, err := replay.NewHeader(e)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	got, err := rp.Run([]replay.HeaderCase{{Line: line}})
	if err != nil {
		fmt.Println(err)
		return 2
	}
	fmt.Println(line, "->", got)
	return 0
}
