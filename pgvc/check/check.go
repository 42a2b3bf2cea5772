// Package check decides the properties: it generates the obligations from
// /repo's current tree, discharges them, replays what fails, and writes the
// evidence.
package check

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"

	"pgvc/gen"
	"pgvc/smt"
)

// Verif is the directory of the committed files.
var Verif = func() string {
	if d := os.Getenv("PGVC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}()

// Ctx collects what one check finds.
type Ctx struct {
	Prop  string
	Tier  string
	Seed  int64
	Env   *gen.Env
	Start time.Time

	Viols     []Viol
	Known     []string
	Oblig     int
	Done      int
	Funcs     map[string]bool
	Loops     int
	Kinds     map[string]int
	Trusted   map[string]bool
	Assume    map[string]bool
	Bounded   []string
	Cov       map[string]any
	Samples   []string
	CrossRuns int
	Skipped   int
	Refuted   int // groups with inputs that refute a contract
}

// Viol is one violation.
type Viol struct {
	Key     string // where, for grouping
	Text    string
	Data    map[string]any
	NoInput bool
}

func (c *Ctx) Deep() bool { return c.Tier == "thorough" }

// Violation records a violation; one per key is kept.
func (c *Ctx) Violation(v Viol) {
	for i, o := range c.Viols {
		if o.Key == v.Key {
			if o.NoInput && !v.NoInput {
				c.Viols[i] = v
			}
			return
		}
	}
	c.Viols = append(c.Viols, v)
}

// Trust adds to the trusted base.
func (c *Ctx) Trust(ss ...string) {
	for _, s := range ss {
		c.Trusted[s] = true
	}
}

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type fn func(c *Ctx) error

// Checks by property.
var Checks = map[string]fn{}

// Main runs a check and returns the exit code.
func Main(prop string) int {
	f, ok := Checks[prop]
	if !ok {
		fmt.Println("no check for", prop)
		return 2
	}
	c := &Ctx{Prop: prop, Tier: os.Getenv("VERIF_TIER"), Start: time.Now(), Funcs: map[string]bool{}, Kinds: map[string]int{}, Trusted: map[string]bool{}, Assume: map[string]bool{}, Cov: map[string]any{}}
	if c.Tier == "" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	defer smt.Shutdown()
	ed := filepath.Join(Verif, "evidence")
	os.MkdirAll(ed, 0o755)
	old, _ := filepath.Glob(filepath.Join(ed, "replay-"+prop+"-*.json"))
	for _, o := range old {
		os.Remove(o)
	}
	e, err := gen.New()
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer e.Close()
	c.Env = e
	gen.Logf("plugin built")
	if err := f(c); err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	known := c.applyKnown()
	for _, k := range known {
		fmt.Println(k)
	}
	sort.SliceStable(c.Viols, func(i, j int) bool { return !c.Viols[i].NoInput && c.Viols[j].NoInput })
	for i, v := range c.Viols {
		if i >= 8 {
			fmt.Printf("(%d further violations not listed)\n", len(c.Viols)-i)
			break
		}
		path := filepath.Join(ed, fmt.Sprintf("replay-%s-%d.json", prop, i))
		v.Data["property"] = prop
		v.Data["what"] = v.Text
		b, _ := json.MarshalIndent(v.Data, "", " ")
		os.WriteFile(path, append(b, '\n'), 0o644)
		s := fmt.Sprintf("VIOLATION property=%s replay=%s", prop, path)
		fmt.Println("#", v.Text)
		if v.NoInput {
			s += " no-failing-input-found"
		}
		fmt.Println(s)
	}
	c.evidence()
	if len(c.Viols) > 0 {
		return 1
	}
	return 0
}

func (c *Ctx) evidence() {
	level := "proof"
	if _, ok := goProps[c.Prop]; ok || ccProps[c.Prop] != nil {
		level = "translation_validation"
	}
	cov := map[string]any{
		"obligations":              c.Oblig,
		"discharged":               c.Done,
		"checker_cmd":              "z3 -in (4.8.12), cvc5 when z3 gives no answer; a propositional simplifier discharges trivial goals",
		"trusted_base":             keys(c.Trusted),
		"functions_under_contract": len(c.Funcs),
		"loop_invariants":          c.Loops,
		"obligations_by_kind":      c.Kinds,
		"solver_queries":           atomic.LoadInt64(&smt.Stats.Queries),
		"solver_cvc5":              atomic.LoadInt64(&smt.Stats.CVC5),
		"solver_s":                 float64(atomic.LoadInt64(&smt.Stats.Nanos)) / 1e9,
		"slowest_query_s":          float64(atomic.LoadInt64(&smt.Stats.MaxNanos)) / 1e9,
		"bounded_stand_ins":        append([]string{}, c.Bounded...),
		"obligations_skipped":      c.Skipped,
	}
	fs := keys(c.Funcs)
	if len(fs) > 12 {
		fs = fs[:12]
	}
	cov["functions_sample"] = fs
	if len(c.Samples) > 0 {
		cov["samples"] = c.Samples
	}
	for k, v := range c.Cov {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": level, "coverage": cov,
		"assumptions": keys(c.Assume), "wall_s": time.Since(c.Start).Seconds(), "violations": len(c.Viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(Verif, "evidence", c.Prop+".json"), append(b, '\n'), 0o644)
}

// known findings: lines "known: property=ID key=KEY what fails".
type finding struct{ prop, key, text string }

func findings() []finding {
	b, _ := os.ReadFile(filepath.Join(Verif, "known-findings.txt"))
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: property="), " ", 3)
		if len(f) == 3 && strings.HasPrefix(f[1], "key=") {
			out = append(out, finding{f[0], strings.TrimPrefix(f[1], "key="), f[2]})
		}
	}
	return out
}

// isKnown tells whether the key is a listed finding of the property.
func (c *Ctx) isKnown(key string) bool {
	for _, f := range findings() {
		if f.prop == c.Prop && f.key == key {
			return true
		}
	}
	return false
}

// applyKnown removes the violations the known-findings file lists (their key
// is exactly the listed one) and returns the lines to print.
func (c *Ctx) applyKnown() []string {
	var out []string
	var rest []Viol
	fs := findings()
	for _, v := range c.Viols {
		hit := false
		for _, f := range fs {
			if f.prop == c.Prop && f.key == v.Key {
				out = append(out, fmt.Sprintf("KNOWN-FINDING: property=%s %s", c.Prop, f.text))
				hit = true
			}
		}
		if !hit {
			rest = append(rest, v)
		}
	}
	c.Viols = rest
	return out
}
