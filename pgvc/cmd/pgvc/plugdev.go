package main

import (
	"fmt"
	"os"
	"strings"

	"pgvc/gen"
	"pgvc/govc"
	"pgvc/plug"
)

func plugdev() {
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer e.Close()
	p, err := plug.New(e)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if os.Getenv("FNS") != "" {
		p.VerifyPaths(e)
		p.VerifyFns(e)
	} else {
		p.Verify()
	}
	fmt.Println("mutable", p.H.Mut)
	for _, u := range p.Unsup {
		fmt.Println("UNSUP", u)
	}
	only := os.Getenv("ONLY")
	for _, o := range p.Obligs {
		if only != "" && !strings.Contains(o.Kind+" "+o.Name, only) {
			continue
		}
		ok := govc.Prove(o.Oblig)
		if !ok {
			fmt.Println("FAIL", o.Props, o.Name, o.Res.Status, o.Res.Solver)
			if os.Getenv("DUMP") != "" {
				for _, h := range o.Hyps {
					if strings.Contains(h.String(), "!!!") {
						continue
					}
					fmt.Println("   H", h)
				}
				fmt.Println("   G", o.Goal)
				fmt.Println(o.Res.Model)
			}
		} else if os.Getenv("V") != "" {
			fmt.Println("ok  ", o.Props, o.Name, o.Res.Solver)
		}
	}
	fmt.Println(len(p.Obligs), "obligations", len(p.Funcs), "functions", p.Loops, "loops")
	fmt.Println(p.H.UsedList())
}

func plugcands() {
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer e.Close()
	p, err := plug.New(e)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	r, err := plug.NewReal(p, e)
	if err != nil {
		fmt.Println(err)
		return
	}
	cs := plug.Cands(1, os.Getenv("DEEP") != "")
	fmt.Println(len(cs), "candidates")
	ms, err := r.Run(cs)
	bad := 0
	for _, c := range cs {
		if len(c.Causes) > 0 {
			bad++
		}
	}
	fmt.Println(bad, "to be refused;", len(ms), "misjudged", err)
	for i, m := range ms {
		if i < 30 {
			fmt.Println(m.Prop, m.Text)
		}
	}
}
