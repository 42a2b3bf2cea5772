package main

import (
	"fmt"
	"sort"

	"pgvc/corpus"
	"pgvc/gen"
)

// compdev lists what the plugin refuses and what does not compile.
func compdev() {
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		return
	}
	defer e.Close()
	w, err := e.Stage("cmp", append(corpus.Compile(true)[1400:], corpus.CompileHead()...))
	if err != nil {
		fmt.Println(err)
		return
	}
	gen.Logf("staged %d", len(w.Files))
	if err := w.GenGo(); err != nil {
		fmt.Println(err)
	}
	gen.Logf("generated: %d files, %d refused, %d uncompilable", len(w.Files), len(w.Refused), len(w.Uncomp))
	var ls []string
	for _, f := range w.Files {
		if m := w.Refused[f.Name]; m != "" {
			if len(m) > 250 {
				m = m[:250]
			}
			ls = append(ls, "REFUSED "+f.Body+"      "+m)
		}
		if m := w.Uncomp[f.Name]; m != "" {
			ls = append(ls, "UNCOMP "+f.Body+"      "+m)
		}
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Println(l)
	}
}
