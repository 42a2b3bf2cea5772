package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pgvc/ccfe"
	"pgvc/corpus"
	"pgvc/gen"
	"pgvc/ir"
	"pgvc/plug"
)

func die(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}

func ccdev() {
	e, err := gen.New()
	die(err)
	defer e.Close()
	for _, g := range strings.Split(os.Args[2], ",") {
		var files []gen.File
		if strings.HasPrefix(g, "mix:") {
			p, err := plug.New(e)
			die(err)
			seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
			n, _ := strconv.Atoi(os.Getenv("N"))
			files, err = p.Mix(g[4:], seed, n)
			die(err)
		} else {
			files = corpus.Groups[g](false)
		}
		if os.Getenv("SHOW") != "" {
			for _, f := range files {
				fmt.Println(f.Body)
			}
		}
		w, err := e.Stage("w"+strings.Replace(g, ":", "", 1), files)
		die(err)
		dr, err := corpus.CCFilter(w)
		die(err)
		by := map[string]int{}
		for _, y := range dr {
			by[y]++
		}
		gen.Logf("%s: dropped %v", g, by)
		cc, err := w.GenCC()
		die(err)
		gen.Logf("pch; refused %v", cc.Refused)
		if os.Getenv("PROVE") != "" {
			ccprove(w, cc)
			continue
		}
		fs := cc.Files()
		out := make([]string, len(fs))
		gen.Par(len(fs), func(i int) {
			se, err := cc.Clang(append(append([]string{}, gen.CCFlags...), "-I.", "-I"+gen.Repo, "-include-pch", cc.PCH, "-ferror-limit=0", "-fsyntax-only", cc.Src(fs[i]))...)
			if err != nil {
				out[i] = se
			}
		})
		if os.Getenv("LOWER") != "" {
			var mu sync.Mutex
			bad := map[string]int{}
			nv := 0
			gen.Par(len(fs), func(i int) {
				if out[i] != "" {
					return
				}
				root, err := ccfe.Parse(cc.Dir, cc.PCH, cc.Src(fs[i]), cc.Inc())
				die(err)
				u := ccfe.Lower(root, cc.Src(fs[i]))
				mu.Lock()
				defer mu.Unlock()
				nv += len(u.Validate)
				for k, f := range u.Funcs {
					if b, ok := f.Body.L[0].(*ir.Bad); ok && len(f.Body.L) == 1 {
						bad[b.Why]++
						if os.Getenv("V") != "" {
							fmt.Println(k, b.At, b.Why)
						}
					}
				}
				for k, v := range u.Registered {
					if v != k {
						bad["registered "+k+" "+v]++
					}
				}
				for _, g := range u.Globals {
					if b, ok := g.Init.(*ir.Unsupported); ok {
						bad["global: "+b.Why]++
					}
				}
			})
			fmt.Println(g, nv, bad)
		}
		n := map[string]int{}
		ex := map[string]string{}
		for i, o := range out {
			for _, l := range strings.Split(o, "\n") {
				if j := strings.Index(l, "error: "); j >= 0 {
					n[l[j:]]++
					ex[l[j:]] = fs[i].Name + l[:j]
				}
			}
		}
		var ks []string
		for k := range n {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println(n[k], k, ex[k])
		}
		gen.Logf("%s: checked %d files", g, len(fs))
	}
}
