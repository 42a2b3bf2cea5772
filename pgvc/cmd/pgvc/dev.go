package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"strconv"
	"strings"
	"time"

	"pgvc/corpus"
	"pgvc/gen"
	"pgvc/govc"
	"pgvc/plug"
	"pgvc/replay"
	"pgvc/smt"
	"pgvc/spec"
)

func dev() {
	t0 := time.Now()
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer e.Close()
	gen.Logf("plugin built")
	var files []gen.File
	if strings.HasPrefix(os.Args[2], "mix:") {
		p, err := plug.New(e)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		n, _ := strconv.Atoi(os.Getenv("N"))
		files, err = p.Mix(os.Args[2][4:], seed, n)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
	} else {
		files = corpus.Groups[os.Args[2]](os.Getenv("DEEP") != "")
	}
	if os.Getenv("SHOW") != "" {
		for _, f := range files {
			fmt.Println(f.Body)
		}
	}
	w, err := e.Stage("w", files)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := w.GenGo(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	gen.Logf("generated: %d files, %d refused, %d uncompilable", len(w.Files), len(w.Refused), len(w.Uncomp))
	for f, m := range w.Refused {
		fmt.Println("REFUSED", f, m)
	}
	for f, m := range w.Uncomp {
		fmt.Println("UNCOMP", f, m)
	}
	if os.Getenv("REPLAY") != "" {
		rp, err := replay.New(w)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		gen.Logf("harness built")
		now := big.NewInt(time.Now().UnixNano())
		tot, seen := 0, map[string]int{}
		for _, f := range w.Gen.Files {
			if !f.Generate {
				continue
			}
			var js []replay.Job
			for _, m := range govc.Messages(f) {
				if spec.Validated(w, m) {
					js = append(js, rp.Jobs(m, "", now)...)
				}
			}
			tot += len(js)
			ms, err := rp.Compare(js)
			if err != nil {
				fmt.Println(err)
			}
			for _, m := range ms {
				k := m.Kind + m.Msg + m.Field
				seen[k]++
				if seen[k] == 1 && len(seen) < 30 {
					b, _ := json.Marshal(m.Inst)
					bb := string(b)
					if len(bb) > 1500 {
						bb = bb[:1500]
					}
					fmt.Println("MISMATCH", m.Kind, m.Msg, m.Field, m.Text, "\n   ", bb, m.Want)
				}
			}
		}
		gen.Logf("%d instances, %d mismatches", tot, len(seen))
		return
	}
	us, err := govc.Units(w)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	h := govc.NewHooks(w)
	var rs []*govc.MsgRun
	for _, f := range w.Gen.Files {
		if !f.Generate {
			continue
		}
		for _, m := range govc.Messages(f) {
			r := govc.Verify(w, h, us[string(m.GoIdent.GoImportPath)], m)
			rs = append(rs, r)
			if r.Unsup != "" {
				fmt.Println("UNSUP", r.Go, r.Unsup)
			}
		}
	}
	n := 0
	kinds := map[string]bool{}
	cnt := map[string]int{}
	for _, r := range rs {
		for _, o := range r.Obligs {
			n++
			kinds[o.Kind] = true
			cnt[o.Kind]++
		}
	}
	gen.Logf("%d messages, %d obligations %v", len(rs), n, cnt)
	if k := os.Getenv("KINDS"); k != "" {
		kinds = map[string]bool{}
		for _, x := range strings.Split(k, ",") {
			kinds[x] = true
		}
	}
	if os.Getenv("SIZES") != "" {
		mx := map[string]int{}
		ex := map[string]*govc.Oblig{}
		for _, r := range rs {
			for _, o := range r.Obligs {
				memo := map[*smt.Term]float64{}
				var tree func(t *smt.Term) float64
				tree = func(t *smt.Term) float64 {
					if v, ok := memo[t]; ok {
						return v
					}
					n := 1.0
					for _, a := range t.Args {
						n += tree(a)
					}
					memo[t] = n
					return n
				}
				f := tree(o.Goal)
				for _, h := range o.Hyps {
					f += tree(h)
				}
				for _, a := range o.Alt {
					f += tree(a.Goal)
				}
				if f > 1e15 {
					f = 1e15
				}
				sz := int(f)
				if sz > mx[o.Kind] {
					mx[o.Kind] = sz
					ex[o.Kind] = o
				}
			}
		}
		for k, v := range mx {
			fmt.Println("SIZE", k, v, ex[k].ID(), len(ex[k].Hyps))
		}
		return
	}
	done, failed, _ := govc.Discharge(rs, func(o *govc.Oblig) bool { return kinds[o.Kind] }, 1<<30, time.Now().Add(time.Hour))
	gen.Logf("%d done, %d failed", len(done), len(failed))
	if d := os.Getenv("DUMP"); d != "" {
		for _, o := range failed {
			if strings.Contains(o.ID(), d) {
				fmt.Println("==", o.Kind, o.ID())
				for _, h := range o.Hyps {
					fmt.Println("  hyp", h)
				}
				fmt.Println("  goal", o.Goal)
				for _, a := range o.Alt {
					fmt.Println("  alt", a.Goal)
					for _, h := range a.Hyps {
						fmt.Println("     hyp", h)
					}
				}
				fmt.Println(o.Res.Status, o.Res.Why, o.Res.Script)
				break
			}
		}
	}
	for i, o := range failed {
		if i > 20 {
			break
		}
		fmt.Println("FAILED", o.Kind, o.ID())
		if o.Res != nil {
			fmt.Println("   ", o.Res.Status, o.Res.Why, o.Res.Solver)
		}
	}
	fmt.Println(time.Since(t0))
}
