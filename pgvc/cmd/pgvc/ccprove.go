package main

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"google.golang.org/protobuf/compiler/protogen"

	"pgvc/ccvc"
	"pgvc/gen"
	"pgvc/govc"
	"pgvc/replay"
)

// ccprove sends the obligations on the C++ code of a world to the solvers.
func ccprove(w *gen.World, cc *gen.CC) {
	us, err := ccvc.Units(cc)
	die(err)
	h := ccvc.NewHooks(w, cc, us)
	only := os.Getenv("ONLY")
	var rs []*govc.MsgRun
	for _, f := range w.Gen.Files {
		u := us[strings.TrimSuffix(f.Desc.Path(), ".proto")]
		if !f.Generate || u == nil {
			continue
		}
		for _, m := range govc.Messages(f) {
			if only != "" && !strings.Contains(string(m.Desc.FullName()), only) {
				continue
			}
			rs = append(rs, ccvc.Verify(h, u, m))
		}
	}
	un := map[string]int{}
	ex := map[string]*protogen.Message{}
	n := 0
	for _, r := range rs {
		n += len(r.Obligs)
		if r.Unsup != "" {
			k := r.Unsup
			if i := strings.Index(k, ": "); i >= 0 {
				k = k[i:]
			}
			un[k]++
			ex[k] = r.M
		}
	}
	var ks []string
	for k := range un {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println("UNSUP", un[k], k, ex[k].Desc.FullName())
	}
	gen.Logf("%d messages, %d obligations", len(rs), n)
	if os.Getenv("REPLAY") != "" {
		var ms []*protogen.Message
		for _, r := range rs {
			ms = append(ms, r.M)
		}
		rp, err := replay.NewCC(w, cc, ms, h.ClassOf, h.Valid, ccvc.Names)
		die(err)
		now := big.NewInt(time.Now().UnixNano())
		var jobs []replay.Job
		for _, m := range ms {
			jobs = append(jobs, rp.R.Jobs(m, "", now)...)
		}
		gen.Logf("replay built, %d jobs", len(jobs))
		mm, n, err := rp.Compare(jobs, now, ccvc.HasWord)
		die(err)
		gen.Logf("compared %d: %d differences", n, len(mm))
		seen := map[string]int{}
		for _, m := range mm {
			if seen[m.Msg+m.Field]++; seen[m.Msg+m.Field] < 3 {
				fmt.Println("MISMATCH", m.Kind, m.Msg, m.Field, m.Text, m.Inst)
			}
		}
	}
	done, failed, skipped := govc.Discharge(rs, func(*govc.Oblig) bool { return true }, 40, time.Now().Add(500*time.Second))
	gen.Logf("done %d failed %d skipped %d", len(done), len(failed), skipped)
	for _, o := range failed {
		fmt.Println("FAILED", o.Kind, o.ID())
		if o.Res != nil {
			fmt.Println("   ", o.Res.Status, o.Res.Solver)
			if os.Getenv("V") != "" {
				fmt.Println(o.Res.Why)
			}
		}
	}
	for _, u := range h.UsedList() {
		fmt.Println("assumed:", u)
	}
}
