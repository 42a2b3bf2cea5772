package main

import (
	"fmt"
	"time"

	"pgvc/ccvc"
	"pgvc/gen"
	"pgvc/govc"
)

// cchdr proves validate.h.
func cchdr() {
	e, err := gen.New()
	die(err)
	defer e.Close()
	u, err := ccvc.HeaderUnit(e)
	die(err)
	r := ccvc.VerifyHeader(u)
	for k, v := range r.Unsup {
		fmt.Println("UNSUP", k, v)
	}
	done, failed, sk := govc.DischargeList(r.Obligs, 100, time.Now().Add(5*time.Minute))
	for _, o := range done {
		fmt.Println(o.ID(), o.Res.Status, o.Res.Solver)
	}
	for _, o := range failed {
		fmt.Println("FAILED", o.ID(), o.Res.Status, o.Res.Why)
		fmt.Println(o.Res.Script)
	}
	fmt.Println(len(r.Obligs), len(done), len(failed), sk, r.Loops, r.H.UsedList())
}
