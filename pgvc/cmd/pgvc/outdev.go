package main

import (
	"fmt"
	"os"
	"time"

	"pgvc/gen"
	"pgvc/plug"
)

func outdev() {
	e, err := gen.New()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	defer e.Close()
	t := time.Now()
	ms, n, err := plug.RunOutputs(e, 1, false)
	for _, m := range ms {
		fmt.Println(m.Key, m.Text)
	}
	fmt.Println(n, "runs", err, time.Since(t))
}
