// Command pgvc decides the properties of /verif/properties.jsonl.
//
//	pgvc check C04       decide a property (tier from VERIF_TIER)
//	pgvc replay FILE     run a reported input against the current code
//	pgvc dev GROUP       verify one corpus group and print what fails
package main

import (
	"fmt"
	"os"

	"pgvc/check"
)

func main() {
	if len(os.Args) < 3 {
		fmt.Println("usage: pgvc check|replay|dev ARG")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(check.Main(os.Args[2]))
	case "replay":
		os.Exit(check.Replay(os.Args[2]))
	case "plugcands":
		plugcands()
	case "compdev":
		compdev()
	case "ccdev":
		ccdev()
	case "cchdr":
		cchdr()
	case "ccheader":
		ccheader()
	case "outdev":
		outdev()
	case "plugdev":
		plugdev()
	default:
		dev()
	}
}
