// Command replay runs one harness natively.
// usage: replay HARNESS WITNESS.json|- SEED [STDOUT-FILE]
package main

import (
	"fmt"
	"os"
	"runtime"

	"verif/harness/h"
	"verif/harness/sym"
)

func main() {
	f, ok := h.All[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "no harness", os.Args[1])
		os.Exit(2)
	}
	w := os.Args[2]
	if w == "-" {
		w = ""
	}
	so := ""
	if len(os.Args) > 4 {
		so = os.Args[4]
	}
	sym.Setup(w, os.Args[3], so)
	_ = runtime.NumCPU()
	f()
	fmt.Fprintln(os.Stderr, "SYM-DONE")
}
