package main

import (
	"fmt"
	"os"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

func rnd() (x fr.Element) {
	for x.IsZero() {
		_, err := x.SetRandom()
		must(err)
	}
	return
}

// check ends the demonstration when a guarantee does not hold.
func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Fprintf(os.Stderr, "DEMO: "+format+"\n", args...)
		os.Exit(1)
	}
}

func pairEq(a1 bn254.G1Affine, a2 bn254.G2Affine, b1 bn254.G1Affine, b2 bn254.G2Affine) bool {
	var n bn254.G1Affine
	n.Neg(&b1)
	ok, err := bn254.PairingCheck([]bn254.G1Affine{a1, n}, []bn254.G2Affine{a2, b2})
	must(err)
	return ok
}

// silent drops what f prints.
func silent(f func() error) error {
	out := os.Stdout
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	defer func() { os.Stdout = out; null.Close() }()
	return f()
}
