package main

import (
	"math/rand"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// checkInit initializes phase 2 for the circuit and compares the result with the definition.
func checkInit(c *circ, power byte, special bool) {
	s := secrets{rnd(), rnd(), rnd()}
	mkP1(power, s.tau, s.alpha, s.beta).write("init.ph1")
	writeR1CS("init.r1cs", c.r1cs(special))
	err := silent(func() error { return phase2.Initialize("init.ph1", "init.r1cs", "init.ph2") })
	check(err == nil, "initialization fails: %v", err)
	compareInit(c, s, "init.ph2")
}

func compareInit(c *circ, s secrets, path string) {
	p, err := readP2(path)
	check(err == nil, "cannot read phase 2: %v", err)
	e, err := readEvals("evals")
	check(err == nil, "cannot read evals: %v", err)
	q, f := c.refP2(s)
	check(p.H == q.H, "wrong header %v", p.H)
	check(p.D1.Equal(&q.D1) && p.D2.Equal(&q.D2), "wrong delta")
	check(same1(p.Z, q.Z), "wrong Z")
	check(same1(p.PKK, q.PKK), "wrong private points")
	check(e.A1.Equal(&f.A1) && e.B1.Equal(&f.B1) && e.B2.Equal(&f.B2), "wrong alpha or beta")
	check(same1(e.A, f.A), "wrong A")
	check(same1(e.B, f.B), "wrong B in G1")
	check(same2(e.BB, f.BB), "wrong B in G2")
	check(same1(e.VKK, f.VKK), "wrong public points")
	check(same1(e.CKK, f.CKK), "wrong committed points")
}

// rndCirc is a circuit with arbitrary terms.
func rndCirc(pub, sec, internal, cons int, coeff func() fr.Element) *circ {
	c := &circ{pub: pub, sec: sec, internal: internal}
	for i := 0; i < cons; i++ {
		var k [3][]term
		for j := range k {
			for n := rand.Intn(3) + 1; n > 0; n-- {
				k[j] = append(k[j], term{rand.Intn(c.wires()), coeff()})
			}
		}
		c.cons = append(c.cons, k)
	}
	return c
}

func smallCoeff() fr.Element {
	v := []int{0, 1, 2, -1, -2, 7}
	return num(v[rand.Intn(len(v))])
}
