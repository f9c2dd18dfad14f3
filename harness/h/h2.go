package h

import (
	"bytes"
	"math/big"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"verif/harness/sym"
)

func symSecrets() secrets {
	return secrets{sym.NzFr("tau"), sym.NzFr("alpha"), sym.NzFr("beta")}
}

func (s secrets) writeP1(path string, power byte) *p1 {
	p := mkP1(power, s.tau, s.alpha, s.beta)
	p.write(path)
	return p
}

// dense is a circuit of the given shape in which every wire occurs in every
// linear expression with an arbitrary coefficient.
func dense(pub, sec, internal, cons int) *circ {
	return full(pub, sec, internal, cons, sym.Fr)
}

// generic is dense with independent random coefficients.
func generic(pub, sec, internal, cons int) *circ {
	return full(pub, sec, internal, cons, sym.RndFr)
}

func full(pub, sec, internal, cons int, coeff func(string) fr.Element) *circ {
	c := &circ{pub: pub, sec: sec, internal: internal}
	for j := 0; j < cons; j++ {
		var k [3][]term
		for i := range k {
			for w := 0; w < c.wires(); w++ {
				k[i] = append(k[i], term{w, coeff("c")})
			}
		}
		c.cons = append(c.cons, k)
	}
	return c
}

func sameInfo(a, b constraint.Commitment) bool {
	if len(a.Committed) != len(b.Committed) || len(a.CommittedAndCommitment) != len(b.CommittedAndCommitment) {
		return false
	}
	for i := range a.Committed {
		if a.Committed[i] != b.Committed[i] {
			return false
		}
	}
	for i := range a.CommittedAndCommitment {
		if a.CommittedAndCommitment[i] != b.CommittedAndCommitment[i] {
			return false
		}
	}
	return a.NbPrivateCommitted == b.NbPrivateCommitted && a.CommitmentIndex == b.CommitmentIndex && a.HintID == b.HintID
}

// checkInit asserts that the files hold the reference parameters.
func checkInit(path, evals string, rp *p2, re *ev) {
	p, err := readP2(path)
	sym.Assert(err == nil, "the phase 2 file cannot be parsed")
	sym.Assert(p.H == rp.H, "wrong phase 2 header")
	sym.Assert(p.D1.Equal(&rp.D1) && p.D2.Equal(&rp.D2), "delta is not one")
	for i := range p.Z {
		sym.Assert(p.Z[i].Equal(&rp.Z[i]), "wrong Z")
	}
	for i := range p.PKK {
		sym.Assert(p.PKK[i].Equal(&rp.PKK[i]), "wrong PKK")
	}
	e, err := readEvals(evals)
	sym.Assert(err == nil, "the evaluations cannot be parsed")
	sym.Assert(e.A1.Equal(&re.A1), "wrong alpha")
	sym.Assert(e.B1.Equal(&re.B1) && e.B2.Equal(&re.B2), "wrong beta")
	sym.Assert(len(e.A) == len(re.A) && len(e.B) == len(re.B) && len(e.BB) == len(re.BB), "wrong number of evaluations")
	for i := range e.A {
		sym.Assert(e.A[i].Equal(&re.A[i]), "wrong A")
		sym.Assert(e.B[i].Equal(&re.B[i]), "wrong B in G1")
		sym.Assert(e.BB[i].Equal(&re.BB[i]), "wrong B in G2")
	}
	sym.Assert(len(e.VKK) == len(re.VKK) && len(e.CKK) == len(re.CKK), "wrong number of VKK or CKK")
	for i := range e.VKK {
		sym.Assert(e.VKK[i].Equal(&re.VKK[i]), "wrong VKK")
	}
	for i := range e.CKK {
		sym.Assert(e.CKK[i].Equal(&re.CKK[i]), "wrong CKK")
	}
	sym.Assert(sameInfo(e.Info, re.Info), "wrong commitment information")
}

func initAndCheck(c *circ, power int, special bool) {
	s := symSecrets()
	s.writeP1("in.ph1", byte(power))
	writeR1CS("c.r1cs", c.r1cs(special))
	b1, b2 := readFile("in.ph1"), readFile("c.r1cs")
	sym.Assert(phase2.Initialize("in.ph1", "c.r1cs", "0.ph2") == nil, "Initialize failed on a valid circuit")
	sym.Assert(bytes.Equal(b1, readFile("in.ph1")) && bytes.Equal(b2, readFile("c.r1cs")), "Initialize changed its input files")
	rp, re := c.refP2(s)
	checkInit("0.ph2", "evals", rp, re)
	sym.Reach("done")
}

// P2Init: dense circuits with arbitrary coefficients.
func P2Init() {
	power := sym.Choose("power", maxPower(4, 5)) + 1
	cons := sym.Choose("cons", (1<<power)+1)
	c := dense(1+sym.Choose("pub", 2), sym.Choose("sec", 3), sym.Choose("int", 2), cons)
	initAndCheck(c, power, false)
}

// P2InitCoeffs: every special coefficient in every position, shared wires,
// repeated wires and wires that do not occur.
func P2InitCoeffs() {
	c := &circ{pub: 1, sec: 1, internal: 2}
	vals := []fr.Element{num(0), num(1), num(2), num(-1), num(-2), sym.Fr("c")}
	j := sym.Choose("cons", 3)
	for k := 0; k < 3; k++ {
		x := [3][]term{}
		for i := range x {
			x[i] = append(x[i], term{(k + i) % 4, num(3*k + i + 5)})
		}
		if k == j {
			i := sym.Choose("row", 3)
			w := sym.Choose("wire", 4)
			x[i] = append(x[i], term{w, vals[sym.Choose("coeff", 6)]})
			x[i] = append(x[i], term{w, vals[sym.Choose("coeff", 6)]})
		}
		c.cons = append(c.cons, x)
	}
	initAndCheck(c, 2, true)
}

// boundary is the n-th of the coefficients at the limits of machine numbers.
func boundary(n int) fr.Element {
	var x fr.Element
	b := big.NewInt(1)
	switch {
	case n < 40: // around 2^k and -2^k
		b.Lsh(b, []uint{7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 191, 192, 200, 252, 253, 30}[n/2])
		if n%2 == 1 {
			b.Sub(b, big.NewInt(1))
		}
	case n < 46: // around half of the order
		b.Rsh(fr.Modulus(), 1)
		b.Add(b, big.NewInt(int64(n-43)))
	default: // small ones
		b.SetInt64(int64(n - 50))
	}
	x.SetBigInt(b)
	return x
}

// P2InitSizes: coefficients at the limits of machine numbers, and negated.
func P2InitSizes() {
	x := boundary(sym.Choose("size", 56))
	if sym.Choose("sign", 2) == 1 {
		x.Neg(&x)
	}
	c := &circ{pub: 1, sec: 1, internal: 1}
	c.cons = append(c.cons,
		[3][]term{{{0, x}}, {{1, num(3)}, {1, x}}, {{2, x}}},
		[3][]term{{{2, num(4)}}, {{0, x}}, {{0, num(5)}, {1, x}}})
	initAndCheck(c, 1, true)
}

// P2InitMany: more wires, or coefficients, than 16 bits can number.
func P2InitMany() {
	const n = 66000
	row := sym.Choose("row", 3)
	var k [3][]term
	c := &circ{pub: 1, sec: 2, internal: 1}
	if sym.Choose("many", 2) == 0 {
		c.internal = n - 3
		k[row] = []term{{n - 1, num(3)}, {65536, num(4)}, {65535, num(5)}, {300, num(6)}, {4, num(7)}}
	} else {
		for i := 0; i < n; i++ {
			k[row] = append(k[row], term{i % 4, num(3 + i)})
		}
	}
	k[(row+1)%3] = []term{{3, num(7)}, {0, num(11)}}
	c.cons = append(c.cons, [3][]term{{{1, num(5)}}, {{2, num(5)}}, {{3, num(5)}}}, k)
	initAndCheck(c, 1, false)
}

// P2InitSparse: every placement of one term.
func P2InitSparse() {
	c := &circ{pub: 1, sec: 1, internal: 1}
	n := sym.Choose("cons", 4) + 1
	j, i, w := sym.Choose("at", n), sym.Choose("row", 3), sym.Choose("wire", 3)
	for k := 0; k < n; k++ {
		var x [3][]term
		if k == j {
			x[i] = []term{{w, sym.Fr("c")}}
		}
		c.cons = append(c.cons, x)
	}
	initAndCheck(c, 3, true)
}

// commitments of every shape over the wires of c.
func chooseCommitment(c *circ) {
	// wires: public (0 is the constant), secret, internal; the commitment is
	// an internal wire after what it commits to
	idx := c.pub + c.sec + sym.Choose("index", c.internal)
	mask := sym.Choose("committed", 1<<(idx-1)-1) + 1
	for w := 1; w < idx; w++ {
		if mask>>(w-1)&1 == 1 {
			c.info.Committed = append(c.info.Committed, w)
			if w >= c.pub {
				c.info.NbPrivateCommitted++
			}
		}
	}
	c.info.CommitmentIndex = idx
	c.info.HintID = 7
	c.info.CommittedAndCommitment = append(append([]int{}, c.info.Committed...), idx)
}

// P2InitCommit: every commitment over small circuits.
func P2InitCommit() {
	c := dense(1+sym.Choose("pub", 3), 1+sym.Choose("sec", 2), 1+sym.Choose("int", maxPower(2, 3)), 1)
	chooseCommitment(c)
	initAndCheck(c, 1, false)
}

// chainCirc is a circuit of n constraints over many wires: every wire occurs
// in some of them, with arbitrary coefficients.
func chainCirc(pub, sec, internal, n int) *circ {
	c := &circ{pub: pub, sec: sec, internal: internal}
	w := c.wires()
	for k := 0; k < n; k++ {
		var x [3][]term
		x[0] = []term{{k % w, sym.RndFr("c")}, {(k + 1) % w, num(1)}}
		x[1] = []term{{(k + 2) % w, num(-1)}, {(3*k + 1) % w, sym.RndFr("c")}}
		x[2] = []term{{(k + 3) % w, num(2)}, {(5*k + 2) % w, num(k + 7)}}
		c.cons = append(c.cons, x)
	}
	return c
}

// P2InitLarge: larger domains and more wires.
func P2InitLarge() {
	power := 4 + sym.Choose("power", maxPower(5, 6))
	n := []int{1, 5, 1<<(power-1) - 1, 1 << (power - 1), 1<<(power-1) + 1, 1<<power - 1, 1 << power}[sym.Choose("cons", 7)]
	w := []int{1, 3, 6, 11}[sym.Choose("wires", 4)]
	c := chainCirc(1+w/2, w, w+2, n)
	initAndCheck(c, power, true)
}
