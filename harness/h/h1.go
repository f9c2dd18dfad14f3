package h

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"verif/harness/sym"
)

func maxPower(quick, thorough int) int {
	if sym.Thorough() {
		return thorough
	}
	return quick
}

// P1Init: Initialize writes exactly the documented file.
func P1Init() {
	power := byte(sym.Choose("power", maxPower(16, 17)) + 1)
	err := phase1.Initialize(power, "a.ph1")
	sym.Assert(err == nil, "Initialize failed")
	p, err := readP1("a.ph1")
	sym.Assert(err == nil, "the file written by Initialize cannot be parsed")
	sym.Assert(p.Power == power && p.NContrib == 0, "wrong header")
	g1, g2 := gens()
	for i := range p.TauG1 {
		sym.Assert(p.TauG1[i].Equal(&g1), "TauG1 is not the generator")
	}
	for i := range p.AlphaTau {
		sym.Assert(p.AlphaTau[i].Equal(&g1), "AlphaTauG1 is not the generator")
		sym.Assert(p.BetaTau[i].Equal(&g1), "BetaTauG1 is not the generator")
		sym.Assert(p.TauG2[i].Equal(&g2), "TauG2 is not the generator")
	}
	sym.Assert(p.BetaG2.Equal(&g2), "BetaG2 is not the generator")
	sym.Reach("done")
}

// P1HonestRef: a reference-made honest chain verifies.
func P1HonestRef() {
	power := byte(sym.Choose("power", maxPower(9, 11)) + 1)
	p := mkP1(power, num(1), num(1), num(1))
	n := sym.Choose("contribs", maxPower(5, 6)) + 1
	for i := 0; i < n; i++ {
		p.contribute(sym.NzFr("tau"), sym.NzFr("alpha"), sym.NzFr("beta"), sym.NzFr("s1"), sym.NzFr("s2"), sym.NzFr("s3"))
	}
	p.write("a.ph1")
	err := phase1.Verify("a.ph1", "")
	sym.Assert(err == nil, "an honest chain is rejected")
	sym.Reach("done")
}

func pairEq(a bn254.G1Affine, b bn254.G2Affine, c bn254.G1Affine, d bn254.G2Affine) bool {
	var nc bn254.G1Affine
	nc.Neg(&c)
	ok, err := bn254.PairingCheck([]bn254.G1Affine{a, nc}, []bn254.G2Affine{b, d})
	must(err)
	return ok
}

// pokHolds: k proves knowledge of x with x·(a in G1) = b.
func pokHolds(k *pok, prev []byte, dst byte, a, b bn254.G1Affine) bool {
	if k.S.IsInfinity() || k.SX.IsInfinity() || k.SPX.IsInfinity() {
		return false
	}
	sp := genSP(k.S, k.SX, prev, dst)
	return pairEq(k.S, k.SPX, k.SX, sp) && pairEq(a, k.SPX, b, sp)
}

// checkUpdate asserts that out is in with one more contribution.
func checkUpdate(in, out *p1) {
	n := in.N()
	_, g2 := gens()
	g1, _ := gens()
	sym.Assert(out.Power == in.Power, "the power changed")
	sym.Assert(out.NContrib == in.NContrib+1 && len(out.C) == out.NContrib, "the number of contributions is not one more")
	for i := range in.C {
		same := bytes.Equal(in.C[i].body(), out.C[i].body())
		sym.Assert(same && bytes.Equal(in.C[i].Hash, out.C[i].Hash), "an earlier contribution was not preserved")
	}
	c := &out.C[in.NContrib]
	prev := in.prevHash()
	// the new secrets are those of the record
	sym.Assert(pokHolds(&c.Tau, prev, 1, in.TauG1[1], out.TauG1[1]), "TauG1 is not updated by the proven secret")
	sym.Assert(pokHolds(&c.Alpha, prev, 2, in.AlphaTau[0], out.AlphaTau[0]), "AlphaTauG1 is not updated by the proven secret")
	sym.Assert(pokHolds(&c.Beta, prev, 3, in.BetaTau[0], out.BetaTau[0]), "BetaTauG1 is not updated by the proven secret")
	sym.Assert(pairEq(c.Tau.S, out.TauG2[1], c.Tau.SX, in.TauG2[1]), "TauG2 is not updated by the proven secret")
	sym.Assert(pairEq(c.Beta.S, out.BetaG2, c.Beta.SX, in.BetaG2), "BetaG2 is not updated by the proven secret")
	// and everything is a sequence of powers
	T := out.TauG2[1]
	sym.Assert(out.TauG1[0].Equal(&g1) && out.TauG2[0].Equal(&g2), "the first powers are not the generators")
	for i := 1; i < 2*n-1; i++ {
		sym.Assert(pairEq(out.TauG1[i], g2, out.TauG1[i-1], T), "TauG1 is not a sequence of powers")
	}
	for i := 1; i < n; i++ {
		sym.Assert(pairEq(out.AlphaTau[i], g2, out.AlphaTau[i-1], T), "AlphaTauG1 is not a sequence of powers")
		sym.Assert(pairEq(out.BetaTau[i], g2, out.BetaTau[i-1], T), "BetaTauG1 is not a sequence of powers")
		sym.Assert(pairEq(g1, out.TauG2[i], out.TauG1[1], out.TauG2[i-1]), "TauG2 is not a sequence of powers")
	}
	sym.Assert(pairEq(g1, out.BetaG2, out.BetaTau[0], g2), "BetaG2 does not match BetaTauG1")
	// the record
	a := c.TauG1.Equal(&out.TauG1[1]) && c.AlphaG1.Equal(&out.AlphaTau[0]) && c.BetaG1.Equal(&out.BetaTau[0])
	b := c.TauG2.Equal(&out.TauG2[1]) && c.BetaG2.Equal(&out.BetaG2)
	sym.Assert(a && b, "the record does not hold the new parameters")
	sym.Assert(bytes.Equal(c.Hash, c.hash()), "the hash of the record is wrong")
}

// P1Contribute: Contribute re-randomises any consistent parameters.
func P1Contribute() {
	power := byte(sym.Choose("power", maxPower(9, 11)) + 1)
	p := mkP1(power, sym.NzFr("tau0"), sym.NzFr("alpha0"), sym.NzFr("beta0"))
	n := sym.Choose("contribs", maxPower(4, 6))
	for i := 0; i < n; i++ {
		p.contribute(sym.NzFr("tau"), sym.NzFr("alpha"), sym.NzFr("beta"), sym.NzFr("s1"), sym.NzFr("s2"), sym.NzFr("s3"))
	}
	p.write("a.ph1")
	before := p.bytes()
	sym.StdoutReset()
	sym.Assert(phase1.Contribute("a.ph1", "b.ph1") == nil, "Contribute failed on a valid file")
	q, err := readP1("b.ph1")
	sym.Assert(err == nil, "the file written by Contribute cannot be parsed")
	checkUpdate(p, q)
	sym.Assert(sym.StdoutHasHex(q.C[n].Hash), "the printed hash is not the recorded one")
	after := readFile("a.ph1")
	sym.Assert(bytes.Equal(before, after), "Contribute changed its input file")
	sym.Reach("done")
}

// P1Chain: Initialize, then contributions, always verify.
func P1Chain() {
	power := byte(sym.Choose("power", maxPower(7, 9)) + 1)
	sym.Assert(phase1.Initialize(power, "0.ph1") == nil, "Initialize failed")
	names := []string{"0.ph1", "1.ph1", "2.ph1", "3.ph1", "4.ph1"}
	n := sym.Choose("contribs", 4) + 1
	for i := 0; i < n; i++ {
		sym.Assert(phase1.Contribute(names[i], names[i+1]) == nil, "Contribute failed")
		before := readFile(names[i+1])
		sym.StdoutReset()
		sym.Assert(phase1.Verify(names[i+1], "") == nil, "an honest chain is rejected")
		sym.Assert(bytes.Equal(before, readFile(names[i+1])), "Verify changed its input file")
		q, err := readP1(names[i+1])
		sym.Assert(err == nil && q.NContrib == i+1, "wrong number of contributions")
		for k := range q.C {
			sym.Assert(sym.StdoutHasHex(q.C[k].Hash), "Verify does not print the hash of every contribution")
		}
	}
	sym.Reach("done")
}

type a1c struct {
	tau, alpha, beta, tau2, beta2 fr.Element
	s, sx, a, b                   [3]fr.Element
}

type a1 struct {
	t1, at, bt, t2 []fr.Element
	b2             fr.Element
	c              []a1c
}

func frs(name string, n int) []fr.Element {
	r := make([]fr.Element, n)
	for i := range r {
		r[i] = sym.Fr(name)
	}
	return r
}

func linG2(p bn254.G2Affine, a, b fr.Element) bn254.G2Affine {
	x := mulG2(p, a)
	y := G2(b)
	var r bn254.G2Affine
	r.Add(&x, &y)
	return r
}

// advContribution appends a record all of whose points are arbitrary; the
// update proofs may be any combination of the challenge point and a chosen one.
func advContribution(p *p1, a *a1, prev []byte) {
	var x a1c
	x.tau, x.alpha, x.beta, x.tau2, x.beta2 = sym.Fr("ctau"), sym.Fr("calpha"), sym.Fr("cbeta"), sym.Fr("ctau2"), sym.Fr("cbeta2")
	var c p1c
	c.TauG1, c.AlphaG1, c.BetaG1, c.TauG2, c.BetaG2 = G1(x.tau), G1(x.alpha), G1(x.beta), G2(x.tau2), G2(x.beta2)
	for i, k := range []*pok{&c.Tau, &c.Alpha, &c.Beta} {
		x.s[i], x.sx[i], x.a[i], x.b[i] = sym.Fr("s"), sym.Fr("sx"), sym.Fr("pa"), sym.Fr("pb")
		k.S, k.SX = G1(x.s[i]), G1(x.sx[i])
		k.SPX = linG2(genSP(k.S, k.SX, prev, byte(i+1)), x.a[i], x.b[i])
	}
	c.Hash = c.hash()
	p.C = append(p.C, c)
	p.NContrib++
	a.c = append(a.c, x)
}

// advP1 is a file all of whose parameters are arbitrary.
func advP1(power byte) (*p1, *a1) {
	p := &p1{Power: power}
	n := p.N()
	a := &a1{t1: frs("t1", 2*n-1), at: frs("at", n), bt: frs("bt", n), t2: frs("t2", n), b2: sym.Fr("b2")}
	for _, x := range a.t1 {
		p.TauG1 = append(p.TauG1, G1(x))
	}
	for i := range a.at {
		p.AlphaTau = append(p.AlphaTau, G1(a.at[i]))
		p.BetaTau = append(p.BetaTau, G1(a.bt[i]))
		p.TauG2 = append(p.TauG2, G2(a.t2[i]))
	}
	p.BetaG2 = G2(a.b2)
	return p, a
}

// soundParams asserts that the parameters of a are those of one triple of
// non-zero secrets.
func soundParams(a *a1, tau, alpha, beta fr.Element) {
	pw := powers(tau, len(a.t1))
	sym.Assert(!tau.IsZero() && !alpha.IsZero() && !beta.IsZero(), "accepted with a zero secret")
	for i := range a.t1 {
		sym.Assert(eq(a.t1[i], pw[i]), "accepted although TauG1 is not the powers of tau")
	}
	for i := range a.at {
		sym.Assert(eq(a.at[i], mul(alpha, pw[i])), "accepted although AlphaTauG1 is not alpha times the powers of tau")
		sym.Assert(eq(a.bt[i], mul(beta, pw[i])), "accepted although BetaTauG1 is not beta times the powers of tau")
		sym.Assert(eq(a.t2[i], pw[i]), "accepted although TauG2 is not the powers of tau")
	}
	sym.Assert(eq(a.b2, beta), "accepted although BetaG2 is not beta")
}

// soundRecords asserts that every record updates the previous one by a proven
// secret, starting from the given parameters.
func soundRecords(a *a1, tau, alpha, beta, tau2, beta2 fr.Element) {
	p := [3]fr.Element{tau, alpha, beta}
	for _, c := range a.c {
		v := [3]fr.Element{c.tau, c.alpha, c.beta}
		for k := 0; k < 3; k++ {
			sym.Assert(!c.s[k].IsZero() && !c.sx[k].IsZero(), "accepted a degenerate proof of knowledge")
			sym.Assert(eq(mul(c.s[k], c.a[k]), c.sx[k]) && c.b[k].IsZero(), "accepted a wrong proof of knowledge")
			sym.Assert(eq(mul(v[k], c.s[k]), mul(p[k], c.sx[k])), "accepted an update that is not by the proven secret")
		}
		sym.Assert(eq(mul(c.tau2, c.s[0]), mul(tau2, c.sx[0])), "accepted a TauG2 update that is not by the proven secret")
		sym.Assert(eq(mul(c.beta2, c.s[2]), mul(beta2, c.sx[2])), "accepted a BetaG2 update that is not by the proven secret")
		p = v
		tau2, beta2 = c.tau2, c.beta2
	}
}

func p1Sound(power byte, contribs int) {
	p, a := advP1(power)
	for i := 0; i < contribs; i++ {
		advContribution(p, a, p.prevHash())
	}
	p.write("a.ph1")
	if phase1.Verify("a.ph1", "") != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	sym.Assert(contribs > 0, "accepted without any contribution")
	last := a.c[contribs-1]
	soundParams(a, last.tau, last.alpha, last.beta)
	soundRecords(a, num(1), num(1), num(1), num(1), num(1))
}

// P1Sound1: one contribution, arbitrary parameters and record.
func P1Sound1() { p1Sound(byte(sym.Choose("power", maxPower(5, 6))+1), 1) }

// P1Sound0: no contributions at all.
func P1Sound0() { p1Sound(1, 0) }

// P1Sound2: two arbitrary contributions.
func P1Sound2() {
	p1Sound(byte(sym.Choose("power", maxPower(3, 4))+1), 2+sym.Choose("records", maxPower(1, 2)))
}

// P1Many: long chains.
func P1Many() {
	n := 253 + sym.Choose("contribs", 6)
	p := mkP1(1, num(1), num(1), num(1))
	for i := 0; i < n; i++ {
		p.contribute(num(i+2), num(i+3), num(i+4), num(i+5), num(i+6), num(i+7))
	}
	p.write("a.ph1")
	sym.Assert(phase1.Verify("a.ph1", "") == nil, "an honest chain is rejected")
	sym.Assert(phase1.Contribute("a.ph1", "b.ph1") == nil, "Contribute failed on a valid file")
	q, err := readP1("b.ph1")
	sym.Assert(err == nil, "the file written by Contribute cannot be parsed")
	checkUpdate(p, q)
	sym.Assert(phase1.Verify("b.ph1", "") == nil, "an honest chain is rejected")
	sym.Reach("done")
}
