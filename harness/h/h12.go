package h

import (
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"verif/harness/sym"
)

// P1SoundWide is P1Sound1 for long files: all points are arbitrary, and that a
// section is the powers of tau is asserted by induction.
func P1SoundWide() {
	p, a := advP1([]byte{6, 10, 7, 8, 9, 11}[sym.Choose("power", maxPower(2, 6))])
	advContribution(p, a, p.prevHash())
	p.write("a.ph1")
	if phase1.Verify("a.ph1", "") != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	c := a.c[0]
	sym.Assert(eq(c.tau, c.tau2) && eq(c.beta, c.beta2), "accepted although the groups differ")
	sym.Assert(!c.tau.IsZero() && !c.alpha.IsZero() && !c.beta.IsZero(), "accepted with a zero secret")
	sym.Assert(eq(a.t1[0], num(1)) && eq(a.t2[0], num(1)) && eq(a.at[0], c.alpha) && eq(a.bt[0], c.beta), "accepted although a section does not start from the last contribution")
	sym.Assert(eq(a.b2, c.beta), "accepted although BetaG2 is not beta")
	for i := 1; i < len(a.t1); i++ {
		sym.Assert(eq(a.t1[i], mul(a.t1[i-1], c.tau2)), "accepted although TauG1 is not the powers of tau")
	}
	for i := 1; i < len(a.at); i++ {
		sym.Assert(eq(a.at[i], mul(a.at[i-1], c.tau2)), "accepted although AlphaTauG1 is not alpha times the powers of tau")
		sym.Assert(eq(a.bt[i], mul(a.bt[i-1], c.tau2)), "accepted although BetaTauG1 is not beta times the powers of tau")
		sym.Assert(eq(a.t2[i], mul(a.t2[i-1], c.tau)), "accepted although TauG2 is not the powers of tau")
	}
	soundRecords(a, num(1), num(1), num(1), num(1), num(1))
}

// P2SoundWide is P2Sound1 for long files.
func P2SoundWide() {
	domain := []int{64, 2048, 128, 256, 512, 1024, 4096}[sym.Choose("domain", maxPower(2, 7))]
	wit := []int{130, 2100, 257, 1025, 65, 512, 700, 4200}[sym.Choose("witness", maxPower(2, 8))]
	o, z0, k0 := freshP2(domain, wit)
	o.write("0.ph2")
	d1, d2 := sym.Fr("d1"), sym.Fr("d2")
	z, k := frs("z", domain-1), frs("k", wit)
	p := &p2{H: o.H, D1: G1(d1), D2: G2(d2), Z: g1s(z), PKK: g1s(k)}
	c := advContribution2(p)
	p.write("a.ph2")
	if phase2.Verify("a.ph2", "0.ph2") != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	sym.Assert(eq(d1, d2) && eq(c.delta, d1) && !d1.IsZero(), "accepted although delta is not that of the record")
	for i := range z {
		sym.Assert(eq(mul(z[i], d2), z0[i]), "accepted although Z is not the original one divided by delta")
	}
	for i := range k {
		sym.Assert(eq(mul(k[i], d2), k0[i]), "accepted although PKK is not the original one divided by delta")
	}
}

// P1Big: contribution and verification of files of thousands of points.
func P1Big() {
	power := byte(sym.Choose("power", maxPower(2, 3)) + 12)
	p := mkP1(power, num(1), num(1), num(1))
	p.contribute(sym.NzFr("tau"), sym.NzFr("alpha"), sym.NzFr("beta"), num(3), num(4), num(5))
	p.write("a.ph1")
	sym.Assert(phase1.Verify("a.ph1", "") == nil, "an honest chain is rejected")
	sym.Assert(phase1.Contribute("a.ph1", "b.ph1") == nil, "Contribute failed on a valid file")
	q, err := readP1("b.ph1")
	sym.Assert(err == nil, "the file written by Contribute cannot be parsed")
	checkUpdate(p, q)
	sym.Reach("done")
}

// P2Big: the same in phase 2.
func P2Big() {
	domain := []int{2048, 16384, 4096, 8192}[sym.Choose("domain", maxPower(2, 4))]
	wit := []int{4097, 20000, 1500, 40000}[sym.Choose("witness", maxPower(2, 4))]
	g1, g2 := gens()
	o := &p2{D1: g1, D2: g2}
	o.H = phase2.Header{Wires: wit + 1, Witness: wit, Public: 1, Constraints: domain, Domain: domain}
	for i := 0; i < domain-1; i++ {
		o.Z = append(o.Z, G1(sym.RndFr("z")))
	}
	for i := 0; i < wit; i++ {
		o.PKK = append(o.PKK, G1(sym.RndFr("k")))
	}
	o.write("0.ph2")
	p := o.clone()
	p.contribute(sym.NzFr("delta"), num(3))
	p.write("1.ph2")
	sym.Assert(phase2.Verify("1.ph2", "0.ph2") == nil, "an honest chain is rejected")
	sym.Assert(phase2.Contribute("1.ph2", "2.ph2") == nil, "Contribute failed on a valid file")
	q, err := readP2("2.ph2")
	sym.Assert(err == nil, "the file written by Contribute cannot be parsed")
	checkUpdate2(p, q)
	sym.Reach("done")
}
