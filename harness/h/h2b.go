package h

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"verif/harness/sym"
)

func g1s(xs []fr.Element) []bn254.G1Affine {
	r := make([]bn254.G1Affine, len(xs))
	for i := range xs {
		r[i] = G1(xs[i])
	}
	return r
}

// p2Header is the header of some circuit of the given sizes.
func p2Header(domain, witness int) phase2.Header {
	return phase2.Header{Wires: witness + 3, Witness: witness, Public: 2, PrivateCommitted: 1, Constraints: domain - 1, Domain: domain}
}

// freshP2 is an initial file with arbitrary parameters.
func freshP2(domain, witness int) (*p2, []fr.Element, []fr.Element) {
	g1, g2 := gens()
	z, k := frs("z", domain-1), frs("k", witness)
	return &p2{H: p2Header(domain, witness), D1: g1, D2: g2, Z: g1s(z), PKK: g1s(k)}, z, k
}

func (p *p2) clone() *p2 {
	q := *p
	q.Z = append([]bn254.G1Affine{}, p.Z...)
	q.PKK = append([]bn254.G1Affine{}, p.PKK...)
	q.C = append([]p2c{}, p.C...)
	return &q
}

// p2Dims chooses sizes; the batch size of the code is 4 in these runs.
func p2Dims() (int, int) {
	domain := 1 << (sym.Choose("domain", maxPower(5, 7)) + 1)
	witness := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 13, 16, 21, 40}[sym.Choose("witness", maxPower(12, 14))]
	return domain, witness
}

// checkUpdate2 asserts that out is in with one more contribution.
func checkUpdate2(in, out *p2) {
	h := in.H
	h.Contributions++
	sym.Assert(out.H == h, "wrong header after a contribution")
	n := in.H.Contributions
	for i := range in.C {
		same := bytes.Equal(in.C[i].body(), out.C[i].body())
		sym.Assert(same && bytes.Equal(in.C[i].Hash, out.C[i].Hash), "an earlier contribution was not preserved")
	}
	c := &out.C[n]
	sym.Assert(!out.D1.IsInfinity(), "delta is zero")
	sym.Assert(pokHolds(&c.K, in.prevHash(), 1, in.D1, out.D1), "delta is not updated by the proven secret")
	sym.Assert(pairEq(in.D1, out.D2, out.D1, in.D2), "delta in G2 does not match delta in G1")
	sym.Assert(c.Delta.Equal(&out.D1), "the record does not hold the new delta")
	sym.Assert(bytes.Equal(c.Hash, c.hash()), "the hash of the record is wrong")
	for i := range in.Z {
		sym.Assert(pairEq(out.Z[i], out.D2, in.Z[i], in.D2), "Z is not divided by the secret")
	}
	for i := range in.PKK {
		sym.Assert(pairEq(out.PKK[i], out.D2, in.PKK[i], in.D2), "PKK is not divided by the secret")
	}
}

// P2Contribute: Contribute re-randomises arbitrary parameters.
func P2Contribute() {
	p, _, _ := freshP2(p2Dims())
	n := sym.Choose("contribs", maxPower(4, 6))
	for i := 0; i < n; i++ {
		p.contribute(sym.NzFr("delta"), sym.NzFr("s"))
	}
	p.write("a.ph2")
	before := p.bytes()
	sym.StdoutReset()
	sym.Assert(phase2.Contribute("a.ph2", "b.ph2") == nil, "Contribute failed on a valid file")
	q, err := readP2("b.ph2")
	sym.Assert(err == nil, "the file written by Contribute cannot be parsed")
	checkUpdate2(p, q)
	sym.Assert(sym.StdoutHasHex(q.C[n].Hash), "the printed hash is not the recorded one")
	sym.Assert(bytes.Equal(before, readFile("a.ph2")), "Contribute changed its input file")
	sym.Reach("done")
}

// P2HonestRef: a reference-made honest chain verifies.
func P2HonestRef() {
	p, _, _ := freshP2(p2Dims())
	p.write("0.ph2")
	n := sym.Choose("contribs", maxPower(5, 7)) + 1
	for i := 0; i < n; i++ {
		p.contribute(sym.NzFr("delta"), sym.NzFr("s"))
	}
	p.write("a.ph2")
	b1, b2 := readFile("a.ph2"), readFile("0.ph2")
	sym.StdoutReset()
	sym.Assert(phase2.Verify("a.ph2", "0.ph2") == nil, "an honest chain is rejected")
	sym.Assert(bytes.Equal(b1, readFile("a.ph2")) && bytes.Equal(b2, readFile("0.ph2")), "Verify changed its input files")
	for k := range p.C {
		sym.Assert(sym.StdoutHasHex(p.C[k].Hash), "Verify does not print the hash of every contribution")
	}
	sym.Reach("done")
}

// P2Chain: Initialize, then contributions, always verify.
func P2Chain() {
	c := dense(1, 1, sym.Choose("int", 2), sym.Choose("cons", 3)+1)
	s := symSecrets()
	s.writeP1("in.ph1", 2)
	writeR1CS("c.r1cs", c.r1cs(false))
	sym.Assert(phase2.Initialize("in.ph1", "c.r1cs", "0.ph2") == nil, "Initialize failed on a valid circuit")
	names := []string{"0.ph2", "1.ph2", "2.ph2", "3.ph2", "4.ph2"}
	n := 4
	for i := 0; i < n; i++ {
		sym.Assert(phase2.Contribute(names[i], names[i+1]) == nil, "Contribute failed")
		sym.StdoutReset()
		sym.Assert(phase2.Verify(names[i+1], "0.ph2") == nil, "an honest chain is rejected")
		q, err := readP2(names[i+1])
		sym.Assert(err == nil && q.H.Contributions == i+1, "wrong number of contributions")
		for k := range q.C {
			sym.Assert(sym.StdoutHasHex(q.C[k].Hash), "Verify does not print the hash of every contribution")
		}
	}
	sym.Reach("done")
}

type a2c struct{ delta, s, sx, a, b fr.Element }

// advContribution2 appends a record all of whose points are arbitrary.
func advContribution2(p *p2) a2c {
	var x a2c
	x.delta, x.s, x.sx, x.a, x.b = sym.Fr("cdelta"), sym.Fr("s"), sym.Fr("sx"), sym.Fr("pa"), sym.Fr("pb")
	var c p2c
	c.Delta, c.K.S, c.K.SX = G1(x.delta), G1(x.s), G1(x.sx)
	c.K.SPX = linG2(genSP(c.K.S, c.K.SX, p.prevHash(), 1), x.a, x.b)
	c.Hash = c.hash()
	p.C = append(p.C, c)
	p.H.Contributions++
	return x
}

func p2Sound(domain, witness, contribs int) {
	o, z0, k0 := freshP2(domain, witness)
	o.write("0.ph2")
	d1, d2 := sym.Fr("d1"), sym.Fr("d2")
	z, k := frs("z", domain-1), frs("k", witness)
	p := &p2{H: o.H, D1: G1(d1), D2: G2(d2), Z: g1s(z), PKK: g1s(k)}
	var recs []a2c
	for i := 0; i < contribs; i++ {
		recs = append(recs, advContribution2(p))
	}
	p.write("a.ph2")
	if phase2.Verify("a.ph2", "0.ph2") != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	sym.Assert(contribs > 0, "accepted without any contribution")
	sym.Assert(eq(d1, d2), "accepted although delta differs between the groups")
	sym.Assert(!d1.IsZero(), "accepted a zero delta")
	for i := range z {
		sym.Assert(eq(mul(z[i], d1), z0[i]), "accepted although Z is not the original one divided by delta")
	}
	for i := range k {
		sym.Assert(eq(mul(k[i], d1), k0[i]), "accepted although PKK is not the original one divided by delta")
	}
	prev := num(1)
	for _, c := range recs {
		sym.Assert(!c.s.IsZero() && !c.sx.IsZero(), "accepted a degenerate proof of knowledge")
		sym.Assert(eq(mul(c.s, c.a), c.sx) && c.b.IsZero(), "accepted a wrong proof of knowledge")
		sym.Assert(eq(mul(c.delta, c.s), mul(prev, c.sx)), "accepted an update that is not by the proven secret")
		prev = c.delta
	}
	sym.Assert(eq(prev, d1), "accepted although the last record is not for the final delta")
}

// P2Sound1: arbitrary parameters and one arbitrary record.
func P2Sound1() {
	d, w := p2Dims()
	p2Sound(d, w, 1)
}

// P2Sound0: no contributions at all.
func P2Sound0() { p2Sound(2, 1, 0) }

// P2SoundN: several arbitrary records.
func P2SoundN() {
	p2Sound(2<<sym.Choose("domain", 2), 1+2*sym.Choose("witness", 2), 2+sym.Choose("contribs", maxPower(2, 3)))
}

func validP2(domain, witness, n int) (*p2, *p2) {
	g1, g2 := gens()
	o := &p2{H: p2Header(domain, witness), D1: g1, D2: g2}
	for i := 0; i < domain-1; i++ {
		o.Z = append(o.Z, G1(num(50+i)))
	}
	for i := 0; i < witness; i++ {
		o.PKK = append(o.PKK, G1(num(70+i)))
	}
	p := o.clone()
	for i := 0; i < n; i++ {
		p.contribute(num(10*i+12), num(10*i+13))
	}
	return o, p
}

// P2Bind: the transcript is bound to its history.
func P2Bind() {
	o, _, _ := freshP2(2*(sym.Choose("domain", 2)+1), 1)
	o.write("0.ph2")
	p := o.clone()
	n := sym.Choose("records", maxPower(4, 5)) + 1
	var xs, ss []fr.Element
	for i := 0; i < n; i++ {
		xs, ss = append(xs, sym.NzFr("delta")), append(ss, sym.NzFr("s"))
		sym.Assume(!eq(xs[i], num(1)))
		p.contribute(xs[i], ss[i])
	}
	i := sym.Choose("record", n)
	c := &p.C[i]
	prev := func(k int) []byte {
		if k == 0 {
			return nil
		}
		return p.C[k-1].Hash
	}
	ok := false
	relink, after := false, false
	switch sym.Choose("case", 10) {
	case 0:
		ok = true
	case 1: // the challenge of another record or an arbitrary one
		j := sym.Choose("other", n+2)
		sym.Assume(j != i)
		var ch []byte
		if j <= n {
			ch = prev(j)
		} else {
			ch = make([]byte, 32)
			for x := range ch {
				ch[x] = sym.Byte("challenge")
			}
			sym.Assume(i == 0 || !bytes.Equal(ch, prev(i)))
		}
		c.K = mkPok(xs[i], ss[i], ch, 1)
		relink = true
	case 2: // a proof for another secret
		d := byte(sym.Int("dst", 0, 255))
		sym.Assume(d != 1)
		c.K = mkPok(xs[i], ss[i], prev(i), d)
		relink = true
	case 3: // wrong hash byte
		k := sym.Choose("byte", 32)
		hb := append([]byte{}, c.Hash...)
		hb[k] = sym.OtherByte(hb[k])
		c.Hash = hb
		after = true
	case 4: // a record is dropped
		p.C = append(append([]p2c{}, p.C[:i]...), p.C[i+1:]...)
		p.H.Contributions--
	case 5: // two records are swapped
		j := sym.Choose("other", n)
		sym.Assume(j < i)
		p.C[i], p.C[j] = p.C[j], p.C[i]
	case 6: // a record is repeated
		p.C = append(append(append([]p2c{}, p.C[:i+1]...), p.C[i]), p.C[i+1:]...)
		p.H.Contributions++
	case 7: // the hash of another record
		j := sym.Choose("other", n)
		sym.Assume(j != i)
		c.Hash = append([]byte{}, p.C[j].Hash...)
	case 8: // the last records are missing
		sym.Assume(!eq(mul(xs[i:]...), num(1)))
		p.H.Contributions = i
		p.C = p.C[:i]
	case 9: // a hash of which only the first or the last bytes are right
		k := sym.Choose("byte", 33)
		hb := append([]byte{}, c.Hash...)
		lo, hi := k, 32
		if sym.Choose("end", 2) == 1 {
			lo, hi = 0, k
		}
		for x := lo; x < hi; x++ {
			hb[x] = sym.Byte("hash")
		}
		sym.Assume(!bytes.Equal(hb, c.Hash))
		c.Hash = hb
		after = true
	}
	if relink || after { // everything after it is made for the changed record
		for j := i; j < n; j++ {
			if j == i && after {
				continue
			}
			d := &p.C[j]
			if j > i {
				d.K = mkPok(xs[j], ss[j], prev(j), 1)
			}
			d.Hash = d.hash()
		}
	}
	p.write("a.ph2")
	err := phase2.Verify("a.ph2", "0.ph2")
	if ok {
		sym.Assert(err == nil, "an honest chain is rejected")
		sym.Reach("accepted")
		return
	}
	sym.Assert(err != nil, "a tampered transcript is accepted")
	sym.Reach("rejected")
}

// P2Truncated: every proper prefix of a valid file is rejected.
func P2Truncated() {
	o, p := validP2(2<<sym.Choose("domain", maxPower(2, 3)), 2*sym.Choose("witness", maxPower(2, 3)), sym.Choose("contribs", 3))
	o.write("0.ph2")
	b := p.bytes()
	n := sym.Choose("length", len(b))
	writeFile("a.ph2", b[:n])
	sym.Assert(phase2.Verify("a.ph2", "0.ph2") != nil, "Verify accepted a truncated file")
	sym.Assert(phase2.Contribute("a.ph2", "b.ph2") != nil, "Contribute accepted a truncated file")
	sym.Reach("rejected")
}

// P2TruncatedOrigin: a truncated origin file is rejected.
func P2TruncatedOrigin() {
	o, p := validP2(2, 1, 1)
	p.write("a.ph2")
	b := o.bytes()
	n := sym.Choose("length", len(b))
	writeFile("0.ph2", b[:n])
	sym.Assert(phase2.Verify("a.ph2", "0.ph2") != nil, "Verify accepted a truncated origin file")
	sym.Reach("rejected")
}

// P2HeaderVerify: sizes other than those of the origin are rejected.
func P2HeaderVerify() {
	o, p := validP2(4, 2, 1)
	o.write("0.ph2")
	h := p.H
	which := sym.Choose("field", 7)
	f := []*int{&p.H.Wires, &p.H.Witness, &p.H.Public, &p.H.PrivateCommitted, &p.H.Constraints, &p.H.Domain, &p.H.Contributions}[which]
	*f = sym.Int("value", -1<<62, 1<<62)
	p.write("a.ph2")
	// a larger file, so that the sizes are not excluded by its end
	b := readFile("a.ph2")
	tail := sym.Choose("tail", 2) == 1
	if tail {
		b = append(b, b[len(b)-192:]...)
		writeFile("a.ph2", b)
	}
	err := phase2.Verify("a.ph2", "0.ph2")
	sym.Assert((p.H == h) == (err == nil), "Verify believed a wrong header")
	sym.Reach("done")
}

// P2HeaderOp: impossible sizes are reported as errors by every operation.
func P2HeaderOp() {
	_, p := validP2(4, 2, 1)
	vals := []int{-1 << 62, -1, 0, 1, 2, 3, 4, 5, 6, 8, 1 << 20, 1<<28 + 1, 1 << 29, 1 << 31, 1 << 40, 1<<62 + 1}
	f := []*int{&p.H.Wires, &p.H.Witness, &p.H.Public, &p.H.PrivateCommitted, &p.H.Constraints, &p.H.Domain, &p.H.Contributions}[sym.Choose("field", 7)]
	h := p.H
	*f = vals[sym.Choose("value", len(vals))]
	p.write("a.ph2")
	err := phase2.Contribute("a.ph2", "b.ph2")
	// without a reference only sizes that cannot be those of the file are errors
	sum := p.H.Witness+p.H.Public+p.H.PrivateCommitted == p.H.Wires
	neg := *f < 0
	beyond := p.H.Domain > h.Domain || p.H.Witness > h.Witness || p.H.Contributions > h.Contributions
	if !sum || neg || beyond || p.H.Domain < p.H.Constraints || p.H.Domain < 2 || p.H.Domain&(p.H.Domain-1) != 0 {
		sym.Assert(err != nil, "Contribute believed an impossible header")
		sym.Reach("rejected")
	}
	if p.H == h {
		sym.Assert(err == nil, "Contribute failed on a valid file")
		sym.Reach("accepted")
	}
}

// p2Points returns the positions and groups of all points.
func p2Points(p *p2) (pos, grp []int) {
	b := p.bytes()
	o := len(b) - 192*len(p.C) - 32*len(p.PKK) - 32*len(p.Z) - 96
	put := func(g, k int) {
		for i := 0; i < k; i++ {
			pos = append(pos, o)
			grp = append(grp, g)
			o += 32 * g
		}
	}
	put(1, 1)
	put(2, 1)
	put(1, len(p.Z)+len(p.PKK))
	for range p.C {
		put(1, 3)
		put(2, 1)
		o += 32
	}
	return
}

// P2BadPoint: a point that is not in the group is rejected wherever it is.
func P2BadPoint() {
	o, p := validP2(2<<sym.Choose("domain", maxPower(3, 4)), 2, sym.Choose("contribs", 3))
	o.write("0.ph2")
	pos, grp := p2Points(p)
	b := p.bytes()
	i := sym.Choose("position", len(pos))
	var bad []byte
	if grp[i] == 2 && sym.Choose("kind", 2) == 1 {
		bad = sym.BadSubgroup(true)
	} else {
		bad = sym.OffCurve(grp[i], true)
	}
	copy(b[pos[i]:], bad)
	writeFile("a.ph2", b)
	sym.Assert(phase2.Verify("a.ph2", "0.ph2") != nil, "Verify accepted a point outside the group")
	sym.Assert(phase2.Contribute("a.ph2", "b.ph2") != nil, "Contribute accepted a point outside the group")
	sym.Reach("rejected")
}

// P2Infinity: with one point replaced by infinity Verify returns an error.
func P2Infinity() {
	o, p := validP2(4, 2, 1)
	o.write("0.ph2")
	c := &p.C[0]
	pts := []*bn254.G1Affine{&p.D1, &c.Delta, &c.K.S, &c.K.SX}
	for i := range p.Z {
		pts = append(pts, &p.Z[i])
	}
	for i := range p.PKK {
		pts = append(pts, &p.PKK[i])
	}
	i := sym.Choose("point", len(pts)+2)
	switch i {
	case len(pts):
		p.D2 = bn254.G2Affine{}
	case len(pts) + 1:
		c.K.SPX = bn254.G2Affine{}
	default:
		*pts[i] = bn254.G1Affine{}
	}
	c.Hash = c.hash()
	p.write("a.ph2")
	sym.Assert(phase2.Verify("a.ph2", "0.ph2") != nil, "Verify accepted a point at infinity")
	phase2.Contribute("a.ph2", "b.ph2")
	sym.Reach("rejected")
}

// P2Missing: files that do not exist.
func P2Missing() {
	o, p := validP2(2, 1, 1)
	o.write("0.ph2")
	p.write("a.ph2")
	s := secrets{num(2), num(3), num(4)}
	s.writeP1("in.ph1", 1)
	c := &circ{pub: 1, sec: 1, cons: [][3][]term{{{{0, num(3)}}, {{1, num(1)}}, {{1, num(2)}}}}}
	writeR1CS("c.r1cs", c.r1cs(true))
	sym.Assert(phase2.Verify("none", "0.ph2") != nil, "Verify accepted a missing file")
	sym.Assert(phase2.Verify("a.ph2", "none") != nil, "Verify accepted a missing origin file")
	sym.Assert(phase2.Contribute("none", "b.ph2") != nil, "Contribute accepted a missing file")
	sym.Assert(phase2.Contribute("a.ph2", "nodir/b.ph2") != nil, "Contribute reported success without a file")
	sym.Assert(phase2.Initialize("none", "c.r1cs", "b.ph2") != nil, "Initialize accepted a missing phase 1 file")
	sym.Assert(phase2.Initialize("in.ph1", "none", "b.ph2") != nil, "Initialize accepted a missing circuit")
	sym.Assert(phase2.Initialize("in.ph1", "c.r1cs", "nodir/b.ph2") != nil, "Initialize reported success without a file")
	sym.Assert(phase2.Initialize("in.ph1", "c.r1cs", "b.ph2") == nil, "Initialize failed on valid files")
	sym.Reach("done")
}

// P2Same: using one path as input and output does not destroy the input.
func P2Same() {
	o, p := validP2(2, 1, 1)
	o.write("0.ph2")
	p.write("a.ph2")
	b := p.bytes()
	path := []string{"a.ph2", "./a.ph2"}[sym.Choose("path", 2)]
	err := phase2.Contribute("a.ph2", path)
	if err != nil {
		sym.Assert(bytes.Equal(readFile("a.ph2"), b), "a failed Contribute destroyed its input")
	} else {
		q, err := readP2("a.ph2")
		sym.Assert(err == nil && q.H.Contributions == 2, "Contribute reported success without a valid output")
	}
	s := secrets{num(2), num(3), num(4)}
	s.writeP1("in.ph1", 1)
	c := &circ{pub: 1, sec: 1, cons: [][3][]term{{{{0, num(3)}}, {{1, num(1)}}, {{1, num(2)}}}}}
	writeR1CS("c.r1cs", c.r1cs(true))
	in := []string{"in.ph1", "c.r1cs"}[sym.Choose("init", 2)]
	b = readFile(in)
	out := []string{"", "./"}[sym.Choose("prefix", 2)] + in
	if phase2.Initialize("in.ph1", "c.r1cs", out) != nil {
		sym.Assert(bytes.Equal(readFile(in), b), "a failed Initialize destroyed its input")
		sym.Reach("refused")
	} else {
		_, err := readP2(in)
		sym.Assert(err == nil, "Initialize reported success without a valid output")
	}
	sym.Reach("done")
}

// P2TooLarge: a circuit that phase 1 cannot support is an error.
func P2TooLarge() {
	power := sym.Choose("power", 3) + 1
	cons := sym.Choose("cons", 12)
	c := &circ{pub: 1, sec: 1}
	for i := 0; i < cons; i++ {
		c.cons = append(c.cons, [3][]term{{{0, num(i + 3)}}, {{1, num(1)}}, {{1, num(2)}}})
	}
	s := secrets{num(2), num(3), num(4)}
	s.writeP1("in.ph1", byte(power))
	writeR1CS("c.r1cs", c.r1cs(true))
	err := phase2.Initialize("in.ph1", "c.r1cs", "0.ph2")
	if cons > 1<<power {
		sym.Assert(err != nil, "Initialize accepted a circuit that phase 1 cannot support")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil, "Initialize rejected a circuit that phase 1 supports")
	p, err := readP2("0.ph2")
	sym.Assert(err == nil, "the phase 2 file cannot be parsed")
	sym.Assert(p.H.Domain == c.domain() && p.H.Constraints == cons && len(p.Z) == c.domain()-1, "wrong domain")
	sym.Reach("accepted")
}

// P2Many: long chains.
func P2Many() {
	n := 253 + sym.Choose("contribs", 6)
	p, _, _ := freshP2(2, 1)
	p.write("0.ph2")
	for i := 0; i < n; i++ {
		p.contribute(num(i+2), num(i+3))
	}
	p.write("a.ph2")
	sym.Assert(phase2.Verify("a.ph2", "0.ph2") == nil, "an honest chain is rejected")
	sym.Assert(phase2.Contribute("a.ph2", "b.ph2") == nil, "Contribute failed on a valid file")
	q, err := readP2("b.ph2")
	sym.Assert(err == nil, "the file written by Contribute cannot be parsed")
	checkUpdate2(p, q)
	sym.Assert(phase2.Verify("b.ph2", "0.ph2") == nil, "an honest chain is rejected")
	sym.Reach("done")
}
