package h

import (
	"bytes"
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"verif/harness/sym"
)

// big is a powers-of-tau file of another ceremony, in uncompressed form.
type ptau struct {
	t1, at, bt, t2 []fr.Element
	b2             fr.Element
}

func (p *ptau) bytes() []byte {
	w := &buf{}
	w.b = make([]byte, 64)
	for i := range w.b {
		w.b[i] = byte(i + 1)
	}
	for _, x := range p.t1 {
		w.r1(G1(x))
	}
	for _, x := range p.t2 {
		w.r2(G2(x))
	}
	for _, x := range p.at {
		w.r1(G1(x))
	}
	for _, x := range p.bt {
		w.r1(G1(x))
	}
	w.r2(G2(p.b2))
	return w.b
}

// P1Transform: the output holds exactly the first powers of the input.
func P1Transform() {
	max := maxPower(6, 8)
	in := sym.Choose("in", max) + 1
	out := sym.Choose("out", max) + 1
	sym.Assume(out <= in)
	n := 1 << in
	p := &ptau{frs("t1", 2*n-1), frs("at", n), frs("bt", n), frs("t2", n), sym.Fr("b2")}
	b := p.bytes()
	writeFile("big", b)
	sym.Assert(phase1.Transform("big", "out.ph1", byte(in), byte(out)) == nil, "Transform failed on a valid file")
	sym.Assert(bytes.Equal(b, readFile("big")), "Transform changed its input file")
	q, err := readP1("out.ph1")
	sym.Assert(err == nil, "the file written by Transform cannot be parsed")
	sym.Assert(int(q.Power) == out && q.NContrib == 0, "wrong header")
	m := 1 << out
	for i := 0; i < 2*m-1; i++ {
		x := G1(p.t1[i])
		sym.Assert(q.TauG1[i].Equal(&x), "wrong TauG1")
	}
	for i := 0; i < m; i++ {
		x, y, z := G1(p.at[i]), G1(p.bt[i]), G2(p.t2[i])
		sym.Assert(q.AlphaTau[i].Equal(&x), "wrong AlphaTauG1")
		sym.Assert(q.BetaTau[i].Equal(&y), "wrong BetaTauG1")
		sym.Assert(q.TauG2[i].Equal(&z), "wrong TauG2")
	}
	x := G2(p.b2)
	sym.Assert(q.BetaG2.Equal(&x), "wrong BetaG2")
	sym.Reach("done")
}

// P1TransformBad: sizes that the input cannot provide, truncated input.
func P1TransformBad() {
	in := sym.Choose("in", 4)
	out := sym.Choose("out", 6)
	n := 1 << in
	p := &ptau{powers(num(2), 2*n-1), powers(num(2), n), powers(num(2), n), powers(num(2), n), num(3)}
	b := p.bytes()
	cut := sym.Choose("cut", 2) == 1
	if cut {
		b = b[:len(b)-1]
	}
	writeFile("big", b)
	err := phase1.Transform("big", "out.ph1", byte(in), byte(out))
	if out > in || cut {
		sym.Assert(err != nil, "Transform accepted an input that lacks the requested powers")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil || in == 0 || out == 0, "Transform failed on a valid file")
	sym.Reach("accepted")
}

// P1TransformChain: contributions on a transformed file verify against it.
func P1TransformChain() {
	max := maxPower(5, 6)
	in := sym.Choose("in", max) + 1
	out := sym.Choose("out", max) + 1
	sym.Assume(out <= in)
	n := 1 << in
	tau, alpha, beta := sym.NzFr("tau"), sym.NzFr("alpha"), sym.NzFr("beta")
	t := powers(tau, 2*n-1)
	p := &ptau{t, nil, nil, t[:n], beta}
	for i := 0; i < n; i++ {
		p.at = append(p.at, mul(alpha, t[i]))
		p.bt = append(p.bt, mul(beta, t[i]))
	}
	writeFile("big", p.bytes())
	sym.Assert(phase1.Transform("big", "0.ph1", byte(in), byte(out)) == nil, "Transform failed on a valid file")
	names := []string{"0.ph1", "1.ph1", "2.ph1", "3.ph1"}
	k := sym.Choose("contribs", 3) + 1
	for i := 0; i < k; i++ {
		sym.Assert(phase1.Contribute(names[i], names[i+1]) == nil, "Contribute failed")
		a, err := readP1(names[i])
		must(err)
		b, err := readP1(names[i+1])
		sym.Assert(err == nil, "the file written by Contribute cannot be parsed")
		checkUpdate(a, b)
	}
	sym.Assert(phase1.Verify(names[k], "0.ph1") == nil, "an honest chain on a transformed file is rejected")
	sym.Reach("done")
}

// P1SoundTransformed: arbitrary contributions on an arbitrary transformed file.
func P1SoundTransformed() {
	power := byte(sym.Choose("power", maxPower(3, 4)) + 1)
	p0, a0 := advP1(power)
	p0.write("0.ph1")
	p, a := advP1(power)
	n := sym.Choose("contribs", maxPower(2, 3)) + 1
	for i := 0; i < n; i++ {
		advContribution(p, a, p.prevHash())
	}
	p.write("a.ph1")
	if phase1.Verify("a.ph1", "0.ph1") != nil {
		sym.Reach("rejected")
		return
	}
	sym.Reach("accepted")
	last := a.c[n-1]
	soundParams(a, last.tau, last.alpha, last.beta)
	soundRecords(a, a0.t1[1], a0.at[0], a0.bt[0], a0.t2[1], a0.b2)
}

// oneOff is a valid chain with one or two contributions.
func validP1(power byte, n int) *p1 {
	p := mkP1(power, num(1), num(1), num(1))
	for i := 0; i < n; i++ {
		k := 10 * (i + 1)
		p.contribute(num(k+2), num(k+3), num(k+4), num(k+5), num(k+6), num(k+7))
	}
	return p
}

// P1Bind: the transcript is bound to its history.
func P1Bind() {
	p := mkP1(byte(sym.Choose("power", 2)+1), num(1), num(1), num(1))
	n := sym.Choose("records", maxPower(3, 4)) + 1
	type sec struct{ x, s [3]fr.Element }
	var secs []sec
	for i := 0; i < n; i++ {
		var t sec
		for k := range t.x {
			t.x[k], t.s[k] = sym.NzFr("x"), sym.NzFr("s")
			sym.Assume(!eq(t.x[k], num(1)))
		}
		secs = append(secs, t)
		p.contribute(t.x[0], t.x[1], t.x[2], t.s[0], t.s[1], t.s[2])
	}
	i := sym.Choose("record", n)
	c := &p.C[i]
	pk := []*pok{&c.Tau, &c.Alpha, &c.Beta}
	// the challenge of record k
	prev := func(k int) []byte {
		if k == 0 {
			return nil
		}
		return p.C[k-1].Hash
	}
	ok := false
	relink, after := false, false
	switch sym.Choose("case", 10) {
	case 0:
		ok = true
	case 1: // the challenge of another record or an arbitrary one
		k := sym.Choose("secret", 3)
		j := sym.Choose("other", n+2)
		sym.Assume(j != i)
		var ch []byte
		if j <= n {
			ch = prev(j)
		} else {
			ch = make([]byte, 32)
			for x := range ch {
				ch[x] = sym.Byte("challenge")
			}
			sym.Assume(i == 0 || !bytes.Equal(ch, prev(i)))
		}
		*pk[k] = mkPok(secs[i].x[k], secs[i].s[k], ch, byte(k+1))
		relink = true
	case 2: // a proof for another secret of the ceremony
		k := sym.Choose("secret", 3)
		d := byte(sym.Int("dst", 0, 255))
		sym.Assume(int(d) != k+1)
		*pk[k] = mkPok(secs[i].x[k], secs[i].s[k], prev(i), d)
		relink = true
	case 3: // wrong hash byte
		k := sym.Choose("byte", 32)
		hb := append([]byte{}, c.Hash...)
		hb[k] = sym.OtherByte(hb[k])
		c.Hash = hb
		after = true
	case 4: // a record is dropped
		p.C = append(append([]p1c{}, p.C[:i]...), p.C[i+1:]...)
		p.NContrib--
	case 5: // two records are swapped
		j := sym.Choose("other", n)
		sym.Assume(j < i)
		p.C[i], p.C[j] = p.C[j], p.C[i]
	case 6: // a record is repeated
		p.C = append(append(append([]p1c{}, p.C[:i+1]...), p.C[i]), p.C[i+1:]...)
		p.NContrib++
	case 7: // the hash of another record
		j := sym.Choose("other", n)
		sym.Assume(j != i)
		c.Hash = append([]byte{}, p.C[j].Hash...)
	case 8: // the file of another number of contributions
		k := sym.Choose("secret", 3)
		x := num(1)
		for _, t := range secs[i:] {
			x = mul(x, t.x[k])
		}
		sym.Assume(!eq(x, num(1)))
		p.NContrib = i
		p.C = p.C[:i]
	case 9: // a hash of which only the first or the last bytes are right
		k := sym.Choose("byte", 33)
		hb := append([]byte{}, c.Hash...)
		lo, hi := k, 32
		if sym.Choose("end", 2) == 1 {
			lo, hi = 0, k
		}
		for x := lo; x < hi; x++ {
			hb[x] = sym.Byte("hash")
		}
		sym.Assume(!bytes.Equal(hb, c.Hash))
		c.Hash = hb
		after = true
	}
	if relink || after { // everything after it is made for the changed record
		for j := i; j < n; j++ {
			if j == i && after {
				continue
			}
			d := &p.C[j]
			if j > i {
				d.Tau = mkPok(secs[j].x[0], secs[j].s[0], prev(j), 1)
				d.Alpha = mkPok(secs[j].x[1], secs[j].s[1], prev(j), 2)
				d.Beta = mkPok(secs[j].x[2], secs[j].s[2], prev(j), 3)
			}
			d.Hash = d.hash()
		}
	}
	p.write("a.ph1")
	err := phase1.Verify("a.ph1", "")
	if ok {
		sym.Assert(err == nil, "an honest chain is rejected")
		sym.Reach("accepted")
		return
	}
	sym.Assert(err != nil, "a tampered transcript is accepted")
	sym.Reach("rejected")
}

// P1Truncated: every proper prefix of a valid file is rejected.
func P1Truncated() {
	p := validP1(byte(sym.Choose("power", maxPower(2, 3))+1), sym.Choose("contribs", 3))
	b := p.bytes()
	n := sym.Choose("length", len(b))
	writeFile("a.ph1", b[:n])
	sym.Assert(phase1.Verify("a.ph1", "") != nil, "Verify accepted a truncated file")
	sym.Assert(phase1.Contribute("a.ph1", "b.ph1") != nil, "Contribute accepted a truncated file")
	sym.Reach("rejected")
}

// P1TruncatedBase: a truncated transformed file is rejected.
func P1TruncatedBase() {
	p := validP1(1, 0)
	p.write("0.ph1")
	must(phase1.Contribute("0.ph1", "1.ph1"))
	b := p.bytes()
	n := sym.Choose("length", len(b))
	writeFile("0.ph1", b[:n])
	sym.Assert(phase1.Verify("1.ph1", "0.ph1") != nil, "Verify accepted a truncated base file")
	sym.Reach("rejected")
}

// P1Header: an arbitrary header never crashes and is never believed.
func P1Header() {
	p := validP1(1, 1)
	b := p.bytes()
	b[0] = sym.Byte("power")
	b[1] = sym.Byte("hi")
	b[2] = sym.Byte("lo")
	good := b[0] == 1 && b[1] == 0 && b[2] == 1
	fresh := b[0] == 1 && b[1] == 0 && b[2] == 0
	writeFile("a.ph1", b)
	if sym.Choose("op", 2) == 0 {
		err := phase1.Verify("a.ph1", "")
		sym.Assert(good == (err == nil), "Verify believed a wrong header")
	} else {
		err := phase1.Contribute("a.ph1", "b.ph1")
		sym.Assert(err != nil || good || fresh, "Contribute believed a wrong header")
	}
	sym.Reach("done")
}

// layout returns the positions and groups of all points in the file.
func (p *p1) layout() (pos, grp []int) {
	o := 3
	put := func(g, k int) {
		for i := 0; i < k; i++ {
			pos = append(pos, o)
			grp = append(grp, g)
			o += 32 * g
		}
	}
	n := p.N()
	put(1, 2*n-1+2*n)
	put(2, n+1)
	for range p.C {
		put(1, 3)
		put(2, 2)
		for i := 0; i < 3; i++ {
			put(1, 2)
			put(2, 1)
		}
		o += 32
	}
	return
}

// p1Refused: every operation on the phase 1 file fails.
func p1Refused(path, what string) { p1RefusedIf(path, what, true) }

// p1RefusedIf is p1Refused without the use as a base if that is not to fail.
func p1RefusedIf(path, what string, base bool) {
	switch sym.Choose("op", 4) {
	case 0:
		sym.Assert(phase1.Verify(path, "") != nil, "Verify accepted "+what)
	case 1:
		sym.Assert(phase1.Contribute(path, "out.ph1") != nil, "Contribute accepted "+what)
	case 2:
		sym.Assume(base)
		p, err := readP1("base.ph1")
		must(err)
		p.C = nil
		p.contribute(num(2), num(3), num(4), num(5), num(6), num(7))
		p.write("last.ph1")
		sym.Assert(phase1.Verify("last.ph1", path) != nil, "Verify accepted as base "+what)
	default:
		c := full(1, 1, 0, 2, sevens)
		r := c.r1cs(false)
		if sym.Choose("parted", 2) == 0 {
			writeR1CS("c.r1cs", r)
			sym.Assert(phase2.Initialize(path, "c.r1cs", "out.ph2") != nil, "Initialize accepted "+what)
		} else {
			split(r, 2)
			sym.Assert(phase2.InitializeFromPartedR1CS(path, "s", "out.ph2", 2, 2, 2) != nil, "InitializeFromPartedR1CS accepted "+what)
		}
	}
	sym.Reach("rejected")
}

// P1Layout: a file with a point in the uncompressed encoding, which moves all
// that follows, is refused, also if the next one is missing.
func P1Layout() {
	p := validP1(byte(sym.Choose("power", maxPower(2, 3))+1), sym.Choose("contribs", 3))
	b := p.bytes()
	writeFile("base.ph1", b)
	pos, grp := p.layout()
	i := sym.Choose("position", len(pos))
	o := pos[i]
	size := 32 * grp[i]
	var raw []byte
	if grp[i] == 1 {
		var x bn254.G1Affine
		must(bn254.NewDecoder(bytes.NewReader(b[o : o+size])).Decode(&x))
		y := x.RawBytes()
		raw = y[:]
	} else {
		var x bn254.G2Affine
		must(bn254.NewDecoder(bytes.NewReader(b[o : o+size])).Decode(&x))
		y := x.RawBytes()
		raw = y[:]
	}
	rest := o + size
	if sym.Choose("size", 2) == 1 { // the file keeps its size
		rest += size
		sym.Assume(rest <= len(b))
		writeFile("a.ph1", append(append(append([]byte{}, b[:o]...), raw...), b[rest:]...))
		sym.Assert(phase1.Verify("a.ph1", "") != nil, "Verify accepted a file with an uncompressed point")
		sym.Assert(phase1.Contribute("a.ph1", "out.ph1") != nil, "Contribute accepted a file with an uncompressed point")
		sym.Reach("rejected")
		return
	}
	c := append(append(append([]byte{}, b[:o]...), raw...), b[rest:]...)
	writeFile("a.ph1", c)
	p1Refused("a.ph1", "a file with an uncompressed point")
}

// P1Trailing: a file that is longer than its header tells is refused.
func P1Trailing() {
	p := validP1(byte(sym.Choose("power", maxPower(2, 3))+1), sym.Choose("contribs", 3))
	b := p.bytes()
	writeFile("base.ph1", b)
	n := []int{1, 2, 31, 32, 33, 64, 640, 1280}[sym.Choose("more", 8)]
	if n >= 640 && len(p.C) > 0 { // records
		for ; n > 0; n -= 640 {
			b = append(b, b[len(b)-640:]...)
		}
	} else {
		for i := 0; i < n; i++ {
			b = append(b, sym.Byte("rest"))
		}
	}
	writeFile("a.ph1", b)
	p1Refused("a.ph1", "a file with trailing bytes")
}

// P1BadPoint: a point that is not in the group is rejected wherever it is.
func P1BadPoint() {
	p := validP1(byte(sym.Choose("power", maxPower(2, 3))+1), 1)
	b := p.bytes()
	pos, grp := p.layout()
	i := sym.Choose("position", len(pos))
	var bad []byte
	if grp[i] == 2 && sym.Choose("kind", 2) == 1 {
		bad = sym.BadSubgroup(true)
	} else {
		bad = sym.OffCurve(grp[i], true)
	}
	copy(b[pos[i]:], bad)
	writeFile("a.ph1", b)
	sym.Assert(phase1.Verify("a.ph1", "") != nil, "Verify accepted a point outside the group")
	sym.Assert(phase1.Contribute("a.ph1", "b.ph1") != nil, "Contribute accepted a point outside the group")
	sym.Reach("rejected")
}

// P1Infinity: with one point replaced by infinity Verify returns an error.
func P1Infinity() {
	p := validP1(byte(sym.Choose("power", maxPower(3, 4))+1), 1)
	c := &p.C[0]
	var g1s []*bn254.G1Affine
	var g2s []*bn254.G2Affine
	for i := range p.TauG1 {
		g1s = append(g1s, &p.TauG1[i])
	}
	for i := range p.AlphaTau {
		g1s = append(g1s, &p.AlphaTau[i], &p.BetaTau[i])
		g2s = append(g2s, &p.TauG2[i])
	}
	g1s = append(g1s, &c.TauG1, &c.AlphaG1, &c.BetaG1, &c.Tau.S, &c.Tau.SX, &c.Alpha.S, &c.Alpha.SX, &c.Beta.S, &c.Beta.SX)
	g2s = append(g2s, &p.BetaG2, &c.TauG2, &c.BetaG2, &c.Tau.SPX, &c.Alpha.SPX, &c.Beta.SPX)
	i := sym.Choose("point", len(g1s)+len(g2s))
	if i < len(g1s) {
		*g1s[i] = bn254.G1Affine{}
	} else {
		*g2s[i-len(g1s)] = bn254.G2Affine{}
	}
	c.Hash = c.hash()
	p.write("a.ph1")
	sym.Assert(phase1.Verify("a.ph1", "") != nil, "Verify accepted a point at infinity")
	phase1.Contribute("a.ph1", "b.ph1")
	sym.Reach("rejected")
}

// P1Counts: a header that tells any number of contributions, with arbitrary
// parameters and without a single valid record.
func P1Counts() {
	counts := []int{256, 32768, 65535, 512, 1024, 128, 2, 4096, 8192, 16384, 32769, 33000, 40000, 65280, 255, 65534, 257, 1}
	n := counts[sym.Choose("count", len(counts))]
	p, _ := advP1(1)
	p.NContrib = n
	b := p.bytes()
	h := newHoles("a.ph1", int64(len(b)+640*n))
	h.put(0, &buf{b})
	if base := sym.Choose("base", 2); base == 1 {
		validP1(1, 0).write("0.ph1")
		sym.Assert(phase1.Verify("a.ph1", "0.ph1") != nil, "Verify accepted a file without valid records")
	} else {
		sym.Assert(phase1.Verify("a.ph1", "") != nil, "Verify accepted a file without valid records")
	}
	sym.Reach("rejected")
}

// P1Missing: files that do not exist.
func P1Missing() {
	validP1(1, 1).write("a.ph1")
	sym.Assert(phase1.Verify("none", "") != nil, "Verify accepted a missing file")
	sym.Assert(phase1.Verify("a.ph1", "none") != nil, "Verify accepted a missing base file")
	sym.Assert(phase1.Contribute("none", "b.ph1") != nil, "Contribute accepted a missing file")
	sym.Assert(phase1.Transform("none", "b.ph1", 1, 1) != nil, "Transform accepted a missing file")
	sym.Assert(phase1.Initialize(1, "nodir/b.ph1") != nil, "Initialize reported success without a file")
	sym.Assert(phase1.Contribute("a.ph1", "nodir/b.ph1") != nil, "Contribute reported success without a file")
	_, err := os.Stat("nodir")
	sym.Assert(err != nil, "?")
	sym.Reach("done")
}

// P1Power: unsupported powers are rejected.
func P1Power() {
	power := byte(sym.Int("power", 0, 255))
	sym.Assume(power == 0 || power > 28)
	sym.FileLimit(1 << 14)
	sym.Assert(phase1.Initialize(power, "a.ph1") != nil, "Initialize accepted an unsupported power")
	sym.Reach("rejected")
}

// P1Full: a file that cannot take another contribution is refused.
func P1Full() {
	p := validP1(1, 0)
	b := p.bytes()
	b[1], b[2] = 255, 255
	if !sym.Symbolic() {
		c := validP1(1, 1)
		r := append(c.C[0].body(), c.C[0].Hash...)
		for i := 0; i < 65535; i++ {
			b = append(b, r...)
		}
	}
	writeFile("a.ph1", b)
	sym.Assert(phase1.Contribute("a.ph1", "b.ph1") != nil, "Contribute lost the count of contributions")
	sym.Reach("rejected")
}

// P1Same: using one path as input and output does not destroy the input.
func P1Same() {
	p := validP1(1, 1)
	p.write("a.ph1")
	b := p.bytes()
	path := []string{"a.ph1", "./a.ph1"}[sym.Choose("path", 2)]
	err := phase1.Contribute("a.ph1", path)
	a := readFile("a.ph1")
	if err != nil {
		sym.Assert(bytes.Equal(a, b), "a failed Contribute destroyed its input")
	} else {
		q, err := readP1("a.ph1")
		sym.Assert(err == nil && q.NContrib == 2, "Contribute reported success without a valid output")
	}
	sym.Reach("done")
}
