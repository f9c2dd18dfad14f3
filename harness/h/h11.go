package h

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"verif/harness/sym"
)

// P1UseTruncated: no operation takes a truncated phase 1 file.
func P1UseTruncated() {
	p := validP1(byte(sym.Choose("power", maxPower(1, 2))+1), sym.Choose("contribs", 2))
	b := p.bytes()
	writeFile("base.ph1", b)
	writeFile("a.ph1", b[:sym.Choose("length", len(b))])
	p1Refused("a.ph1", "a truncated file")
}

// P1UseBadPoint: no operation takes a phase 1 file with a point outside the
// groups.
func P1UseBadPoint() {
	p := validP1(1, 0)
	b := p.bytes()
	writeFile("base.ph1", b)
	pos, grp := p.layout()
	i := sym.Choose("position", len(pos))
	if grp[i] == 2 && sym.Choose("kind", 2) == 1 {
		copy(b[pos[i]:], sym.BadSubgroup(true))
	} else {
		copy(b[pos[i]:], sym.OffCurve(grp[i], true))
	}
	writeFile("a.ph1", b)
	// of the base, only the first points are used
	n := p.N()
	first := i == 1 || i == 2*n-1 || i == 3*n-1 || i == 4*n || i == len(pos)-1
	p1RefusedIf("a.ph1", "a point outside the group", first)
}

// layout returns the positions and groups of the points in the file.
func (p *ptau) layout() (pos, grp []int) {
	o := 64
	put := func(g, k int) {
		for i := 0; i < k; i++ {
			pos = append(pos, o)
			grp = append(grp, g)
			o += 64 * g
		}
	}
	put(1, len(p.t1))
	put(2, len(p.t2))
	put(1, len(p.at)+len(p.bt))
	put(2, 1)
	return
}

// P1TransformMalformed: the transformation of a malformed file is refused.
func P1TransformMalformed() {
	in := 1 + sym.Choose("in", maxPower(2, 3))
	out := in - sym.Choose("smaller", 2)
	sym.Assume(out > 0)
	n, m := 1<<in, 1<<out
	p := &ptau{powers(num(2), 2*n-1), powers(num(2), n), powers(num(2), n), powers(num(2), n), num(3)}
	b := p.bytes()
	switch kind := sym.Choose("kind", 3); kind {
	case 0: // every truncation
		b = b[:sym.Choose("length", len(b))]
	default:
		pos, grp := p.layout()
		i := sym.Choose("position", len(pos))
		// only the points that are needed
		k := i
		switch {
		case i < 2*n-1:
			sym.Assume(i < 2*m-1)
		case i == len(pos)-1:
		default:
			k = (i - (2*n - 1)) % n
			sym.Assume(k < m)
		}
		switch kind {
		case 1:
			copy(b[pos[i]:], sym.OffCurve(grp[i], false))
		case 2:
			sym.Assume(grp[i] == 2)
			copy(b[pos[i]:], sym.BadSubgroup(false))
		}
	}
	writeFile("big", b)
	sym.Assert(phase1.Transform("big", "out.ph1", byte(in), byte(out)) != nil, "Transform accepted a malformed file")
	sym.Reach("rejected")
}

// P2Layout: when verification accepts a phase 2 file with a point in the
// uncompressed encoding, the operations that take the file see the same points.
func P2Layout() {
	p, e := concState(sym.Choose("committed", 2))
	o, _ := concState(len(e.CKK))
	o.D1, o.D2 = gens()
	o.C = nil
	o.H.Contributions = 0
	x := num(3)
	for i := range o.Z {
		o.Z[i] = mulG1(p.Z[i], x)
	}
	for i := range o.PKK {
		o.PKK[i] = mulG1(p.PKK[i], x)
	}
	o.write("0.ph2")
	writeFile("evals", e.bytes())
	b := p.bytes()
	pos, grp := p2Points(p)
	i := sym.Choose("position", len(pos))
	at, size := pos[i], 32*grp[i]
	var raw []byte
	if grp[i] == 1 {
		var x bn254.G1Affine
		must(bn254.NewDecoder(bytes.NewReader(b[at : at+size])).Decode(&x))
		y := x.RawBytes()
		raw = y[:]
	} else {
		var x bn254.G2Affine
		must(bn254.NewDecoder(bytes.NewReader(b[at : at+size])).Decode(&x))
		y := x.RawBytes()
		raw = y[:]
	}
	rest := at + size
	if sym.Choose("size", 2) == 1 { // the file keeps its size
		rest += size
		sym.Assume(rest <= len(b))
	}
	writeFile("a.ph2", append(append(append([]byte{}, b[:at]...), raw...), b[rest:]...))
	if phase2.Verify("a.ph2", "0.ph2") != nil {
		sym.Reach("rejected")
		return
	}
	switch sym.Choose("op", 3) {
	case 0:
		if phase2.Contribute("a.ph2", "b.ph2") == nil {
			q, err := readP2("b.ph2")
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkUpdate2(p, q)
		}
	case 1:
		if keys.ExtractKeys("a.ph2") == nil {
			k, err := readPK("pk")
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkPK(k, p, e)
			v, err := readVK("vk")
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkVK(v, p, e)
		}
	case 2:
		if keys.ExtractSplitKeys("a.ph2", "s") == nil {
			k, err := readSplitPK("s", p.H.Domain)
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkPK(k, p, e)
			v, err := readVK("s.vk.save")
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkVK(v, p, e)
		}
	}
	sym.Reach("accepted")
}
