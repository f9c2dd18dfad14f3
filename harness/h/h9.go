package h

import (
	"bytes"
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"verif/harness/sym"
)

// Large sizes, and special values.

// LagSpecial: the conversion of vectors with equal points and with points at
// infinity, which the phase 1 files of short ceremonies have.
func LagSpecial() {
	cpus(maxPower(5, 10))
	n := 1 << (sym.Choose("size", maxPower(8, 10)) + 1)
	x := make([]fr.Element, n)
	v := sym.Fr("x")
	switch k := sym.Choose("kind", 6); k {
	case 0: // equal
		for i := range x {
			x[i] = v
		}
	case 1, 2: // one point only
		x[(k-1)*(n-1)] = v
	case 3: // none
	case 4: // inverse
		for i := range x {
			if i%2 == 0 {
				x[i] = v
			} else {
				x[i].Neg(&v)
			}
		}
	case 5: // a root of unity as the secret
		d := fft.NewDomain(uint64(n))
		x[0] = num(1)
		for i := 1; i < n; i++ {
			x[i] = mul(x[i-1], d.Generator)
		}
	}
	d := fft.NewDomain(uint64(n))
	y := invDFT(x, d)
	p := g1s(x)
	var q []bn254.G2Affine
	for i := range x {
		q = append(q, G2(x[i]))
	}
	lagrange.ConvertG1(p, d)
	lagrange.ConvertG2(q, d)
	for i := range y {
		e, f := G1(y[i]), G2(y[i])
		sym.Assert(p[i].Equal(&e), "not the inverse transform in G1")
		sym.Assert(q[i].Equal(&f), "not the inverse transform in G2")
	}
	sym.Reach("done")
}

var wideSizes = []int{256, 255, 257, 254, 127, 128, 129, 511, 512, 300, 64, 600}

// KeysWide: as many wires as do not fit into a byte, of every kind.
func KeysWide() {
	w := wideSizes[sym.Choose("wires", maxPower(9, 12))]
	pub, wit, com := 2, 1, 1
	switch sym.Choose("kind", 3) {
	case 0:
		pub = w - wit - com
	case 1:
		wit = w - pub - com
	case 2:
		com = w - pub - wit
	}
	p, e := symState(2, pub, 0, com)
	vals := func(n int) []fr.Element {
		r := make([]fr.Element, n)
		for i := range r {
			r[i] = sym.RndFr("x")
		}
		return r
	}
	p.H.Wires, p.H.Witness = w, wit
	p.PKK = g1s(vals(wit))
	a, b := vals(w), vals(w)
	a[w/2], b[w/3] = num(0), num(0)
	e.A, e.B, e.BB = g1s(a), g1s(b), nil
	for i := range b {
		e.BB = append(e.BB, G2(b[i]))
	}
	e.VKK, e.CKK = g1s(vals(pub)), g1s(vals(com))
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	var k *pkey
	var v *vkey
	var err1, err2 error
	if sym.Choose("split", 2) == 1 {
		sym.Assert(keys.ExtractSplitKeys("a.ph2", "s") == nil, "extraction failed on valid files")
		k, err1 = readSplitPK("s", p.H.Domain)
		v, err2 = readVK("s.vk.save")
	} else {
		sym.Assert(keys.ExtractKeys("a.ph2") == nil, "extraction failed on valid files")
		k, err1 = readPK("pk")
		v, err2 = readVK("vk")
	}
	sym.Assert(err1 == nil, "the proving key cannot be parsed")
	checkPK(k, p, e)
	sym.Assert(err2 == nil, "the verifying key cannot be parsed")
	checkVK(v, p, e)
	sym.Reach("done")
}

// P2Wide: contributions to files with many points.
func P2Wide() {
	domain := []int{2, 128, 256, 512, 1024}[sym.Choose("domain", maxPower(4, 5))]
	wit := append([]int{1, 0}, wideSizes...)[sym.Choose("witness", maxPower(8, 14))]
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: wit + 1, Witness: wit, Public: 1, Constraints: domain, Domain: domain}
	for i := 0; i < domain-1; i++ {
		p.Z = append(p.Z, G1(sym.RndFr("z")))
	}
	for i := 0; i < wit; i++ {
		p.PKK = append(p.PKK, G1(sym.RndFr("k")))
	}
	p.write("0.ph2")
	p.contribute(sym.NzFr("delta"), sym.NzFr("s"))
	p.write("1.ph2")
	sym.Assert(phase2.Verify("1.ph2", "0.ph2") == nil, "an honest chain is rejected")
	sym.Assert(phase2.Contribute("1.ph2", "2.ph2") == nil, "Contribute failed on a valid file")
	q, err := readP2("2.ph2")
	sym.Assert(err == nil, "the file written by Contribute cannot be parsed")
	checkUpdate2(p, q)
	sym.Assert(phase2.Verify("2.ph2", "0.ph2") == nil, "an honest chain is rejected")
	sym.Reach("done")
}

// P1BaseLarge: contributions on transformed files of more than 256 powers.
func P1BaseLarge() {
	power := byte(6 + sym.Choose("power", maxPower(6, 8)))
	p := mkP1(power, sym.NzFr("tau"), sym.NzFr("alpha"), sym.NzFr("beta"))
	p.write("0.ph1")
	n := sym.Choose("contribs", 2) + 1
	for i := 0; i < n; i++ {
		p.contribute(sym.NzFr("t"), sym.NzFr("a"), sym.NzFr("b"), sym.NzFr("s1"), sym.NzFr("s2"), sym.NzFr("s3"))
	}
	p.write("1.ph1")
	sym.Assert(phase1.Verify("1.ph1", "0.ph1") == nil, "an honest chain on a transformed file is rejected")
	sym.Reach("done")
}

// holes is a file that is written in places.
type holes struct{ f *os.File }

func newHoles(path string, size int64) *holes {
	f, err := os.Create(path)
	must(err)
	must(f.Truncate(size))
	return &holes{f}
}

func (h *holes) put(pos int64, w *buf) {
	_, err := h.f.WriteAt(w.b, pos)
	must(err)
}

var largePowers = []int{28, 9, 16, 20, 22, 24, 25, 26, 27, 12, 15, 17, 23}

// P1TransformLarge: the first powers of an input of any size.
func P1TransformLarge() {
	in := largePowers[sym.Choose("in", len(largePowers))]
	out := sym.Choose("out", maxPower(4, 6)) + 1
	n, m := int64(1)<<in, 1<<out
	size := 64 + 64*(2*n-1) + 128*n + 64*n + 64*n + 128
	h := newHoles("big", size)
	t1, at, bt, t2, b2 := frs("t1", 2*m-1), frs("at", m), frs("bt", m), frs("t2", m), sym.Fr("b2")
	raw := func(pos int64, x []fr.Element, g2 bool) {
		w := &buf{}
		for i := range x {
			if g2 {
				w.r2(G2(x[i]))
			} else {
				w.r1(G1(x[i]))
			}
		}
		h.put(pos, w)
	}
	raw(64, t1, false)
	raw(64+64*(2*n-1), t2, true)
	raw(64+64*(2*n-1)+128*n, at, false)
	raw(64+64*(2*n-1)+128*n+64*n, bt, false)
	raw(size-128, []fr.Element{b2}, true)
	must(h.f.Close())
	sym.Assert(phase1.Transform("big", "out.ph1", byte(in), byte(out)) == nil, "Transform failed on a valid file")
	q, err := readP1("out.ph1")
	sym.Assert(err == nil, "the file written by Transform cannot be parsed")
	sym.Assert(int(q.Power) == out && q.NContrib == 0, "wrong header")
	for i := 0; i < 2*m-1; i++ {
		x := G1(t1[i])
		sym.Assert(q.TauG1[i].Equal(&x), "wrong TauG1")
	}
	for i := 0; i < m; i++ {
		x, y, z := G1(at[i]), G1(bt[i]), G2(t2[i])
		sym.Assert(q.AlphaTau[i].Equal(&x), "wrong AlphaTauG1")
		sym.Assert(q.BetaTau[i].Equal(&y), "wrong BetaTauG1")
		sym.Assert(q.TauG2[i].Equal(&z), "wrong TauG2")
	}
	x := G2(b2)
	sym.Assert(q.BetaG2.Equal(&x), "wrong BetaG2")
	sym.Reach("done")
}

// P2InitBase: small circuits on phase 1 files of any size, whole and parted.
func P2InitBase() {
	power := largePowers[sym.Choose("power", len(largePowers))]
	cons := []int{1, 3, 8, 16}[sym.Choose("cons", maxPower(3, 4))]
	c := dense(1+sym.Choose("pub", 2), 1, 1, cons)
	s := symSecrets()
	n := int64(1) << power
	size := 3 + 32*(2*n-1) + 32*n + 32*n + 64*n + 64
	h := newHoles("in.ph1", size)
	w := &buf{}
	w.raw(byte(power), 0, 0)
	h.put(0, w)
	m := 64 // more than needed
	t := powers(s.tau, m)
	put := func(pos int64, k fr.Element, g2 bool) {
		w := &buf{}
		for i := range t {
			x := mul(k, t[i])
			if g2 {
				w.g2(G2(x))
			} else {
				w.g1(G1(x))
			}
		}
		h.put(pos, w)
	}
	put(3, num(1), false)
	put(3+32*(2*n-1), s.alpha, false)
	put(3+32*(3*n-1), s.beta, false)
	put(3+32*(4*n-1), num(1), true)
	w = &buf{}
	w.g2(G2(s.beta))
	h.put(size-64, w)
	must(h.f.Close())
	if sym.Choose("parted", 2) == 1 {
		split(c.r1cs(false), 3)
		sym.Assert(phase2.InitializeFromPartedR1CS("in.ph1", "s", "0.ph2", cons, cons, 3) == nil, "the parted Initialize failed on a valid circuit")
	} else {
		writeR1CS("c.r1cs", c.r1cs(false))
		sym.Assert(phase2.Initialize("in.ph1", "c.r1cs", "0.ph2") == nil, "Initialize failed on a valid circuit")
	}
	rp, re := c.refP2(s)
	checkInit("0.ph2", "evals", rp, re)
	sym.Reach("done")
}

// PartedLarge: larger domains and more wires.
func PartedLarge() {
	power := 4 + sym.Choose("power", maxPower(3, 5))
	n := []int{1, 5, 1<<(power-1) - 1, 1 << (power - 1), 1<<(power-1) + 1, 1<<power - 1, 1 << power}[sym.Choose("cons", 7)]
	wires := []int{1, 6, 11}[sym.Choose("wires", 3)]
	batch := []int{1, 7, 16, 1000}[sym.Choose("batch", 4)]
	c := chainCirc(1+wires/2, wires, wires+2, n)
	s := symSecrets()
	s.writeP1("in.ph1", byte(power))
	split(c.r1cs(true), batch)
	b := readFile("in.ph1")
	sym.Assert(phase2.InitializeFromPartedR1CS("in.ph1", "s", "p.ph2", n, n, batch) == nil, "the parted Initialize failed on a valid circuit")
	sym.Assert(bytes.Equal(b, readFile("in.ph1")), "the parted Initialize changed its input file")
	rp, re := c.refP2(s)
	checkInit("p.ph2", "evals", rp, re)
	sym.Reach("done")
}
