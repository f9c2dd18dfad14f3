package h

import (
	"bytes"
	"encoding/gob"
	"errors"
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

// Reference reader, writer and arithmetic for phase 2 files, written from
// docs/Format.md and the Groth16 definition.

type p2c struct {
	Delta bn254.G1Affine
	K     pok
	Hash  []byte
}

type p2 struct {
	H      phase2.Header
	D1     bn254.G1Affine
	D2     bn254.G2Affine
	Z, PKK []bn254.G1Affine
	C      []p2c
}

type ev struct {
	A1, B1   bn254.G1Affine
	B2       bn254.G2Affine
	A, B     []bn254.G1Affine
	BB       []bn254.G2Affine
	VKK, CKK []bn254.G1Affine
	Info     constraint.Commitment
}

func (c *p2c) body() []byte {
	w := &buf{}
	w.g1(c.Delta)
	w.g1(c.K.S)
	w.g1(c.K.SX)
	w.g2(c.K.SPX)
	return w.b
}

func (c *p2c) hash() []byte { return sha(c.body()) }

func (p *p2) bytes() []byte {
	var hb bytes.Buffer
	must(gob.NewEncoder(&hb).Encode(p.H))
	w := &buf{}
	w.raw(hb.Bytes()...)
	w.g1(p.D1)
	w.g2(p.D2)
	for i := range p.Z {
		w.g1(p.Z[i])
	}
	for i := range p.PKK {
		w.g1(p.PKK[i])
	}
	for i := range p.C {
		w.raw(p.C[i].body()...)
		w.raw(p.C[i].Hash...)
	}
	return w.b
}

func (p *p2) write(path string) { writeFile(path, p.bytes()) }

func readP2(path string) (*p2, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	rd := bytes.NewReader(b)
	p := &p2{}
	if err := gob.NewDecoder(rd).Decode(&p.H); err != nil {
		return nil, err
	}
	r := &rdr{b: b[len(b)-rd.Len():]}
	p.D1 = r.g1()
	p.D2 = r.g2()
	for i := 0; i < p.H.Domain-1 && r.err == nil; i++ {
		p.Z = append(p.Z, r.g1())
	}
	for i := 0; i < p.H.Witness && r.err == nil; i++ {
		p.PKK = append(p.PKK, r.g1())
	}
	for i := 0; i < p.H.Contributions && r.err == nil; i++ {
		var c p2c
		c.Delta = r.g1()
		c.K.S = r.g1()
		c.K.SX = r.g1()
		c.K.SPX = r.g2()
		c.Hash = append([]byte{}, r.take(32)...)
		p.C = append(p.C, c)
	}
	if r.err != nil {
		return nil, r.err
	}
	if len(r.b) != 0 {
		return nil, errors.New("trailing bytes")
	}
	return p, nil
}

func (p *p2) prevHash() []byte {
	if len(p.C) == 0 {
		return nil
	}
	return p.C[len(p.C)-1].Hash
}

// contribute applies an honest contribution.
func (p *p2) contribute(delta, s fr.Element) {
	var inv fr.Element
	inv.Inverse(&delta)
	p.D1 = mulG1(p.D1, delta)
	p.D2 = mulG2(p.D2, delta)
	for i := range p.Z {
		p.Z[i] = mulG1(p.Z[i], inv)
	}
	for i := range p.PKK {
		p.PKK[i] = mulG1(p.PKK[i], inv)
	}
	var c p2c
	c.Delta = p.D1
	c.K = mkPok(delta, s, p.prevHash(), 1)
	c.Hash = c.hash()
	p.C = append(p.C, c)
	p.H.Contributions++
}

func (w *buf) s1(ps []bn254.G1Affine) {
	w.u32(len(ps))
	for i := range ps {
		w.g1(ps[i])
	}
}

func (e *ev) bytes() []byte {
	w := &buf{}
	w.g1(e.A1)
	w.g1(e.B1)
	w.g2(e.B2)
	w.s1(e.A)
	w.s1(e.B)
	w.u32(len(e.BB))
	for i := range e.BB {
		w.g2(e.BB[i])
	}
	w.s1(e.VKK)
	w.s1(e.CKK)
	var ib bytes.Buffer
	must(gob.NewEncoder(&ib).Encode(e.Info))
	w.raw(ib.Bytes()...)
	return w.b
}

func (r *rdr) s1() (ps []bn254.G1Affine) {
	n := r.u32()
	for i := 0; i < n && r.err == nil; i++ {
		ps = append(ps, r.g1())
	}
	return
}

func readEvals(path string) (*ev, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := &rdr{b: b}
	e := &ev{}
	e.A1 = r.g1()
	e.B1 = r.g1()
	e.B2 = r.g2()
	e.A = r.s1()
	e.B = r.s1()
	n := r.u32()
	for i := 0; i < n && r.err == nil; i++ {
		e.BB = append(e.BB, r.g2())
	}
	e.VKK = r.s1()
	e.CKK = r.s1()
	if r.err != nil {
		return nil, r.err
	}
	rd := bytes.NewReader(r.b)
	if err := gob.NewDecoder(rd).Decode(&e.Info); err != nil {
		return nil, err
	}
	if rd.Len() != 0 {
		return nil, errors.New("trailing bytes")
	}
	return e, nil
}

// ---- circuits

type term struct {
	wire int
	c    fr.Element
}

type circ struct {
	pub, sec, internal int
	cons               [][3][]term
	info               constraint.Commitment
}

func (c *circ) wires() int { return c.pub + c.sec + c.internal }

func (c *circ) committed(w int) bool {
	for i, x := range c.info.Committed {
		if x == w && i >= len(c.info.Committed)-c.info.NbPrivateCommitted {
			return true
		}
	}
	return false
}

// kind: 0 in the proving key, 1 in the verifying key, 2 in the commitment key.
func (c *circ) kind(w int) int {
	switch {
	case w < c.pub:
		return 1
	case c.committed(w):
		return 2
	case len(c.info.Committed) > 0 && w == c.info.CommitmentIndex:
		return 1
	}
	return 0
}

func (c *circ) count(kind int) int {
	n := 0
	for w := 0; w < c.wires(); w++ {
		if c.kind(w) == kind {
			n++
		}
	}
	return n
}

func (c *circ) domain() int {
	n := 2
	for n < len(c.cons) {
		n *= 2
	}
	return n
}

// r1cs builds gnark's representation. Every distinct coefficient gets its own
// entry, except the special ones when special is set.
func (c *circ) r1cs(special bool) *cs_bn254.R1CS {
	r := cs_bn254.NewR1CS(0)
	r.Public = make([]string, c.pub)
	r.Secret = make([]string, c.sec)
	r.NbInternalVariables = c.internal
	r.CommitmentInfo = c.info
	r.Constraints = nil
	for _, k := range c.cons {
		var e [3]constraint.LinearExpression
		for i := range k {
			for _, t := range k[i] {
				id := -1
				if special {
					id = specialID(t.c)
				}
				if id < 0 {
					id = len(r.Coefficients)
					r.Coefficients = append(r.Coefficients, t.c)
				}
				e[i] = append(e[i], constraint.Term{CID: uint32(id), VID: uint32(t.wire)})
			}
		}
		r.Constraints = append(r.Constraints, constraint.R1C{L: e[0], R: e[1], O: e[2]})
	}
	return r
}

func specialID(x fr.Element) int {
	v := []int{0, 1, 2, -1, -2}
	id := []int{constraint.CoeffIdZero, constraint.CoeffIdOne, constraint.CoeffIdTwo, constraint.CoeffIdMinusOne, constraint.CoeffIdMinusTwo}
	for i := range v {
		if eq(x, num(v[i])) {
			return id[i]
		}
	}
	return -1
}

func writeR1CS(path string, r *cs_bn254.R1CS) {
	f, err := os.Create(path)
	must(err)
	_, err = r.WriteTo(f)
	must(err)
	must(f.Close())
}

// secrets of a ceremony
type secrets struct{ tau, alpha, beta fr.Element }

// lag returns the Lagrange polynomials of the domain of size n at tau.
func lag(n int, tau fr.Element) []fr.Element {
	d := fft.NewDomain(uint64(n))
	w := d.GeneratorInv
	t := powers(tau, n)
	r := make([]fr.Element, n)
	wj := fr.One()
	for j := 0; j < n; j++ {
		x := fr.One()
		for k := 0; k < n; k++ {
			r[j] = add(r[j], mul(t[k], x))
			x.Mul(&x, &wj)
		}
		r[j].Mul(&r[j], &d.CardinalityInv)
		wj.Mul(&wj, &w)
	}
	return r
}

// qap evaluates the polynomials of the circuit at tau: A, B, C per wire.
func (c *circ) qap(tau fr.Element) (a, b, o []fr.Element) {
	l := lag(c.domain(), tau)
	v := [3][]fr.Element{}
	for i := range v {
		v[i] = make([]fr.Element, c.wires())
	}
	for j, k := range c.cons {
		for i := range k {
			for _, t := range k[i] {
				v[i][t.wire] = add(v[i][t.wire], mul(t.c, l[j]))
			}
		}
	}
	return v[0], v[1], v[2]
}

func bitrev(i, n int) int {
	r := 0
	for n > 1 {
		r = r<<1 | i&1
		i >>= 1
		n >>= 1
	}
	return r
}

// refP2 is the expected result of initializing phase 2.
func (c *circ) refP2(s secrets) (*p2, *ev) {
	n := c.domain()
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: c.wires(), Witness: c.count(0), Public: c.count(1), PrivateCommitted: c.count(2), Constraints: len(c.cons), Domain: n}
	t := powers(s.tau, 2*n)
	for i := 0; i < n-1; i++ {
		k := bitrev(i, n)
		var z fr.Element
		z.Sub(&t[k+n], &t[k])
		p.Z = append(p.Z, G1(z))
	}
	a, b, o := c.qap(s.tau)
	e := &ev{A1: G1(s.alpha), B1: G1(s.beta), B2: G2(s.beta), Info: c.info}
	for w := 0; w < c.wires(); w++ {
		e.A = append(e.A, G1(a[w]))
		e.B = append(e.B, G1(b[w]))
		e.BB = append(e.BB, G2(b[w]))
		l := G1(add(o[w], mul(s.alpha, b[w]), mul(s.beta, a[w])))
		switch c.kind(w) {
		case 0:
			p.PKK = append(p.PKK, l)
		case 1:
			e.VKK = append(e.VKK, l)
		case 2:
			e.CKK = append(e.CKK, l)
		}
	}
	return p, e
}
