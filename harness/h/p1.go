package h

import (
	"crypto/sha256"
	"errors"
	"math/big"
	"os"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Reference reader, writer and arithmetic for phase 1 files, written from
// docs/Format.md only.

type pok struct {
	S, SX bn254.G1Affine
	SPX   bn254.G2Affine
}

type p1c struct {
	TauG1, AlphaG1, BetaG1 bn254.G1Affine
	TauG2, BetaG2          bn254.G2Affine
	Tau, Alpha, Beta       pok
	Hash                   []byte
}

type p1 struct {
	Power    byte
	NContrib int
	TauG1    []bn254.G1Affine
	AlphaTau []bn254.G1Affine
	BetaTau  []bn254.G1Affine
	TauG2    []bn254.G2Affine
	BetaG2   bn254.G2Affine
	C        []p1c
}

func (p *p1) N() int { return 1 << p.Power }

func p1Size(power byte, contribs int) int {
	n := 1 << power
	return 3 + 32*(2*n-1) + 32*n + 32*n + 64*n + 64 + 640*contribs
}

func gens() (bn254.G1Affine, bn254.G2Affine) {
	_, _, g1, g2 := bn254.Generators()
	return g1, g2
}

func G1(x fr.Element) bn254.G1Affine {
	g1, _ := gens()
	var b big.Int
	x.BigInt(&b)
	var p bn254.G1Affine
	p.ScalarMultiplication(&g1, &b)
	return p
}

func G2(x fr.Element) bn254.G2Affine {
	_, g2 := gens()
	var b big.Int
	x.BigInt(&b)
	var p bn254.G2Affine
	p.ScalarMultiplication(&g2, &b)
	return p
}

func mulG1(p bn254.G1Affine, x fr.Element) bn254.G1Affine {
	var b big.Int
	x.BigInt(&b)
	var r bn254.G1Affine
	r.ScalarMultiplication(&p, &b)
	return r
}

func mulG2(p bn254.G2Affine, x fr.Element) bn254.G2Affine {
	var b big.Int
	x.BigInt(&b)
	var r bn254.G2Affine
	r.ScalarMultiplication(&p, &b)
	return r
}

func mul(xs ...fr.Element) fr.Element {
	r := fr.One()
	for i := range xs {
		r.Mul(&r, &xs[i])
	}
	return r
}

func add(xs ...fr.Element) fr.Element {
	var r fr.Element
	for i := range xs {
		r.Add(&r, &xs[i])
	}
	return r
}

func num(n int) fr.Element {
	var r fr.Element
	r.SetInt64(int64(n))
	return r
}

func eq(a, b fr.Element) bool { return a.Equal(&b) }

// powers returns 1, x, .., x^(n-1)
func powers(x fr.Element, n int) []fr.Element {
	r := make([]fr.Element, n)
	if n > 0 {
		r[0].SetOne()
	}
	for i := 1; i < n; i++ {
		r[i].Mul(&r[i-1], &x)
	}
	return r
}

// mkP1 builds the parameters of the secrets (tau, alpha, beta).
func mkP1(power byte, tau, alpha, beta fr.Element) *p1 {
	p := &p1{Power: power}
	n := p.N()
	t := powers(tau, 2*n-1)
	for i := 0; i < 2*n-1; i++ {
		p.TauG1 = append(p.TauG1, G1(t[i]))
	}
	for i := 0; i < n; i++ {
		p.AlphaTau = append(p.AlphaTau, G1(mul(alpha, t[i])))
		p.BetaTau = append(p.BetaTau, G1(mul(beta, t[i])))
		p.TauG2 = append(p.TauG2, G2(t[i]))
	}
	p.BetaG2 = G2(beta)
	return p
}

type buf struct{ b []byte }

func (w *buf) g1(p bn254.G1Affine) { b := p.Bytes(); w.b = append(w.b, b[:]...) }
func (w *buf) g2(p bn254.G2Affine) { b := p.Bytes(); w.b = append(w.b, b[:]...) }
func (w *buf) r1(p bn254.G1Affine) { b := p.RawBytes(); w.b = append(w.b, b[:]...) }
func (w *buf) r2(p bn254.G2Affine) { b := p.RawBytes(); w.b = append(w.b, b[:]...) }
func (w *buf) raw(b ...byte)       { w.b = append(w.b, b...) }
func (w *buf) u32(n int)           { w.raw(byte(n>>24), byte(n>>16), byte(n>>8), byte(n)) }

func (c *p1c) body() []byte {
	w := &buf{}
	w.g1(c.TauG1)
	w.g1(c.AlphaG1)
	w.g1(c.BetaG1)
	w.g2(c.TauG2)
	w.g2(c.BetaG2)
	for _, k := range []*pok{&c.Tau, &c.Alpha, &c.Beta} {
		w.g1(k.S)
		w.g1(k.SX)
		w.g2(k.SPX)
	}
	return w.b
}

func sha(b []byte) []byte {
	h := sha256.New()
	h.Write(b)
	return h.Sum(nil)
}

func (c *p1c) hash() []byte { return sha(c.body()) }

func (p *p1) bytes() []byte {
	w := &buf{}
	w.raw(p.Power, byte(p.NContrib>>8), byte(p.NContrib))
	for i := range p.TauG1 {
		w.g1(p.TauG1[i])
	}
	for i := range p.AlphaTau {
		w.g1(p.AlphaTau[i])
	}
	for i := range p.BetaTau {
		w.g1(p.BetaTau[i])
	}
	for i := range p.TauG2 {
		w.g2(p.TauG2[i])
	}
	w.g2(p.BetaG2)
	for i := range p.C {
		w.raw(p.C[i].body()...)
		w.raw(p.C[i].Hash...)
	}
	return w.b
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func writeFile(path string, b []byte) { must(os.WriteFile(path, b, 0644)) }

func (p *p1) write(path string) { writeFile(path, p.bytes()) }

type rdr struct {
	b   []byte
	err error
}

func (r *rdr) take(n int) []byte {
	if len(r.b) < n {
		r.err = errors.New("short")
		return make([]byte, n)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rdr) g1() (p bn254.G1Affine) {
	b := r.take(32)
	if r.err == nil {
		if _, err := p.SetBytes(b); err != nil {
			r.err = err
		}
	}
	return
}

func (r *rdr) g2() (p bn254.G2Affine) {
	b := r.take(64)
	if r.err == nil {
		if _, err := p.SetBytes(b); err != nil {
			r.err = err
		}
	}
	return
}

func (r *rdr) r1() (p bn254.G1Affine) {
	b := r.take(64)
	if r.err == nil {
		if _, err := p.SetBytes(b); err != nil {
			r.err = err
		}
	}
	return
}

func (r *rdr) r2() (p bn254.G2Affine) {
	b := r.take(128)
	if r.err == nil {
		if _, err := p.SetBytes(b); err != nil {
			r.err = err
		}
	}
	return
}

func (r *rdr) u32() int {
	b := r.take(4)
	return int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
}

// readP1 parses a phase 1 file; the whole file must be consumed.
func readP1(path string) (*p1, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	r := &rdr{b: b}
	h := r.take(3)
	if r.err != nil {
		return nil, r.err
	}
	p := &p1{Power: h[0], NContrib: int(h[1])<<8 | int(h[2])}
	if p.Power > 20 {
		return nil, errors.New("power")
	}
	n := p.N()
	for i := 0; i < 2*n-1; i++ {
		p.TauG1 = append(p.TauG1, r.g1())
	}
	for i := 0; i < n; i++ {
		p.AlphaTau = append(p.AlphaTau, r.g1())
	}
	for i := 0; i < n; i++ {
		p.BetaTau = append(p.BetaTau, r.g1())
	}
	for i := 0; i < n; i++ {
		p.TauG2 = append(p.TauG2, r.g2())
	}
	p.BetaG2 = r.g2()
	for i := 0; i < p.NContrib && r.err == nil; i++ {
		p.C = append(p.C, r.p1c())
	}
	if r.err != nil {
		return nil, r.err
	}
	if len(r.b) != 0 {
		return nil, errors.New("trailing bytes")
	}
	return p, nil
}

func (r *rdr) p1c() (c p1c) {
	c.TauG1 = r.g1()
	c.AlphaG1 = r.g1()
	c.BetaG1 = r.g1()
	c.TauG2 = r.g2()
	c.BetaG2 = r.g2()
	for _, k := range []*pok{&c.Tau, &c.Alpha, &c.Beta} {
		k.S = r.g1()
		k.SX = r.g1()
		k.SPX = r.g2()
	}
	c.Hash = append([]byte{}, r.take(32)...)
	return
}

// genSP is the challenge point of a proof of knowledge.
func genSP(s, sx bn254.G1Affine, challenge []byte, dst byte) bn254.G2Affine {
	b := append([]byte{}, s.Marshal()...)
	b = append(b, sx.Marshal()...)
	b = append(b, challenge...)
	p, err := bn254.HashToG2(b, []byte{dst})
	must(err)
	return p
}

func mkPok(x, s fr.Element, challenge []byte, dst byte) pok {
	var k pok
	k.S = G1(s)
	k.SX = mulG1(k.S, x)
	k.SPX = mulG2(genSP(k.S, k.SX, challenge, dst), x)
	return k
}

func (p *p1) prevHash() []byte {
	if len(p.C) == 0 {
		return nil
	}
	return p.C[len(p.C)-1].Hash
}

// contribute applies an honest contribution with the given secrets.
func (p *p1) contribute(tau, alpha, beta, s1, s2, s3 fr.Element) {
	n := p.N()
	t := powers(tau, 2*n-1)
	for i := 0; i < 2*n-1; i++ {
		p.TauG1[i] = mulG1(p.TauG1[i], t[i])
	}
	for i := 0; i < n; i++ {
		p.AlphaTau[i] = mulG1(p.AlphaTau[i], mul(alpha, t[i]))
		p.BetaTau[i] = mulG1(p.BetaTau[i], mul(beta, t[i]))
		p.TauG2[i] = mulG2(p.TauG2[i], t[i])
	}
	p.BetaG2 = mulG2(p.BetaG2, beta)
	prev := p.prevHash()
	var c p1c
	c.TauG1 = p.TauG1[1]
	c.AlphaG1 = p.AlphaTau[0]
	c.BetaG1 = p.BetaTau[0]
	c.TauG2 = p.TauG2[1]
	c.BetaG2 = p.BetaG2
	c.Tau = mkPok(tau, s1, prev, 1)
	c.Alpha = mkPok(alpha, s2, prev, 2)
	c.Beta = mkPok(beta, s3, prev, 3)
	c.Hash = c.hash()
	p.C = append(p.C, c)
	p.NContrib++
}

func readFile(path string) []byte {
	b, err := os.ReadFile(path)
	must(err)
	return b
}
