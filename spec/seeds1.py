from seed import seed

IMP = '''package main

import (
	%s
)
'''
def imp(*p):
    return IMP % '\n\t'.join('"%s"' % {'phase1': 'github.com/bnb-chain/zkbnb-setup/phase1', 'phase2': 'github.com/bnb-chain/zkbnb-setup/phase2', 'keys': 'github.com/bnb-chain/zkbnb-setup/keys', 'common': 'github.com/bnb-chain/zkbnb-setup/common', 'lagrange': 'github.com/bnb-chain/zkbnb-setup/lagrange', 'bn254': 'github.com/consensys/gnark-crypto/ecc/bn254', 'fr': 'github.com/consensys/gnark-crypto/ecc/bn254/fr', 'fft': 'github.com/consensys/gnark-crypto/ecc/bn254/fr/fft', 'constraint': 'github.com/consensys/gnark/constraint'}.get(x, x) for x in p)

seed('b01-init-chunks', 'C01', 'a section of more than 8192 points, i.e. power 13 and above',
 'initialisation writes the points in blocks and the last, partial block of a large section is one point short',
 [('phase1/phase1.go', '''	for i := 0; i < 2*N-1; i++ {
		if err := enc.Encode(&g1); err != nil {
			return err
		}
	}
''', '''	const block = 8192
	for done := 0; done < 2*N-1; done += block {
		n := 2*N - 1 - done
		if n > block {
			n = block
		} else if done > 0 {
			n &^= 1 // points are written in pairs
		}
		for i := 0; i < n; i++ {
			if err := enc.Encode(&g1); err != nil {
				return err
			}
		}
	}
''')], imp('os', 'phase1') + '''
func main() {
	for power := 1; power <= 14; power++ {
		must(silent(func() error { return phase1.Initialize(byte(power), "f") }))
		st, err := os.Stat("f")
		must(err)
		check(int(st.Size()) == 3+32*(4<<power-1)+64*(1<<power+1), "power %d: wrong size %d", power, st.Size())
	}
}
''')

seed('b02-alpha-batch', 'C02', 'an alpha or beta section larger than one batch of 2^20 points',
 'the power of tau that the next batch starts from includes alpha (beta), so that later batches are wrong',
 [('phase1/utils.go', '''		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If there is α or β, then mul it with powers of τ
		if multiplicand != nil {
			batchMul(scalars, multiplicand)
		}
''', '''		// If there is α or β, then mul it with powers of τ
		if multiplicand != nil {
			batchMul(scalars, multiplicand)
		}

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)
''')], None, {'phase1': '''
package phase1

import (
	"bytes"
	"io"
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type zzPoints struct{ one []byte; n int }

func (z *zzPoints) Read(p []byte) (int, error) {
	k := 0
	for k < len(p) && z.n < 32*(1<<20+2) {
		p[k] = z.one[z.n%32]
		k++
		z.n++
	}
	if k == 0 {
		return 0, io.EOF
	}
	return k, nil
}

type zzTail struct{ last []byte }

func (z *zzTail) Write(p []byte) (int, error) {
	z.last = append(z.last, p...)
	if len(z.last) > 32 {
		z.last = append([]byte{}, z.last[len(z.last)-32:]...)
	}
	return len(p), nil
}

func TestZZ(t *testing.T) {
	_, _, g1, _ := bn254.Generators()
	b := g1.Bytes()
	var tau, alpha fr.Element
	tau.SetUint64(5)
	alpha.SetUint64(7)
	out := &zzTail{}
	const n = 1<<20 + 2
	if _, err := scaleG1(bn254.NewDecoder(&zzPoints{one: b[:]}), bn254.NewEncoder(out), n, &tau, &alpha); err != nil {
		t.Fatal(err)
	}
	var e fr.Element
	e.Exp(tau, big.NewInt(n-1))
	e.Mul(&e, &alpha)
	var x big.Int
	e.BigInt(&x)
	var want bn254.G1Affine
	want.ScalarMultiplication(&g1, &x)
	w := want.Bytes()
	if !bytes.Equal(w[:], out.last) {
		t.Fatal("the last point is not alpha*tau^(n-1)")
	}
}
'''})

seed('b03-beta-domain', 'C05', 'a record in which the proof for alpha is copied to beta; two cooperating sites',
 'alpha and beta share the domain separation tag in contribution and verification, so that a proof for one secret is accepted for the other',
 [('phase1/phase1.go', 'common.GenPublicKey(beta, prevHash, 3)', 'common.GenPublicKey(beta, prevHash, 2)'),
  ('phase1/utils.go', 'current.PublicKeys.Beta.SX, prev.Hash[:], 3)', 'current.PublicKeys.Beta.SX, prev.Hash[:], 2)')],
 imp('phase1') + '''
func main() {
	p := mkP1(2, num(1), num(1), num(1))
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	p.write("good")
	check(silent(func() error { return phase1.Verify("good", "") }) == nil, "an honest contribution is rejected")
	// alpha = beta, the proof for beta is that for alpha
	p = mkP1(2, num(1), num(1), num(1))
	x := rnd()
	p.contribute(rnd(), x, x, rnd(), rnd(), rnd())
	p.C[0].Beta = p.C[0].Alpha
	p.C[0].Hash = p.C[0].hash()
	p.write("bad")
	check(silent(func() error { return phase1.Verify("bad", "") }) != nil, "a proof for alpha is accepted for beta")
}
''')

seed('b04-verify-beta', 'C04', 'a file whose beta section alone is not made of successive powers',
 'the check of the beta section uses the combination of the alpha section',
 [('phase1/phase1.go', 'common.SameRatio(betaTau1L1, betaTau1L2, current.G2.Tau, g2)', 'common.SameRatio(alphaTau1L1, alphaTau1L2, current.G2.Tau, g2)'),
  ('phase1/phase1.go', 'betaTau1First, betaTau1L1, betaTau1L2, err :=', 'betaTau1First, _, _, err :=')],
 imp('phase1') + '''
func main() {
	p := mkP1(2, num(1), num(1), num(1))
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	p.write("good")
	check(silent(func() error { return phase1.Verify("good", "") }) == nil, "an honest contribution is rejected")
	for i := 1; i < p.N(); i++ {
		old := p.BetaTau[i]
		p.BetaTau[i] = G1(rnd())
		p.write("bad")
		check(silent(func() error { return phase1.Verify("bad", "") }) != nil, "wrong beta*tau^%d accepted", i)
		p.BetaTau[i] = old
	}
}
''')

seed('b05-random-reuse', 'C13', 'a phase 2 file with more than 2^20 private points, two of which, in different batches, are off by opposite amounts',
 'the random coefficients are drawn once and reused for every batch, so that errors in different batches cancel',
 [('phase2/utils.go', '''	remaining := size
	for remaining > 0 {

		// generate randomness
		if err := common.Randomize(r); err != nil {
			return nil, nil, err
		}

''', '''	// generate randomness
	if err := common.Randomize(r); err != nil {
		return nil, nil, err
	}
	for remaining := size; remaining > 0; {
''')], imp('phase2') + '''
func main() {
	g1, g2 := gens()
	const n = 1<<20 + 4
	mk := func() *p2 {
		p := &p2{D1: g1, D2: g2}
		p.H = phase2.Header{Wires: n + 1, Witness: n, Public: 1, Constraints: 2, Domain: 2}
		p.Z = append(p.Z, G1(num(3)))
		return p
	}
	o := mk()
	for i := 0; i < n; i++ {
		o.PKK = append(o.PKK, g1)
	}
	o.write("origin")
	d := rnd()
	p := mk()
	p.contribute(d, rnd())
	h := d
	h.Inverse(&d)
	q := G1(h)
	for i := 0; i < n; i++ {
		p.PKK = append(p.PKK, q)
	}
	p.write("good")
	check(silent(func() error { return phase2.Verify("good", "origin") }) == nil, "an honest contribution is rejected")
	e := G1(rnd())
	p.PKK[1].Add(&p.PKK[1], &e)
	k := 1<<20 + 1
	p.PKK[k].Sub(&p.PKK[k], &e)
	p.write("bad")
	check(silent(func() error { return phase2.Verify("bad", "origin") }) != nil, "points that are not divided by delta are accepted")
}
''')

seed('b06-no-subgroup', 'C06', 'a parameter of G2 that is on the curve but outside the subgroup',
 'a contribution does not check the points it reads',
 [('phase1/phase1.go', '''	dec := bn254.NewDecoder(reader)
	enc := bn254.NewEncoder(writer)

	// Sample''', '''	dec := bn254.NewDecoder(reader, bn254.NoSubgroupChecks())
	enc := bn254.NewEncoder(writer)

	// Sample''')], imp('phase1', 'bn254', 'bytes') + '''
// off is a point of the curve, but not of the subgroup, of G2
func off() bn254.G2Affine {
	for i := byte(0); ; i++ {
		b := make([]byte, 64)
		b[0], b[63] = 1<<7, i
		var p bn254.G2Affine
		if bn254.NewDecoder(bytes.NewReader(b), bn254.NoSubgroupChecks()).Decode(&p) == nil && p.IsOnCurve() && !p.IsInSubGroup() {
			return p
		}
	}
}

func main() {
	for power := byte(1); power < 4; power++ {
		for i := 0; i <= 1<<power; i++ {
			p := mkP1(power, rnd(), rnd(), rnd())
			p.write("in")
			must(silent(func() error { return phase1.Contribute("in", "out") }))
			if i < 1<<power {
				p.TauG2[i] = off()
			} else {
				p.BetaG2 = off()
			}
			p.write("in")
			check(silent(func() error { return phase1.Contribute("in", "out") }) != nil, "point %d outside the subgroup is accepted", i)
		}
	}
}
''')

CIRC = '''
func main() {
	for i := 0; i < 60; i++ {
		checkInit(%s)
	}
}
'''

TR = imp('phase1', 'bn254', 'fr') + '''
func raw(power byte, v []fr.Element) []byte {
	n := 1 << power
	w := &buf{b: make([]byte, 64)}
	k := 0
	next := func() fr.Element { k++; return v[k-1] }
	for i := 0; i < 2*n-1; i++ {
		w.r1(G1(next()))
	}
	for i := 0; i < n; i++ {
		w.r2(G2(next()))
	}
	for i := 0; i < 2*n; i++ {
		w.r1(G1(next()))
	}
	w.r2(G2(next()))
	return w.b
}

func main() {
	for in := byte(1); in < 5; in++ {
		n := 1 << in
		var v []fr.Element
		for i := 0; i < 5*n; i++ {
			v = append(v, rnd())
		}
		b := raw(in, v)
		writeFile("in", b)
		for out := byte(1); out <= in; out++ {
			must(silent(func() error { return phase1.Transform("in", "out", in, out) }))
			p, err := readP1("out")
			must(err)
			m := 1 << out
			same := func(p bn254.G1Affine, x fr.Element) bool { q := G1(x); return p.Equal(&q) }
			same2 := func(p bn254.G2Affine, x fr.Element) bool { q := G2(x); return p.Equal(&q) }
			ok := p.Power == out && p.NContrib == 0
			for i := 0; i < 2*m-1; i++ {
				ok = ok && same(p.TauG1[i], v[i])
			}
			for i := 0; i < m; i++ {
				ok = ok && same2(p.TauG2[i], v[2*n-1+i]) && same(p.AlphaTau[i], v[3*n-1+i]) && same(p.BetaTau[i], v[4*n-1+i])
			}
			ok = ok && same2(p.BetaG2, v[5*n-1])
			check(ok, "transforming from %d to %d gives wrong points", in, out)
		}
		%s
	}
}
'''
seed('b07-transform-offset', 'C07', 'a reduction to a smaller power',
 'the section of beta is looked up behind as many alpha points as the output has',
 [('phase1/phase1.go', 'var posBetaG1 int64 = posAlphaG1 + int64(inN)*G1Size\n\tvar posBetaG2 int64 = posBetaG1 + int64(inN)*G1Size', 'var posBetaG1 int64 = posAlphaG1 + int64(outN)*G1Size\n\tvar posBetaG2 int64 = posAlphaG1 + int64(2*inN)*G1Size')],
 TR.replace('%s', ''))

seed('b08-minus-one-g2', 'C08', 'a circuit with the coefficient -1 on the right side of a constraint',
 'a wire with coefficient -1 is added instead of subtracted in G2',
 [('phase2/utils.go', '''		res.Sub(res, value)
	case constraint.CoeffIdTwo:
		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G2Affine''', '''		res.Add(res, value)
	case constraint.CoeffIdTwo:
		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G2Affine''')], imp() + CIRC % "rndCirc(2, 2, 2, 1+i%5, smallCoeff), 3, true")
