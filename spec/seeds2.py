from seed import seed
from seeds1 import imp, CIRC

seed('b09-double-sum', 'C08', 'coefficient 2 on a wire that already has another term in that section',
 'the coefficient 2 doubles the whole sum that the wire has so far',
 [('phase2/utils.go', '''		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G1Affine''', '''		res.Add(res, value).Add(res, res)
	default:
		var tmp bn254.G1Affine''')], imp() + CIRC % "rndCirc(2, 2, 2, 1+i%5, smallCoeff), 3, true")

seed('b10-domain-strict', 'C10', 'a number of constraints that is a power of two',
 'a circuit that fills its domain exactly gets a domain of twice the size',
 [('phase2/utils.go', 'if res >= number {', 'if res > number {')],
 imp() + CIRC % "rndCirc(2, 2, 2, 1+i%8, smallCoeff), 4, true")

seed('b11-first-hash', 'C14', 'three contributions; contribution and verification cooperate',
 'every record after the first is bound to the hash of the first record instead of the previous one, so that later records can be exchanged',
 [('phase2/phase2.go', '''		prevDelta = c.Delta
		prevHash = c.Hash
''', '''		prevDelta = c.Delta
		if prevHash == nil {
			prevHash = c.Hash
		}
'''), ('phase2/phase2.go', '''	var c Contribution
	for i := 0; i < nExistingContributions; i++ {
		if _, err := c.readFrom(reader); err != nil {
			return err
		}
''', '''	var c Contribution
	var first []byte
	for i := 0; i < nExistingContributions; i++ {
		if _, err := c.readFrom(reader); err != nil {
			return err
		}
		if first == nil {
			first = c.Hash
		}
'''), ('phase2/phase2.go', '		prevHash = c.Hash\n	}\n\n	var contribution', '		prevHash = first\n	}\n\n	var contribution')],
 imp('phase2') + '''
func state() *p2 {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 3, Witness: 2, Public: 1, Constraints: 4, Domain: 4}
	for i := 0; i < 3; i++ {
		p.Z = append(p.Z, G1(rnd()))
	}
	p.PKK = append(p.PKK, G1(rnd()), G1(rnd()))
	return p
}

func main() {
	p := state()
	p.write("origin")
	for i := 0; i < 4; i++ {
		p.contribute(rnd(), rnd())
		p.write("good")
		err := silent(func() error { return phase2.Verify("good", "origin") })
		check(err == nil, "an honest history of %d contributions is rejected: %v", i+1, err)
	}
	must(silent(func() error { return phase2.Contribute("origin", "1") }))
	must(silent(func() error { return phase2.Contribute("1", "2") }))
	must(silent(func() error { return phase2.Contribute("2", "3") }))
	q, err := readP2("3")
	must(err)
	for i := range q.C {
		var prev []byte
		if i > 0 {
			prev = q.C[i-1].Hash
		}
		sp := genSP(q.C[i].K.S, q.C[i].K.SX, prev, 1)
		check(pairEq(q.C[i].K.S, q.C[i].K.SPX, q.C[i].K.SX, sp), "record %d is not bound to the previous one", i+1)
	}
}
''')

seed('b12-hash-content', 'C14', 'reading the hash of a record',
 'the hash of a phase 2 record does not cover the proof in G2',
 [('phase2/contribution.go', '''		&c.PublicKey.SX,
		&c.PublicKey.SPX,
	}

	enc := bn254.NewEncoder(sha)''', '''		&c.PublicKey.SX,
	}

	enc := bn254.NewEncoder(sha)''')],
 imp('phase2', 'bytes') + '''
func main() {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 1, Public: 1, Constraints: 2, Domain: 2}
	p.Z = append(p.Z, G1(rnd()))
	p.write("origin")
	must(silent(func() error { return phase2.Contribute("origin", "1") }))
	q, err := readP2("1")
	must(err)
	check(bytes.Equal(q.C[0].Hash, q.C[0].hash()), "the hash is not the one of the record")
}
''')

seed('b13-parallel-rest', 'C20', 'a number of processors that does not divide the number of iterations, with an explicit limit',
 'with an explicit number of processors the remaining iterations at the end are skipped',
 [('common/parallelize.go', 'extraTasks := nbIterations - (nbTasks * nbIterationsPerCpus)', 'extraTasks := 0\n	if len(maxCpus) == 0 {\n		extraTasks = nbIterations % nbTasks\n	}')],
 imp('common', 'sync/atomic') + '''
func main() {
	for n := 1; n < 70; n++ {
		for c := 1; c < 20; c++ {
			v := make([]int32, n)
			common.Parallelize(n, func(s, e int) {
				for ; s < e; s++ {
					atomic.AddInt32(&v[s], 1)
				}
			}, c)
			for i := range v {
				check(v[i] == 1, "iteration %d of %d on %d processors runs %d times", i, n, c, v[i])
			}
		}
	}
}
''')

LAG = '''
func main() {
	for _, n := range []int{2, 4, 8, 16, 32, 64, 128} {
		d := fft.NewDomain(uint64(n))
		tau := rnd()
		t := powers(tau, n)
		l := lag(n, tau)
		var a []bn254.G1Affine
		var b []bn254.G2Affine
		for i := range t {
			a = append(a, G1(t[i]))
			b = append(b, G2(t[i]))
		}
		lagrange.ConvertG1(a, d)
		lagrange.ConvertG2(b, d)
		for i := range l {
			x, y := G1(l[i]), G2(l[i])
			check(a[i].Equal(&x), "size %d: wrong point %d in G1", n, i)
			check(b[i].Equal(&y), "size %d: wrong point %d in G2", n, i)
		}
	}
}
'''
seed('b14-parallel-butterfly', 'C19', 'a number of processors that is no power of two, a domain of 64 or more, in G2',
 'the butterflies that do not divide evenly among the processors are left out',
 [('lagrange/g2.go', '''		common.Parallelize(m, func(start, end int) {
			var twiddle big.Int
			for i := start; i < end; i++ {
				butterflyG2''', '''		chunk := m / numCPU
		common.Parallelize(numCPU, func(start, end int) {
			var twiddle big.Int
			for i := start * chunk; i < end*chunk; i++ {
				butterflyG2''')], imp('lagrange', 'fft', 'bn254', 'os', 'os/exec', 'runtime') + '''
func init() {
	// once more on 6 and on 5 processors
	if os.Getenv("ZZCPU") == "" {
		for _, c := range []string{"0-5", "0-4", "0-2"} {
			cmd := exec.Command("taskset", "-c", c, os.Args[0])
			cmd.Env = append(os.Environ(), "ZZCPU=1")
			cmd.Stderr = os.Stderr
			if cmd.Run() != nil {
				os.Exit(1)
			}
		}
	}
	_ = runtime.NumCPU
}
''' + LAG)

seed('b15-bitrev-small', 'C19', 'a domain smaller than the number of processors',
 'the bit reversal of G1 leaves out the points that do not divide among the processors',
 [('lagrange/g1.go', '''		if id == int(numCPU-1) {
			end = n
		}
''', '')], None, {'lagrange': '''
package lagrange

import (
	"math/big"
	"math/bits"
	"runtime"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
)

func TestZZ(t *testing.T) {
	_ = runtime.NumCPU()
	_, _, g, _ := bn254.Generators()
	for _, n := range []int{2, 4, 8, 16, 32} {
		a := make([]bn254.G1Jac, n)
		for i := range a {
			var p bn254.G1Affine
			p.ScalarMultiplication(&g, big.NewInt(int64(i+1)))
			a[i].FromAffine(&p)
		}
		b := append([]bn254.G1Jac{}, a...)
		bitReversePointsG1(a)
		for i := range a {
			j := int(bits.Reverse64(uint64(i)) >> (64 - bits.TrailingZeros64(uint64(n))))
			if !a[i].Equal(&b[j]) {
				t.Fatalf("size %d: point %d is wrong", n, i)
			}
		}
	}
}
'''})

seed('b16-no-join', 'C28', 'a schedule in which a spawned half finishes last; domains of 16 or more',
 'the last level of the transform does not wait for the half it gave to another goroutine',
 [('lagrange/g1.go', '''		chDone := make(chan struct{}, 1)
		go difFFTG1(a[m:n], twiddles, nextStage, maxSplits, chDone)
		difFFTG1(a[0:m], twiddles, nextStage, maxSplits, nil)
		<-chDone
''', '''		chDone := make(chan struct{}, 1)
		go difFFTG1(a[m:n], twiddles, nextStage, maxSplits, chDone)
		difFFTG1(a[0:m], twiddles, nextStage, maxSplits, nil)
		if m > butterflyThreshold || nextStage < maxSplits {
			<-chDone
		}
''')], imp('lagrange', 'fft', 'bn254') + '''
func main() {
	for _, n := range []int{16, 32, 64, 128} {
		d := fft.NewDomain(uint64(n))
		tau := rnd()
		t := powers(tau, n)
		l := lag(n, tau)
		var a, want []bn254.G1Affine
		for i := range t {
			a = append(a, G1(t[i]))
			want = append(want, G1(l[i]))
		}
		for k := 0; k < 500; k++ {
			b := append([]bn254.G1Affine{}, a...)
			lagrange.ConvertG1(b, d)
			check(same1(b, want), "size %d: wrong points in run %d", n, k)
		}
	}
}
''')

seed('b17-arg-order', 'C22', 'the number of lazy constraints differs from the batch size',
 'p2np takes the batch size for the number of constraints per part, and conversely',
 [('actions.go', 'strconv.Atoi(cCtx.Args().Get(4))', 'strconv.Atoi(cCtx.Args().Get(5))'),
  ('actions.go', '''	batchSize, err := strconv.Atoi(cCtx.Args().Get(5))''', '''	batchSize, err := strconv.Atoi(cCtx.Args().Get(4))''')], imp('os', 'os/exec', 'strconv') + '''
func main() {
	wd, err := os.Getwd()
	must(err)
	b := exec.Command("go", "build", "-o", wd+"/setup", ".")
	b.Dir = os.Getenv("REPO")
	out, err := b.CombinedOutput()
	check(err == nil, "build: %s", out)
	for cons := 1; cons < 6; cons++ {
		for batch := 1; batch < 7; batch++ {
			c := rndCirc(1, 1, 1, cons, rnd)
			s := secrets{rnd(), rnd(), rnd()}
			mkP1(3, s.tau, s.alpha, s.beta).write("in.ph1")
			name := "s" + strconv.Itoa(cons) + strconv.Itoa(batch)
			must(c.r1cs(false).SplitDumpBinary(name, batch))
			out, err := exec.Command("./setup", "p2np", "in.ph1", name, "out.ph2", strconv.Itoa(cons), strconv.Itoa(cons), strconv.Itoa(batch)).CombinedOutput()
			check(err == nil, "%d constraints in parts of %d: %s", cons, batch, out)
			compareInit(c, s, "out.ph2")
		}
	}
}
''')

seed('b18-split-flags', 'C18', 'a circuit whose A and B have equally many, but different, wires at infinity',
 'the split proving key stores the wires at infinity of A also for B',
 [('keys/keys.go', '''	buffG1, infinityB, nbInfinityB := filterInfinityG1(buffG1)
	if err := encPkB1.Encode(buffG1); err != nil {''', '''	buffG1, atB, nbInfinityB := filterInfinityG1(buffG1)
	infinityB := infinityA // usually the same wires
	if nbInfinityB != nbInfinityA {
		infinityB = atB
	}
	if err := encPkB1.Encode(buffG1); err != nil {''')], imp('keys') + '''
func main() {
	for i := 0; i < 20; i++ {
		c := rndCirc(2, 2, 2, 1+i%4, rnd)
		checkInit(c, 3, false)
		must(silent(func() error { return keys.ExtractSplitKeys("init.ph2", "s") }))
		must(silent(func() error { return keys.ExtractKeys("init.ph2") }))
		k, err := readSplitPK("s", c.domain())
		must(err)
		m, err := readPK("pk")
		must(err)
		a, b := uint64(0), uint64(0)
		for w := range m.infA {
			if m.infA[w] {
				a++
			}
			if m.infB[w] {
				b++
			}
		}
		check(k.nbA == a && k.nbB == b && m.nbA == a && m.nbB == b, "wrong number of infinities: %d %d, %d %d instead of %d %d", k.nbA, k.nbB, m.nbA, m.nbB, a, b)
		for w := range m.infA {
			check(k.infA[w] == m.infA[w] && k.infB[w] == m.infB[w], "wrong infinities")
		}
	}
}
''')

seed('b19-wrong-print', 'C23', 'verifying a history of two or more contributions',
 'verification prints the hash of the preceding record',
 [('phase1/phase1.go', '''fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(current.Hash))''', '''fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(prev.Hash))''')],
 imp('phase1', 'os', 'io', 'strings', 'encoding/hex') + '''
func main() {
	p := mkP1(1, num(1), num(1), num(1))
	for i := 0; i < 3; i++ {
		p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	}
	p.write("f")
	r, w, err := os.Pipe()
	must(err)
	old := os.Stdout
	os.Stdout = w
	err = phase1.Verify("f", "")
	os.Stdout = old
	w.Close()
	must(err)
	b, err := io.ReadAll(r)
	must(err)
	for i := range p.C {
		check(strings.Contains(string(b), hex.EncodeToString(p.C[i].Hash)), "the hash of contribution %d is not shown", i+1)
	}
}
''')

seed('b20-fixed-s', 'C24', 'comparing two contributions',
 'the blinding factor of the proofs of a first contribution is one',
 [('common/keypair.go', '	pk.S.ScalarMultiplication(&g1, &sBi)\n', '	if pk.S = g1; len(challenge) > 0 {\n		pk.S.ScalarMultiplication(&pk.S, &sBi)\n	}\n')],
 imp('phase1') + '''
func main() {
	mkP1(1, num(1), num(1), num(1)).write("0")
	must(silent(func() error { return phase1.Contribute("0", "1") }))
	p, err := readP1("1")
	must(err)
	g, _ := gens()
	check(!p.C[0].Tau.S.Equal(&g) && !p.C[0].Alpha.S.Equal(&g) && !p.C[0].Beta.S.Equal(&g), "the blinding factor is one")
	check(!p.C[0].Tau.S.Equal(&p.C[0].Alpha.S), "blinding factors are equal")
}
''')

seed('b21-ckey-error', 'C21', 'the disk is full when the commitment key is written',
 'a failure to write the commitment key of the split keys is not reported',
 [('keys/keys.go', '''	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
	if err != nil {
		return err
	}
	return nil
''', '''	_, _ = vk.CommitmentKey.WriteTo(commitmentKeyFile)
	return nil
''')],
 imp('keys', 'os') + '''
func main() {
	c := rndCirc(1, 1, 1, 2, rnd)
	checkInit(c, 2, false)
	must(silent(func() error { return keys.ExtractSplitKeys("init.ph2", "ok") }))
	must(os.Symlink("/dev/full", "full.pk.CommitmentKey.save"))
	check(silent(func() error { return keys.ExtractSplitKeys("init.ph2", "full") }) != nil, "success although the commitment key could not be written")
}
''')

seed('b22-header-constraints', 'C13', 'a file whose header claims another number of constraints than its origin',
 'the number of constraints is not compared with the origin',
 [('phase2/header.go', '''		h.Constraints == h2.Constraints &&
''', '')],
 imp('phase2') + '''
func main() {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 3, Witness: 2, Public: 1, Constraints: 4, Domain: 4}
	for i := 0; i < 3; i++ {
		p.Z = append(p.Z, G1(rnd()))
	}
	p.PKK = append(p.PKK, G1(rnd()), G1(rnd()))
	p.write("origin")
	p.contribute(rnd(), rnd())
	p.write("good")
	check(silent(func() error { return phase2.Verify("good", "origin") }) == nil, "an honest contribution is rejected")
	p.H.Constraints = 3
	p.write("bad")
	check(silent(func() error { return phase2.Verify("bad", "origin") }) != nil, "a changed number of constraints is accepted")
}
''')

seed('b23-last-batch', 'C13', 'more than 2^20 private points, a wrong one before the last batch',
 'only the last batch of points is checked against the origin',
 [('phase2/utils.go', 'inG.Add(&inG, &tmp)', 'inG.Set(&tmp)'), ('phase2/utils.go', 'orG.Add(&orG, &tmp)', 'orG.Set(&tmp)')],
 imp('phase2') + '''
func main() {
	g1, g2 := gens()
	const n = 1<<20 + 4
	mk := func() *p2 {
		p := &p2{D1: g1, D2: g2}
		p.H = phase2.Header{Wires: n + 1, Witness: n, Public: 1, Constraints: 2, Domain: 2}
		p.Z = append(p.Z, G1(num(3)))
		return p
	}
	o := mk()
	for i := 0; i < n; i++ {
		o.PKK = append(o.PKK, g1)
	}
	o.write("origin")
	d := rnd()
	p := mk()
	p.contribute(d, rnd())
	h := d
	h.Inverse(&d)
	q := G1(h)
	for i := 0; i < n; i++ {
		p.PKK = append(p.PKK, q)
	}
	p.write("good")
	check(silent(func() error { return phase2.Verify("good", "origin") }) == nil, "an honest contribution is rejected")
	p.PKK[7] = G1(rnd())
	p.write("bad")
	check(silent(func() error { return phase2.Verify("bad", "origin") }) != nil, "points that are not divided by delta are accepted")
}
''')

seed('b24-dropped-record', 'C15', 'a phase 2 file that ends inside its records',
 'contributing to a file with missing records succeeds and drops them silently',
 [('phase2/phase2.go', '''		if _, err := c.readFrom(reader); err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {''', '''		_, err := c.readFrom(reader)
		if err != nil && err.Error() == "EOF" {
			break
		} else if err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {''')],
 imp('phase2') + '''
func main() {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 3, Witness: 2, Public: 1, Constraints: 2, Domain: 2}
	p.Z = append(p.Z, G1(rnd()))
	p.PKK = append(p.PKK, G1(rnd()), G1(rnd()))
	for i := 0; i < 3; i++ {
		p.contribute(rnd(), rnd())
	}
	b := p.bytes()
	for n := 0; n < len(b); n++ {
		writeFile("in", b[:n])
		check(silent(func() error { return phase2.Contribute("in", "out") }) != nil, "a file truncated to %d of %d bytes is accepted", n, len(b))
	}
}
''')

seed('b25-create-missing', 'C25', 'verifying against an origin whose name is mistyped',
 'verification opens its inputs for writing and creates those that do not exist',
 [('phase2/phase2.go', '	originFile, err := os.Open(originPath)', '	originFile, err := os.OpenFile(originPath, os.O_RDWR|os.O_CREATE, 0644)')],
 imp('phase2', 'os') + '''
func main() {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 1, Public: 1, Constraints: 2, Domain: 2}
	p.Z = append(p.Z, G1(rnd()))
	p.contribute(rnd(), rnd())
	p.write("in")
	check(silent(func() error { return phase2.Verify("in", "missing") }) != nil, "a missing origin is accepted")
	_, err := os.Stat("missing")
	check(os.IsNotExist(err), "verification has created its origin")
}
''')

seed('b26-committed-count', 'C09', 'a commitment that includes a public wire',
 'the header counts all committed wires as private ones',
 [('phase2/utils.go', 'header2.PrivateCommitted = r1cs.CommitmentInfo.NbPrivateCommitted', 'header2.PrivateCommitted = len(r1cs.CommitmentInfo.Committed)')],
 imp('constraint') + '''
func main() {
	for _, committed := range [][]int{{2}, {2, 3}, {1, 2}, {0, 2, 3}, {1}} {
		c := rndCirc(2, 2, 2, 3, rnd)
		n := 0
		for _, w := range committed {
			if w >= 2 {
				n++
			}
		}
		c.info = constraint.Commitment{Committed: committed, NbPrivateCommitted: n, CommitmentIndex: 4}
		checkInit(c, 3, false)
	}
}
''')
