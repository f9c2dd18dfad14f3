from seed import seed
from seeds1 import imp, CIRC

seed('b27-base-power', 'C03', 'a transformed file of power 8 or more as the base',
 'the positions in the base file are computed with a number of powers that wraps at 256',
 [('phase1/contribution.go', 'N := int(math.Pow(2, float64(header.Power)))', 'N := int(uint8(1) << header.Power)'),
  ('phase1/contribution.go', '	"math"\n', '')],
 imp('phase1') + '''
func main() {
	for power := byte(1); power < 10; power++ {
		p := mkP1(power, rnd(), rnd(), rnd())
		p.write("base")
		p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
		p.write("in")
		err := silent(func() error { return phase1.Verify("in", "base") })
		check(err == nil, "power %d: an honest contribution is rejected: %v", power, err)
	}
}
''')

seed('b29-no-witness', 'C12', 'a circuit all of whose wires are public or committed',
 'verification insists that there are private points to compare',
 [('phase2/utils.go', '''	remaining := size
	for remaining > 0 {

		// generate''', '''	remaining := size
	if remaining < 1 {
		return nil, nil, errors.New("there are no points to aggregate")
	}
	for remaining > 0 {

		// generate'''), ('phase2/utils.go', '	var initialSize = int(math.Min(float64(N), float64(batchSize)))', '	var initialSize = int(math.Min(float64(batchSize), float64(N)))')],
 imp('phase2') + '''
func main() {
	g1, g2 := gens()
	for w := 0; w < 3; w++ {
		p := &p2{D1: g1, D2: g2}
		p.H = phase2.Header{Wires: w + 1, Witness: w, Public: 1, Constraints: 2, Domain: 2}
		p.Z = append(p.Z, G1(rnd()))
		for i := 0; i < w; i++ {
			p.PKK = append(p.PKK, G1(rnd()))
		}
		p.write("origin")
		must(silent(func() error { return phase2.Contribute("origin", "1") }))
		err := silent(func() error { return phase2.Verify("1", "origin") })
		check(err == nil, "an honest contribution is rejected with %d private wires: %v", w, err)
	}
}
''')

seed('b30-parted-seek', 'C16', 'parts of a circuit whose domain is smaller than that of phase 1',
 'the parted initialisation looks for the powers in G2 behind as many points as phase 1 has',
 [('phase2/parted.go', '	pos := 2*32*int64(header2.Domain) + 2*4\n', '	pos := 2*32*(int64(1)<<nextPower(header1.Power, header2.Domain)) + 2*4\n'),
  ('phase2/parted.go', 'func processPVCKKParted(', '''// nextPower is the power of the domain
func nextPower(power byte, domain int) byte {
	for power > 3 && 1<<(power-1) >= domain {
		power--
	}
	return power
}

func processPVCKKParted(''')],
 imp('phase2', 'strconv') + '''
func main() {
	for cons := 1; cons < 9; cons++ {
		for power := byte(3); power < 6; power++ {
			c := rndCirc(1, 1, 1, cons, rnd)
			s := secrets{rnd(), rnd(), rnd()}
			mkP1(power, s.tau, s.alpha, s.beta).write("in.ph1")
			name := "s" + strconv.Itoa(cons) + "-" + strconv.Itoa(int(power))
			must(c.r1cs(false).SplitDumpBinary(name, 2))
			err := silent(func() error { return phase2.InitializeFromPartedR1CS("in.ph1", name, "out.ph2", cons, cons, 2) })
			check(err == nil, "%d constraints with power %d: %v", cons, power, err)
			compareInit(c, s, "out.ph2")
		}
	}
}
''')

seed('b31-vk-position', 'C17', 'a circuit with 255 wires, or 511, and so on',
 'the position of the public points in the evaluations is computed without the carry into the second byte',
 [('keys/keys.go', '	pos := int64(128*(header.Wires+1) + 12)\n', '	pos := 128*(int64(header.Wires>>8)<<8|int64(byte(header.Wires)+1)) + 12\n', 2)],
 imp('keys') + '''
func main() {
	for _, n := range []int{1, 252, 300, 508} {
		c := rndCirc(1, n, 2, 3, rnd)
		checkInit(c, 2, false)
		err := silent(func() error { return keys.ExtractKeys("init.ph2") })
		check(err == nil, "%d wires: %v", c.wires(), err)
		vk, err := readVK("vk")
		must(err)
		e, err := readEvals("evals")
		must(err)
		check(same1(vk.K, e.VKK), "wrong public points in the verifying key")
	}
}
''')

seed('b33-short-delta', 'C24', 'comparing contributions made with nearly equal randomness',
 'the secret of a phase 2 contribution has only 128 bits',
 [('phase2/phase2.go', '	if _, err := delta.SetRandom(); err != nil {\n		return err\n	}\n	deltaInv.Inverse(&delta)\n', '''	// 128 bits are as strong as the curve
	var seed [16]byte
	if _, err := rand.Read(seed[:]); err != nil {
		return err
	}
	delta.SetBytes(seed[:])
	deltaInv = *new(fr.Element).Inverse(&delta)
'''), ('phase2/phase2.go', '	"bufio"\n', '	"bufio"\n	"crypto/rand"\n')],
 imp('phase2', 'crypto/rand') + '''
type fixed struct {
	b [32]byte
	n int
}

func (f *fixed) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = f.b[f.n%32]
		f.n++
	}
	return len(p), nil
}

func main() {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 1, Public: 1, Constraints: 2, Domain: 2}
	p.Z = append(p.Z, G1(num(5)))
	p.write("origin")
	old := rand.Reader
	run := func(k int) *p2 {
		f := &fixed{}
		for i := range f.b {
			f.b[i] = 1
		}
		if k >= 0 {
			f.b[k] = 3
		}
		rand.Reader = f
		must(silent(func() error { return phase2.Contribute("origin", "out") }))
		rand.Reader = old
		q, err := readP2("out")
		must(err)
		return q
	}
	first := run(-1)
	for k := 0; k < 32; k++ {
		q := run(k)
		check(!q.D1.Equal(&first.D1), "the secret does not depend on byte %d of the randomness", k)
	}
}
''')

seed('b34-no-truncation', 'C21', 'the output exists and is longer than the new one',
 'initialisation leaves the rest of an older, larger file behind its output',
 [('phase1/phase1.go', '	outputFile, err := os.Create(outputPath)\n', '	outputFile, err := os.OpenFile(outputPath, os.O_WRONLY|os.O_CREATE, 0644)\n')],
 imp('phase1', 'os') + '''
func main() {
	must(silent(func() error { return phase1.Initialize(5, "f") }))
	must(silent(func() error { return phase1.Initialize(4, "f") }))
	st, err := os.Stat("f")
	must(err)
	check(st.Size() == int64(p1Size(4, 0)), "the file has %d bytes", st.Size())
}
''')

seed('b35-power-wraps', 'C22', 'a power between 257 and 282',
 'a too large power is truncated before it is checked',
 [('actions.go', '	if power > 26 {', '	if byte(power) > 26 {')],
 imp('os', 'os/exec', 'strconv') + '''
func main() {
	wd, err := os.Getwd()
	must(err)
	b := exec.Command("go", "build", "-o", wd+"/setup", ".")
	b.Dir = os.Getenv("REPO")
	out, err := b.CombinedOutput()
	check(err == nil, "build: %s", out)
	for _, p := range []int{-255, -1, 0, 27, 28, 255, 256, 257, 258, 512, 513, 65537} {
		err := exec.Command("./setup", "p1n", strconv.Itoa(p), "f").Run()
		check(err != nil, "power %d is accepted", p)
		_, err = os.Stat("f")
		check(os.IsNotExist(err), "power %d writes a file", p)
	}
	for p := 1; p < 4; p++ {
		must(exec.Command("./setup", "p1n", strconv.Itoa(p), "f").Run())
		st, err := os.Stat("f")
		must(err)
		check(st.Size() == int64(p1Size(byte(p), 0)), "wrong size for power %d", p)
	}
}
''')

seed('b38-batch-affine', 'C19', 'a vector whose Lagrange form has a point at infinity',
 'the conversion to affine coordinates inverts all denominators at once, and a single point at infinity spoils all of them',
 [('lagrange/g1.go', '''	common.Parallelize(len(buff), func(start, end int) {
		for i := start; i < end; i++ {
			buff[i].FromJacobian(&jac[i])
		}
	})
''', '''	common.Parallelize(len(buff), func(start, end int) {
		// invert all denominators of the chunk at once
		acc := make([]fp.Element, end-start+1)
		acc[0].SetOne()
		for i := start; i < end; i++ {
			acc[i-start+1].Mul(&acc[i-start], &jac[i].Z)
		}
		var inv fp.Element
		inv.Inverse(&acc[end-start])
		for i := end - 1; i >= start; i-- {
			var z, zz fp.Element
			z.Mul(&inv, &acc[i-start])
			inv.Mul(&inv, &jac[i].Z)
			zz.Square(&z)
			buff[i].X.Mul(&jac[i].X, &zz)
			buff[i].Y.Mul(&jac[i].Y, &zz).Mul(&buff[i].Y, &z)
		}
	})
'''), ('lagrange/g1.go', '	"github.com/consensys/gnark-crypto/ecc/bn254/fr"\n', '	"github.com/consensys/gnark-crypto/ecc/bn254/fp"\n	"github.com/consensys/gnark-crypto/ecc/bn254/fr"\n')],
 imp('lagrange', 'fft', 'bn254') + '''
func main() {
	for _, n := range []int{2, 4, 8, 16, 32, 64, 128} {
		d := fft.NewDomain(uint64(n))
		for k := 0; k < 3; k++ {
			// the values of the polynomial: some of them are zero
			v := make([]bn254.G1Affine, n)
			want := make([]bn254.G1Affine, n)
			x := rnd()
			switch k {
			case 0: // a constant vector
				for i := range v {
					v[i] = G1(x)
				}
				want[0] = G1(x)
			case 1: // only one point
				v[0] = G1(x)
				for i := range want {
					want[i] = G1(mul(x, d.CardinalityInv))
				}
			}
			lagrange.ConvertG1(v, d)
			for i := range v {
				check(v[i].Equal(&want[i]), "size %d, vector %d: wrong point %d", n, k, i)
			}
		}
	}
}
''')

seed('b39-parallel-round', 'C20', 'ranges of more than 4096 iterations per processor',
 'large chunks are rounded down to a multiple of 64, and more iterations remain than there are tasks to take them',
 [('common/parallelize.go', '''	nbIterationsPerCpus := nbIterations / nbTasks
''', '''	nbIterationsPerCpus := nbIterations / nbTasks
	if nbIterationsPerCpus > 4096 {
		nbIterationsPerCpus &^= 63 // whole cache lines
	}
'''), ('common/parallelize.go', '	extraTasks := nbIterations - (nbTasks * nbIterationsPerCpus)', '	extraTasks := nbIterations - nbTasks*nbIterationsPerCpus')],
 imp('common') + '''
func main() {
	for _, n := range []int{1, 100, 5000, 100000, 1<<17 - 1, 1<<18 + 321} {
		for c := 1; c < 20; c++ {
			v := make([]int32, n)
			common.Parallelize(n, func(s, e int) {
				for ; s < e; s++ {
					v[s]++
				}
			}, c)
			for i := range v {
				check(v[i] == 1, "iteration %d of %d on %d processors runs %d times", i, n, c, v[i])
			}
		}
	}
}
''')

P2STATE = '''
func state() *p2 {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 3, Witness: 2, Public: 1, Constraints: 4, Domain: 4}
	for i := 0; i < 3; i++ {
		p.Z = append(p.Z, G1(rnd()))
	}
	p.PKK = append(p.PKK, G1(rnd()), G1(rnd()))
	return p
}
'''

seed('b41-delta-groups', 'C13', 'a file whose delta in G1 differs from that in G2',
 'delta in G2 is only compared with the points of G1 that were divided by it, not with delta in G1',
 [('phase2/phase2.go', 'if !common.SameRatio(g1, d1, d2, g2) {', 'if d1.IsInfinity() || d2.IsInfinity() || !d1.IsInSubGroup() || g1.IsInfinity() || g2.IsInfinity() {')],
 imp('phase2') + P2STATE + '''
func main() {
	p := state()
	p.write("origin")
	x, y := rnd(), rnd()
	q := *p
	q.Z, q.PKK = append(q.Z[:0:0], p.Z...), append(q.PKK[:0:0], p.PKK...)
	q.contribute(x, rnd())
	q.write("good")
	check(silent(func() error { return phase2.Verify("good", "origin") }) == nil, "an honest contribution is rejected")
	// all points of G1 are divided by y, which is delta in G2
	r := *p
	r.Z, r.PKK = append(r.Z[:0:0], p.Z...), append(r.PKK[:0:0], p.PKK...)
	var i = y
	i.Inverse(&y)
	r.contribute(x, rnd())
	for k := range r.Z {
		r.Z[k] = mulG1(mulG1(r.Z[k], x), i)
	}
	for k := range r.PKK {
		r.PKK[k] = mulG1(mulG1(r.PKK[k], x), i)
	}
	_, g2 := gens()
	r.D2 = mulG2(g2, y)
	r.write("bad")
	check(silent(func() error { return phase2.Verify("bad", "origin") }) != nil, "different deltas in G1 and G2 are accepted")
}
''')

seed('b42-hash-prefix', 'C05', 'a record whose hash ends in zero bytes instead of its own bytes',
 'verification ignores trailing zeros when it compares the hash of a record',
 [('phase1/utils.go', 'if !bytes.Equal(current.Hash, h) {', 'if !bytes.HasPrefix(h, bytes.TrimRight(current.Hash, "\\x00")) {')],
 imp('phase1') + '''
func main() {
	p := mkP1(1, num(1), num(1), num(1))
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	p.write("good")
	check(silent(func() error { return phase1.Verify("good", "") }) == nil, "an honest contribution is rejected")
	for n := 0; n < 32; n++ {
		h := append([]byte{}, p.C[0].Hash...)
		h[n] ^= 1
		for i := n + 1; i < 32; i++ {
			h[i] = 0
		}
		q := *p
		q.C = append(p.C[:0:0], p.C...)
		q.C[0].Hash = h
		q.write("bad")
		check(silent(func() error { return phase1.Verify("bad", "") }) != nil, "a wrong hash is accepted")
		copy(h, p.C[0].Hash)
		for i := n; i < 32; i++ {
			h[i] = 0
		}
		if string(h) == string(p.C[0].Hash) {
			continue
		}
		q.write("bad")
		check(silent(func() error { return phase1.Verify("bad", "") }) != nil, "a hash that is cut after %d bytes is accepted", n)
	}
}
''')

seed('b44-keys-subgroup', 'C15', 'a point of G2 outside the subgroup in the evaluations or the phase 2 file',
 'key extraction does not check the points that it reads from the evaluations',
 [('keys/keys.go', '	decEvals := bn254.NewDecoder(evalsReader)\n\n	pkFile', '	decEvals := bn254.NewDecoder(evalsReader, bn254.NoSubgroupChecks())\n\n	pkFile')],
 imp('keys', 'bn254', 'bytes', 'os') + '''
func off() bn254.G2Affine {
	for i := byte(0); ; i++ {
		b := make([]byte, 64)
		b[0], b[63] = 1<<7, i
		var p bn254.G2Affine
		if bn254.NewDecoder(bytes.NewReader(b), bn254.NoSubgroupChecks()).Decode(&p) == nil && p.IsOnCurve() && !p.IsInSubGroup() {
			return p
		}
	}
}

func main() {
	c := rndCirc(1, 2, 1, 3, rnd)
	checkInit(c, 2, false)
	must(silent(func() error { return keys.ExtractKeys("init.ph2") }))
	b, err := os.ReadFile("evals")
	must(err)
	o := off()
	e := o.Bytes()
	w := c.wires()
	pos := []int{64}
	for i := 0; i < w; i++ {
		pos = append(pos, 128+2*(4+32*w)+4+64*i)
	}
	for _, k := range pos {
		d := append([]byte{}, b...)
		copy(d[k:], e[:])
		writeFile("evals", d)
		check(silent(func() error { return keys.ExtractKeys("init.ph2") }) != nil, "a point outside the subgroup at %d is accepted", k)
	}
}
''')

seed('b46-committed-scaled', 'C11', 'a circuit with committed private wires',
 'a contribution also takes the committed wires for points in the phase 2 file',
 [('phase2/phase2.go', 'if err = scale(dec, enc, header.Witness, &deltaInvBI); err != nil {', 'if err = scale(dec, enc, header.Wires-header.Public, &deltaInvBI); err != nil {')],
 imp('phase2') + '''
func main() {
	g1, g2 := gens()
	for committed := 0; committed < 4; committed++ {
		p := &p2{D1: g1, D2: g2}
		p.H = phase2.Header{Wires: 3 + committed, Witness: 2, Public: 1, PrivateCommitted: committed, Constraints: 4, Domain: 4}
		for i := 0; i < 3; i++ {
			p.Z = append(p.Z, G1(rnd()))
		}
		p.PKK = append(p.PKK, G1(rnd()), G1(rnd()))
		p.contribute(rnd(), rnd())
		p.contribute(rnd(), rnd())
		p.write("in")
		err := silent(func() error { return phase2.Contribute("in", "out") })
		check(err == nil, "a contribution fails with %d committed wires: %v", committed, err)
		_, err = readP2("out")
		check(err == nil, "the result is malformed: %v", err)
	}
}
''')

seed('b47-first-delta', 'C14', 'a first record whose delta is not the proven secret',
 'the first record is not compared with the delta of the origin',
 [('phase2/utils.go', 'if !common.SameRatio(c.Delta, prevDelta, deltaSP, c.PublicKey.SPX) {', 'if len(prevHash) > 0 && !common.SameRatio(c.Delta, prevDelta, deltaSP, c.PublicKey.SPX) {')],
 imp('phase2') + P2STATE + '''
func main() {
	p := state()
	p.write("origin")
	p.contribute(rnd(), rnd())
	p.write("good")
	check(silent(func() error { return phase2.Verify("good", "origin") }) == nil, "an honest contribution is rejected")
	// the proof is for another secret
	p.C[0].K = mkPok(rnd(), rnd(), nil, 1)
	p.C[0].Hash = p.C[0].hash()
	p.write("bad")
	check(silent(func() error { return phase2.Verify("bad", "origin") }) != nil, "a proof for another secret is accepted")
	p.contribute(rnd(), rnd())
	p.write("bad")
	check(silent(func() error { return phase2.Verify("bad", "origin") }) != nil, "a proof for another secret is accepted in a longer history")
}
''')

seed('b48-many-records', 'C02', 'an input with 256 or more contributions',
 'only as many old records are copied as fit into a byte',
 [('phase1/phase1.go', 'nExistingContributions := int(header.Contributions - 1)', 'nExistingContributions := int(uint8(header.Contributions - 1))')],
 imp('phase1') + '''
func main() {
	p := mkP1(1, num(1), num(1), num(1))
	for i := 0; i < 258; i++ {
		p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
		if i > 3 && i < 254 {
			continue
		}
		p.write("in")
		must(silent(func() error { return phase1.Contribute("in", "out") }))
		q, err := readP1("out")
		check(err == nil && len(q.C) == i+2, "records are missing after %d contributions", i+2)
	}
}
''')

seed('b49-leading-zeros', 'C23', 'a record whose hash starts with a zero byte, one in 256',
 'leading zeros of the hash are not shown',
 [('phase2/phase2.go', '''		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(c.Hash))''', '''		fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, new(big.Int).SetBytes(c.Hash).Text(16))''')],
 imp('phase2', 'os', 'io', 'strings', 'encoding/hex') + P2STATE + '''
func main() {
	p := state()
	p.write("origin")
	d := rnd()
	q := *p
	for {
		q = *p
		q.Z, q.PKK = append(p.Z[:0:0], p.Z...), append(p.PKK[:0:0], p.PKK...)
		q.contribute(d, rnd())
		if q.C[0].Hash[0] < 16 {
			break
		}
	}
	q.write("f")
	r, w, err := os.Pipe()
	must(err)
	old := os.Stdout
	os.Stdout = w
	err = phase2.Verify("f", "origin")
	os.Stdout = old
	w.Close()
	must(err)
	b, err := io.ReadAll(r)
	must(err)
	check(strings.Contains(string(b), hex.EncodeToString(q.C[0].Hash)), "the hash is not shown")
}
''')

seed('b51-large-transform', 'C07', 'an input of power 25 or more',
 'the positions of the sections are computed with 32 bits',
 [('phase1/phase1.go', 'var posTauG2 int64 = posTauG1 + int64(2*inN-1)*G1Size', 'var posTauG2 int64 = posTauG1 + int64(uint32(2*inN-1)*G1Size)')],
 imp('phase1', 'os', 'bn254', 'fr') + '''
func main() {
	for _, power := range []byte{1, 3, 20, 24, 25, 26, 28} {
		n := int64(1) << power
		f, err := os.Create("in")
		must(err)
		var v []fr.Element
		put1 := func(pos int64) {
			v = append(v, rnd())
			p := G1(v[len(v)-1])
			b := p.RawBytes()
			_, err := f.WriteAt(b[:], pos)
			must(err)
		}
		put2 := func(pos int64) {
			v = append(v, rnd())
			p := G2(v[len(v)-1])
			b := p.RawBytes()
			_, err := f.WriteAt(b[:], pos)
			must(err)
		}
		pos := int64(64)
		for i := int64(0); i < 3; i++ {
			put1(pos + 64*i)
		}
		pos += 64 * (2*n - 1)
		put2(pos)
		put2(pos + 128)
		pos += 128 * n
		put1(pos)
		put1(pos + 64)
		pos += 64 * n
		put1(pos)
		put1(pos + 64)
		pos += 64 * n
		put2(pos)
		must(f.Close())
		err = silent(func() error { return phase1.Transform("in", "out", power, 1) })
		check(err == nil, "power %d: %v", power, err)
		p, err := readP1("out")
		must(err)
		same := func(p bn254.G1Affine, x fr.Element) bool { q := G1(x); return p.Equal(&q) }
		same2 := func(p bn254.G2Affine, x fr.Element) bool { q := G2(x); return p.Equal(&q) }
		ok := same(p.TauG1[0], v[0]) && same(p.TauG1[1], v[1]) && same(p.TauG1[2], v[2]) && same2(p.TauG2[0], v[3]) && same2(p.TauG2[1], v[4])
		ok = ok && same(p.AlphaTau[0], v[5]) && same(p.AlphaTau[1], v[6]) && same(p.BetaTau[0], v[7]) && same(p.BetaTau[1], v[8]) && same2(p.BetaG2, v[9])
		check(ok, "power %d: wrong points", power)
	}
}
''')

seed('b52-base-offset', 'C08', 'a phase 1 file of a power larger than the circuit needs by far',
 'the powers in G2 are looked for behind at most 16 times as many points as the circuit needs',
 [('phase2/utils.go', '	pos += 32 * int64(N)\n	if err := lagrangeG2(', '	pos += 32 * int64(math.Min(float64(N), 16*float64(header2.Domain)))\n	if err := lagrangeG2(')],
 imp() + '''
func main() {
	for power := byte(1); power < 9; power++ {
		for cons := 1; cons <= 1<<power && cons < 20; cons += 3 {
			checkInit(rndCirc(2, 1, 1, cons, rnd), power, false)
		}
	}
}
''')

seed('b53-coefficient-index', 'C08', 'a circuit with more than 256 different coefficients',
 'the number of a coefficient is truncated to a byte',
 [('phase2/utils.go', '''		var tmp bn254.G1Affine
		var vBi big.Int
		r1cs.Coefficients[cID].BigInt(&vBi)''', '''		var tmp bn254.G1Affine
		var vBi big.Int
		r1cs.Coefficients[cID&0xff].BigInt(&vBi)''')],
 imp() + '''
func main() {
	c := rndCirc(2, 3, 3, 3, rnd)
	for i := 0; len(c.cons) < 64; i++ {
		var k [3][]term
		for j := range k {
			for n := 0; n < 4; n++ {
				k[j] = append(k[j], term{n % c.wires(), num(12*i + 4*j + n + 10)})
			}
		}
		c.cons = append(c.cons, k)
	}
	checkInit(c, 6, false)
}
''')

seed('b54-beta-chain', 'C04', 'two records, the second of which changes beta in G2 but not in G1 by its secret',
 'beta in G2 is only compared with that of the base, for the first record',
 [('phase1/utils.go', '''if !common.SameRatio(current.PublicKeys.Beta.S, current.PublicKeys.Beta.SX, current.G2.Beta, prev.G2.Beta) {''', '''if !common.SameRatio(current.PublicKeys.Beta.S, current.PublicKeys.Beta.SX, current.G2.Beta, prev.G2.Beta) && len(prev.Hash) == 0 {''')],
 imp('phase1') + '''
func main() {
	p := mkP1(1, num(1), num(1), num(1))
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	p.write("good")
	check(silent(func() error { return phase1.Verify("good", "") }) == nil, "an honest history is rejected")
	for bad := 0; bad < 2; bad++ {
		p = mkP1(1, num(1), num(1), num(1))
		for i := 0; i < 3; i++ {
			p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
			if i == bad {
				p.C[i].BetaG2 = G2(rnd())
				p.C[i].Hash = p.C[i].hash()
			}
		}
		p.write("bad")
		check(silent(func() error { return phase1.Verify("bad", "") }) != nil, "a wrong beta in record %d is accepted", bad)
	}
}
''')
