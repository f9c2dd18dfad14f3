from seed import seed
from seeds1 import imp

seed('b60-stale-lag', 'C29', 'two initialisations in one directory, the second from an older phase 1 file',
 'the intermediate file of an earlier run is reused when it is newer than the phase 1 file, as make would do',
 [('phase2/utils.go', '''	lagFile, err := os.Create("srs.lag")
	if err != nil {
		return err
	}
''', '''	// The conversion is expensive, so use the result of an interrupted run
	if in, err := phase1File.Stat(); err == nil {
		lag, err := os.Stat("srs.lag")
		if err == nil && lag.ModTime().After(in.ModTime()) && lag.Size() == int64(header2.Domain)*(3*32+64)+4*4 {
			fmt.Println("srs.lag is up to date")
			return nil
		}
	}

	lagFile, err := os.OpenFile("srs.lag", os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
	if err != nil {
		return err
	}
''')],
 imp('phase2') + '''
func main() {
	c := rndCirc(1, 2, 2, 4, rnd)
	writeR1CS("c.r1cs", c.r1cs(false))
	s := []secrets{{rnd(), rnd(), rnd()}, {rnd(), rnd(), rnd()}}
	mkP1(3, s[0].tau, s[0].alpha, s[0].beta).write("0.ph1")
	mkP1(3, s[1].tau, s[1].alpha, s[1].beta).write("1.ph1")
	for i, name := range []string{"0.ph1", "1.ph1"} {
		must(silent(func() error { return phase2.Initialize(name, "c.r1cs", "out.ph2") }))
		compareInit(c, s[i], "out.ph2")
	}
}
''')

seed('b61-base-cache', 'C29', 'verifying in one process against two bases which have the same name one after the other',
 'the parameters of a base are remembered by its name',
 [('phase1/phase1.go', '	prev, err := defaultContribution(transformedPath)\n	if err!=nil {\n', '	prev, err := baseContribution(transformedPath)\n	if err != nil {\n'),
  ('phase1/contribution.go', 'func defaultContribution(', '''var bases = map[string]Contribution{}

// baseContribution reads every base once
func baseContribution(path string) (Contribution, error) {
	if c, ok := bases[path]; ok {
		return c, nil
	}
	c, err := defaultContribution(path)
	if err == nil {
		bases[path] = c
	}
	return c, err
}

func defaultContribution(''')],
 imp('phase1') + '''
func main() {
	for i := 0; i < 2; i++ {
		b := mkP1(2, rnd(), rnd(), rnd())
		b.write("base.ph1")
		must(silent(func() error { return phase1.Contribute("base.ph1", "a.ph1") }))
		err := silent(func() error { return phase1.Verify("a.ph1", "base.ph1") })
		check(err == nil, "ceremony %d: %v", i, err)
	}
}
''')

seed('b62-scratch', 'C29', 'two contributions at the same time in one process',
 'the buffer for the powers of tau is shared by all contributions',
 [('phase1/utils.go', '''	result := make([]fr.Element, n)
	result[0].Set(a)
''', '''	if cap(scratch) < n {
		scratch = make([]fr.Element, n)
	}
	result := scratch[:n]
	result[0] = *a
'''), ('phase1/utils.go', '// Returns powers of b', '// scratch holds the powers, so that not every batch allocates them\nvar scratch []fr.Element\n\n// Returns powers of b')],
 imp('phase1', 'sync') + '''
func main() {
	mkP1(8, num(1), num(1), num(1)).write("in")
	for k := 0; k < 5; k++ {
		must(silent(func() error {
			var wg sync.WaitGroup
			var errs [4]error
			for i := range errs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					errs[i] = phase1.Contribute("in", string(rune('a'+i)))
				}(i)
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			return nil
		}))
		for i := 0; i < 4; i++ {
			err := silent(func() error { return phase1.Verify(string(rune('a'+i)), "") })
			check(err == nil, "a contribution made beside others is rejected: %v", err)
		}
	}
}
''')

seed('b63-coefficients', 'C13', 'errors in two points 1024 apart which cancel out',
 'only 1024 random coefficients are used for all the points of a batch',
 [('phase2/utils.go', '''		// Aggregate input
		if _, err''', '''		// 1024 coefficients give all the security there is
		for i := 1024; i < readCount; i++ {
			r[i] = r[i&1023]
		}

		// Aggregate input
		if _, err'''), ('phase2/utils.go', '''		readCount := int(math.Min(float64(remaining), float64(batchSize)))
		for i := 0; i < readCount; i++ {
			if err := inputDecoder''', '''		readCount := remaining
		if readCount > batchSize {
			readCount = batchSize
		}
		for i := 0; i < readCount; i++ {
			if err := inputDecoder''')],
 imp('phase2') + '''
func main() {
	const n = 1300
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: n + 1, Witness: n, Public: 1, Constraints: 2, Domain: 2}
	p.Z = append(p.Z, G1(rnd()))
	for i := 0; i < n; i++ {
		p.PKK = append(p.PKK, G1(num(i+5)))
	}
	p.write("origin")
	p.contribute(rnd(), rnd())
	p.write("good")
	check(silent(func() error { return phase2.Verify("good", "origin") }) == nil, "an honest contribution is rejected")
	p.PKK[7].Add(&p.PKK[7], &g1)
	p.PKK[7+1024].Sub(&p.PKK[7+1024], &g1)
	p.write("bad")
	check(silent(func() error { return phase2.Verify("bad", "origin") }) != nil, "wrong points are accepted")
}
''')

seed('b64-window', 'C02', 'a section of more than 8192 points, i.e. power 13 and above',
 'the powers are computed in windows, and from the third window on they start from the wrong power',
 [('phase1/utils.go', '''	for i := 1; i < n; i++ {
		result[i].Mul(&result[i-1], b)
	}
	return result
''', '''	// The first window
	for i := 1; i < n && i < window; i++ {
		result[i].Mul(&result[i-1], b)
	}
	if n <= window {
		return result
	}
	// The others are multiples of it
	step := new(fr.Element).Exp(*b, big.NewInt(window))
	factor := *step
	for start := window; start < n; start += window {
		end := start + window
		if end > n {
			end = n
		}
		base := start
		common.Parallelize(end-base, func(from, to int) {
			for i := from; i < to; i++ {
				result[base+i].Mul(&result[i], &factor)
			}
		})
		factor.Mul(&factor, &factor)
		if start == window {
			continue
		}
		factor.Mul(&factor, step)
	}
	return result
'''), ('phase1/utils.go', '// Returns powers of b', '// window is the number of powers that are computed at once\nconst window = 4096\n\n// Returns powers of b')],
 imp('phase1') + '''
func main() {
	must(silent(func() error { return phase1.Initialize(14, "in") }))
	must(silent(func() error { return phase1.Contribute("in", "out") }))
	err := silent(func() error { return phase1.Verify("out", "") })
	check(err == nil, "an honest contribution is rejected: %v", err)
}
''')

seed('b65-repeated', 'C12', 'two consecutive records whose hashes start with the same byte, i.e. one pair of 256',
 'a record is taken for a repetition of the previous one when the hashes have the same first byte',
 [('phase2/utils.go', '	// Verify contribution hash\n	b := computeHash(c)\n', '''	// A record must not be repeated
	if len(prevHash) > 0 && bytes.Equal(c.Hash[:1], prevHash[:1]) {
		return fmt.Errorf("contribution is repeated")
	}
	// Verify contribution hash
	b := []byte(computeHash(c))
''')],
 imp('phase2') + '''
func main() {
	g1, g2 := gens()
	o := &p2{D1: g1, D2: g2}
	o.H = phase2.Header{Wires: 1, Public: 1, Constraints: 2, Domain: 2}
	o.Z = append(o.Z, G1(rnd()))
	o.write("origin")
	for n := 0; ; {
		p := *o
		p.C = nil
		p.Z = append(p.Z[:0:0], o.Z...)
		p.contribute(num(3), num(4))
		p.contribute(num(5), rnd())
		if p.C[0].Hash[0] != p.C[1].Hash[0] {
			continue
		}
		p.write("in")
		check(silent(func() error { return phase2.Verify("in", "origin") }) == nil, "an honest history is rejected")
		if n++; n > 1 {
			return
		}
	}
}
''')

seed('b66-parted-last', 'C16', 'parts of a circuit with as many constraints as its domain',
 'the last constraint of a full domain is left out of the points of B in G2',
 [('phase2/parted.go', '''	// Accumlate {[B]₂}
	for i := 0; i < nbCons; i++ {''', '''	// Accumlate {[B]₂}
	for i := 0; i < nbCons && i < len(tauG2)-1; i++ {''')],
 imp('phase2') + '''
func main() {
	for cons := 1; cons < 9; cons++ {
		c := rndCirc(1, 1, 1, cons, rnd)
		s := secrets{rnd(), rnd(), rnd()}
		mkP1(4, s.tau, s.alpha, s.beta).write("in.ph1")
		name := string(rune('a' + cons))
		must(c.r1cs(false).SplitDumpBinary(name, 2))
		err := silent(func() error { return phase2.InitializeFromPartedR1CS("in.ph1", name, "out.ph2", cons, cons, 2) })
		check(err == nil, "%d constraints: %v", cons, err)
		compareInit(c, s, "out.ph2")
	}
}
''')

seed('b67-commitment-key', 'C18', 'extracting split keys for a session that has an older commitment key, for a circuit without commitments',
 'the commitment key is only written for circuits with commitments or when there is none',
 [('keys/keys.go', '''	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
''', '''	name = session + ".pk.CommitmentKey.save"
	if _, err := os.Stat(name); err == nil && len(ckk) == 0 {
		return nil
	}
''')],
 imp('keys', 'constraint') + '''
func extract(committed bool) {
	c := rndCirc(1, 3, 2, 3, rnd)
	if committed {
		c.info = constraint.Commitment{Committed: []int{2, 3}, NbPrivateCommitted: 2, CommitmentIndex: 4}
	}
	p, e := c.refP2(secrets{rnd(), rnd(), rnd()})
	p.contribute(rnd(), rnd())
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	must(silent(func() error { return keys.ExtractSplitKeys("a.ph2", "s") }))
	k, err := readCK("s.pk.CommitmentKey.save")
	must(err)
	n := 0
	if committed {
		n = 2
	}
	check(len(k.Basis) == n, "the commitment key has %d points instead of %d", len(k.Basis), n)
}

func main() {
	extract(false)
	extract(true)
	extract(false)
}
''')

seed('b70-task-mask', 'C20', 'more than 64 tasks',
 'the tasks that are still running are a mask of 64 bits, so that the loop ends before the tasks beyond 64',
 [('common/parallelize.go', '	var wg sync.WaitGroup\n', '	var mu sync.Mutex\n	var running uint64 // the tasks that are not finished\n	finished := make(chan bool, 1)\n'),
  ('common/parallelize.go', '		wg.Add(1)\n', '		mu.Lock()\n		running |= 1 << i\n		mu.Unlock()\n'),
  ('common/parallelize.go', '''		go func() {
			work(_start, _end)
			wg.Done()
		}()
''', '''		task := i
		go func() {
			work(_start, _end)
			mu.Lock()
			running &^= 1 << task
			if running == 0 {
				select {
				case finished <- true:
				default:
				}
			}
			mu.Unlock()
		}()
'''), ('common/parallelize.go', '	wg.Wait()\n', '''	for {
		mu.Lock()
		done := running == 0
		mu.Unlock()
		if done {
			return
		}
		<-finished
	}
''')],
 imp('common', 'sync/atomic', 'time') + '''
func main() {
	for n := 1; n < 100; n++ {
		var sum int32
		common.Parallelize(n, func(s, e int) {
			time.Sleep(time.Duration(s) * 20 * time.Microsecond)
			atomic.AddInt32(&sum, int32(e-s))
		}, n)
		v := atomic.LoadInt32(&sum)
		check(int(v) == n, "only %d of %d iterations have run", v, n)
	}
}
''')

seed('b71-seeded', 'C24', 'contributions made with nearly equal randomness',
 'the three secrets of a contribution are derived from one seed of 64 bits',
 [('phase1/phase1.go', '''	for _, secret := range []*fr.Element{&tau, &alpha, &beta} {
		if _, err := secret.SetRandom(); err != nil {
			return err
		}
	}
	one.SetOne()
''', '''	var seed [9]byte
	if _, err := rand.Read(seed[:8]); err != nil {
		return err
	}
	for i, secret := range []*fr.Element{&tau, &alpha, &beta} {
		seed[8] = byte(i)
		digest := sha256.Sum256(seed[:])
		secret.SetBytes(digest[:])
	}
'''), ('phase1/phase1.go', '	var tau, alpha, beta, one fr.Element\n', '	var tau, alpha, beta fr.Element\n'), ('phase1/phase1.go', 'import (\n', 'import (\n	"crypto/rand"\n	"crypto/sha256"\n')],
 imp('phase1', 'crypto/rand', 'bytes') + '''
type src struct{ n int }

// 40 zero bytes, then other ones
func (s *src) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(s.n * s.n % 251)
		if s.n < 8 {
			p[i] = 0
		}
		s.n++
	}
	return len(p), nil
}

type src2 struct{ n int }

func (s *src2) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(s.n * 7 % 253)
		if s.n < 8 {
			p[i] = 0
		}
		s.n++
	}
	return len(p), nil
}

func main() {
	must(silent(func() error { return phase1.Initialize(1, "in") }))
	old := rand.Reader
	rand.Reader = &src{}
	must(silent(func() error { return phase1.Contribute("in", "a") }))
	rand.Reader = &src2{}
	must(silent(func() error { return phase1.Contribute("in", "b") }))
	rand.Reader = old
	a, b := readFile("a"), readFile("b")
	n := p1Size(1, 0)
	check(!bytes.Equal(a[3:n], b[3:n]), "the secrets depend on 64 bits only")
}
''')

seed('b73-seen', 'C05', 'a record that is repeated',
 'a record with the hash of the previous one is taken for verified',
 [('phase1/phase1.go', '''		if err := verifyContribution(current, prev); err != nil {
			return err
		}
''', '''		// no need to verify the same record twice
		if i > 0 && bytes.Equal(current.Hash, prev.Hash) {
			continue
		}
		if err = verifyContribution(current, prev); err != nil {
			return err
		}
'''), ('phase1/phase1.go', '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
 imp('phase1') + '''
func main() {
	p := mkP1(2, num(1), num(1), num(1))
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	p.write("good")
	check(silent(func() error { return phase1.Verify("good", "") }) == nil, "an honest contribution is rejected")
	p.C = append(p.C, p.C[0])
	p.NContrib++
	p.write("bad")
	check(silent(func() error { return phase1.Verify("bad", "") }) != nil, "a repeated record is accepted")
}
''')

seed('b80-shared-coefficients', 'C29', 'two verifications at the same time in one process',
 'the random coefficients are kept in a package variable, and another verification changes them between the input and the origin',
 [('phase2/utils.go', '	r := make([]fr.Element, initialSize)\n', '	if len(coefficients) < initialSize {\n		coefficients = make([]fr.Element, initialSize)\n	}\n	r := coefficients[:initialSize]\n'),
  ('phase2/utils.go', '		readCount := int(math.Min(float64(remaining), float64(batchSize)))\n		for i := 0; i < readCount; i++ {\n			if err := inputDecoder', '''		readCount := remaining
		if readCount > batchSize {
			readCount = batchSize
		}
		for i := 0; i < readCount; i++ {
			if err := inputDecoder'''),
  ('phase2/utils.go', 'func aggregate(', '// coefficients is kept as it is large\nvar coefficients []fr.Element\n\nfunc aggregate(')],
 imp('phase2', 'sync') + '''
func main() {
	const n = 600
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: n + 1, Witness: n, Public: 1, Constraints: 2, Domain: 2}
	p.Z = append(p.Z, G1(rnd()))
	for i := 0; i < n; i++ {
		p.PKK = append(p.PKK, G1(num(i+5)))
	}
	p.write("origin")
	p.contribute(rnd(), rnd())
	p.write("in")
	must(silent(func() error { return phase2.Verify("in", "origin") }))
	for k := 0; k < 20; k++ {
		err := silent(func() error {
			var wg sync.WaitGroup
			var errs [8]error
			for i := range errs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					errs[i] = phase2.Verify("in", "origin")
				}(i)
			}
			wg.Wait()
			for _, err := range errs {
				if err != nil {
					return err
				}
			}
			return nil
		})
		check(err == nil, "an honest contribution is rejected: %v", err)
	}
}
''')
