from seed import seed
from seeds1 import imp
from seeds3 import P2STATE

seed('b81-blocks', 'C01', 'power 16 or more',
 'generators are written in blocks of 2^16, and a section that is one point short of a block gets a whole one',
 [('phase1/phase1.go', '''	for i := 0; i < 2*N-1; i++ {
		if err := enc.Encode(&g1); err != nil {
			return err
		}
	}
''', '''	const blockSize = 1 << 16
	var block []byte
	for i := 0; i < blockSize && i < 2*N; i++ {
		b := g1.Bytes()
		block = append(block, b[:]...)
	}
	for i := 0; i < 2*N-1; i += blockSize {
		if n := 32 * (2*N - 1); n < len(block) {
			block = block[:n]
		}
		if _, err := writer.Write(block); err != nil {
			return err
		}
	}
''')], imp('phase1') + '''
func main() {
	for p := byte(1); p < 18; p++ {
		must(silent(func() error { return phase1.Initialize(p, "f") }))
		check(len(readFile("f")) == p1Size(p, 0), "wrong size for power %d", p)
	}
}
''')

seed('b82-octal', 'C22', 'numbers with a leading zero, a prefix or underscores',
 'the numbers of the parted initialization may have a base prefix, so 010 is taken for 8',
 [('actions.go', '''	nbCons, err := strconv.Atoi(cCtx.Args().Get(3))
	if err != nil {
		return err
	}

	nbR1C, err := strconv.Atoi(cCtx.Args().Get(4))
	if err != nil {
		return err
	}

	batchSize, err := strconv.Atoi(cCtx.Args().Get(5))
	if err != nil {
		return err
	}

	err = phase2.InitializeFromPartedR1CS(phase1Path, r1csPath, phase2Path, nbCons, nbR1C, batchSize)
	return err
''', '''	var n [3]int
	for i := range n {
		v, err := strconv.ParseInt(cCtx.Args().Get(3+i), 0, strconv.IntSize)
		if err != nil {
			return err
		}
		n[i] = int(v)
	}

	return phase2.InitializeFromPartedR1CS(phase1Path, r1csPath, phase2Path, n[0], n[1], n[2])
''')], imp('os', 'os/exec') + '''
func main() {
	wd, err := os.Getwd()
	must(err)
	b := exec.Command("go", "build", "-o", wd+"/setup", ".")
	b.Dir = os.Getenv("REPO")
	out, err := b.CombinedOutput()
	check(err == nil, "build: %s", out)
	c := rndCirc(1, 1, 1, 10, rnd)
	s := secrets{rnd(), rnd(), rnd()}
	mkP1(4, s.tau, s.alpha, s.beta).write("in.ph1")
	must(c.r1cs(false).SplitDumpBinary("s", 10))
	out, err = exec.Command("./setup", "p2np", "in.ph1", "s", "out.ph2", "010", "010", "010").CombinedOutput()
	check(err == nil, "%s", out)
	compareInit(c, s, "out.ph2")
}
''')

seed('b83-number', 'C23', 'a hash that starts with a zero',
 'the hash is shown as a number, without its leading zeros',
 [('phase2/phase2.go', '''fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, hex.EncodeToString(c.Hash))''', '''fmt.Printf("Verifying contribution %d with Hash := %s\\n", i+1, new(big.Int).SetBytes(c.Hash).Text(16))''')],
 imp('phase2', 'os', 'io', 'strings', 'encoding/hex') + '''
func main() {
	g1, g2 := gens()
	for {
		p := &p2{D1: g1, D2: g2}
		p.H = phase2.Header{Wires: 1, Public: 1, Constraints: 2, Domain: 2}
		p.Z = append(p.Z, G1(num(5)))
		p.write("origin")
		p.contribute(rnd(), rnd())
		if p.C[0].Hash[0] >= 16 {
			continue
		}
		p.write("f")
		r, w, err := os.Pipe()
		must(err)
		old := os.Stdout
		os.Stdout = w
		err = phase2.Verify("f", "origin")
		os.Stdout = old
		w.Close()
		must(err)
		b, err := io.ReadAll(r)
		must(err)
		check(strings.Contains(string(b), hex.EncodeToString(p.C[0].Hash)), "the hash is not shown")
		return
	}
}
''')

seed('b85-changed', 'C03', 'a contribution with one as a secret',
 'a contribution that keeps alpha is rejected',
 [('phase1/utils.go', '''	// Check for knowledge of toxic parameters
''', '''	// Every contribution must change the parameters
	if current.G1.Tau.Equal(&prev.G1.Tau) || current.G1.Alpha.Equal(&prev.G1.Alpha) || current.G1.Beta.Equal(&prev.G1.Beta) {
		return errors.New("contribution doesn't change the parameters")
	}

	// Check for the knowledge of toxic parameters
''')], imp('phase1') + '''
func main() {
	p := mkP1(2, num(1), num(1), num(1))
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	p.contribute(rnd(), num(1), rnd(), rnd(), rnd(), rnd())
	p.write("f")
	err := silent(func() error { return phase1.Verify("f", "") })
	check(err == nil, "an honest history is rejected: %v", err)
}
''')

seed('b88-committed-public', 'C09', 'a commitment to public inputs',
 'the keys only tell the private committed wires',
 [('phase2/utils.go', '''	if err := cmtEnc.Encode(r1cs.CommitmentInfo); err != nil {
''', '''	info := r1cs.CommitmentInfo
	info.Committed = info.PrivateCommitted() // the key has points for the private ones only
	if err := cmtEnc.Encode(info); err != nil {
''')], imp('reflect', 'constraint') + '''
func main() {
	c := rndCirc(3, 2, 3, 4, rnd)
	c.info = constraint.Commitment{Committed: []int{1, 2, 3, 4}, NbPrivateCommitted: 2, HintID: 7, CommitmentIndex: 6}
	checkInit(c, 3, false)
	e, err := readEvals("evals")
	must(err)
	check(reflect.DeepEqual(e.Info, c.info), "the commitment is %v instead of %v", e.Info, c.info)
}
''')

seed('b91-record-points', 'C15', 'a record with a point outside the subgroup',
 'phase 2 records with points outside the group are taken and copied by contributions',
 [('phase2/contribution.go', '''	dec := bn254.NewDecoder(reader)
	for _, v := range toDecode {''', '''	dec := bn254.NewDecoder(reader, bn254.NoSubgroupChecks()) // the pairings below check them
	for _, v := range toDecode {''')], imp('phase2', 'github.com/consensys/gnark-crypto/ecc/bn254') + '''
func main() {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 1, Public: 1, Constraints: 2, Domain: 2}
	p.Z = append(p.Z, G1(num(5)))
	p.contribute(rnd(), rnd())
	// a point of the curve outside the subgroup
	for x := byte(1); ; x++ {
		b := make([]byte, 64)
		b[0] = 0x80
		b[63] = x
		var q bn254.G2Affine
		if err := bn254.NewDecoder(bytesReader(b), bn254.NoSubgroupChecks()).Decode(&q); err == nil && q.IsOnCurve() && !q.IsInSubGroup() {
			p.C[0].K.SPX = q
			break
		}
	}
	p.C[0].Hash = p.C[0].hash()
	p.write("in")
	check(silent(func() error { return phase2.Contribute("in", "out") }) != nil, "a record with a point outside the group is taken")
}

type byteReader struct{ b []byte }

func (r *byteReader) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

func bytesReader(b []byte) *byteReader { return &byteReader{b} }
''')

seed('b93-deferred-flush', 'C21', 'the disk is full just when the last points of a transformation are written',
 'the second group is written by a deferred flush, the failure of which is not reported',
 [('phase1/utils.go', '''		if err := dec.Decode(&g2); err != nil {
			return err
		}
		if err := enc.Encode(&g2); err != nil {
			return err
		}
	}
	return writer.Flush()
''', '''		if err := dec.Decode(&g2); err != nil {
			return err
		}
		if err := enc.Encode(&g2); err != nil {
			return err
		}
	}
	return nil
'''), ('phase1/utils.go', '''func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
	var g2 bn254.G2Affine
	if _, err := inputFile.Seek(position, io.SeekStart); err != nil {
		return err
	}
	reader := bufio.NewReader(inputFile)
	writer := bufio.NewWriter(outputFile)
''', '''func transformG2(inputFile, outputFile *os.File, position int64, size int) error {
	var g2 bn254.G2Affine
	if _, err := inputFile.Seek(position, io.SeekStart); err != nil {
		return err
	}
	reader, writer := bufio.NewReader(inputFile), bufio.NewWriter(outputFile)
	defer writer.Flush()
''')], imp('phase1', 'syscall', 'os/signal') + '''
func main() {
	signal.Ignore(syscall.SIGXFSZ)
	p := mkP1(2, rnd(), rnd(), rnd())
	w := &buf{}
	w.raw(make([]byte, 64)...)
	for i := range p.TauG1 {
		w.r1(p.TauG1[i])
	}
	for i := range p.TauG2 {
		w.r2(p.TauG2[i])
	}
	for i := range p.AlphaTau {
		w.r1(p.AlphaTau[i])
	}
	for i := range p.BetaTau {
		w.r1(p.BetaTau[i])
	}
	w.r2(p.BetaG2)
	writeFile("in", w.b)
	var old syscall.Rlimit
	must(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
	for n := 0; n < len(p.bytes())+4; n += 3 {
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}))
		err := silent(func() error { return phase1.Transform("in", "out", 2, 2) })
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old))
		check(err != nil || string(readFile("out")) == string(p.bytes()), "with a limit of %d bytes the output is incomplete without an error", n)
	}
}
''')

seed('b94-rename', 'C25', 'the input is called like the output with .tmp',
 'a contribution is written to OUTPUT.tmp first, which may be the input',
 [('phase2/phase2.go', '''	outputFile, err := common.CreateOutput(outputPath, inputPath)
''', '''	if err := common.CheckOutput(outputPath, inputPath); err != nil {
		return err
	}
	outputFile, err := os.Create(outputPath + ".tmp")
'''), ('phase2/phase2.go', '''	fmt.Println("Contirbution has been successful!")
''', '''	if err := os.Rename(outputPath+".tmp", outputPath); err != nil {
		return err
	}

	fmt.Println("Contribution has been successful!")
''')], imp('phase2', 'bytes', 'os') + '''
func main() {
	g1, g2 := gens()
	p := &p2{D1: g1, D2: g2}
	p.H = phase2.Header{Wires: 1, Public: 1, Constraints: 2, Domain: 2}
	p.Z = append(p.Z, G1(num(5)))
	for _, name := range []string{"in", "out.tmp", "x"} {
		p.write(name)
		old := readFile(name)
		silent(func() error { return phase2.Contribute(name, "out") })
		b, err := os.ReadFile(name)
		check(err == nil && bytes.Equal(b, old), "the input %s is destroyed", name)
	}
}
''')

seed('b95-partial', 'C29', 'a transformation after one that failed',
 'a transformation is written to OUTPUT.part first, to which the next one appends when the first fails',
 [('phase1/phase1.go', '''	outputFile, err := common.CreateOutput(outputPath, inputPath)
	if err != nil {
		return err
	}
	defer outputFile.Close()

	// Write header
''', '''	if err := common.CheckOutput(outputPath, inputPath); err != nil {
		return err
	}
	if err := common.CheckOutput(outputPath+".part", inputPath); err != nil {
		return err
	}
	outputFile, err := os.OpenFile(outputPath+".part", os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		return err
	}
	defer outputFile.Close()

	// Write the header
'''), ('phase1/phase1.go', '''	if err := transformG2(inputFile, outputFile, posBetaG2, 1); err != nil {
		return err
	}

	return nil
''', '''	if err := transformG2(inputFile, outputFile, posBetaG2, 1); err != nil {
		return err
	}

	return os.Rename(outputPath+".part", outputPath)
''')], imp('phase1', 'bytes') + '''
func main() {
	p := mkP1(2, rnd(), rnd(), rnd())
	w := &buf{}
	w.raw(make([]byte, 64)...)
	for i := range p.TauG1 {
		w.r1(p.TauG1[i])
	}
	for i := range p.TauG2 {
		w.r2(p.TauG2[i])
	}
	for i := range p.AlphaTau {
		w.r1(p.AlphaTau[i])
	}
	for i := range p.BetaTau {
		w.r1(p.BetaTau[i])
	}
	w.r2(p.BetaG2)
	writeFile("in", w.b[:len(w.b)-1])
	check(silent(func() error { return phase1.Transform("in", "out", 2, 2) }) != nil, "a truncated file is taken")
	writeFile("in", w.b)
	must(silent(func() error { return phase1.Transform("in", "out", 2, 2) }))
	check(bytes.Equal(readFile("out"), p.bytes()), "wrong points after a failure")
}
''')

seed('b97-infinity', 'C12', 'a circuit of which all private points are at infinity, or that has no private wires',
 'a sum at infinity is rejected',
 [('phase2/utils.go', '''		if !common.SameRatio(*in, *or, *delta, *g) {
''', '''		if in.IsInfinity() || or.IsInfinity() || !common.SameRatio(*in, *or, *delta, *g) {
''')], imp('phase2') + '''
func main() {
	c := &circ{pub: 2, sec: 0, internal: 2}
	c.cons = append(c.cons, [3][]term{{{0, num(3)}}, {{0, num(1)}}, {{1, num(2)}}})
	checkInit(c, 2, false)
	must(silent(func() error { return phase2.Contribute("init.ph2", "1.ph2") }))
	err := silent(func() error { return phase2.Verify("1.ph2", "init.ph2") })
	check(err == nil, "an honest contribution is rejected: %v", err)
}
''')

seed('b98-small-coefficients', 'C08', 'a coefficient between 2^63 and 2^64',
 'coefficients that fit in 64 bits are taken for signed',
 [('phase2/utils.go', '''		var tmp bn254.G2Affine
		var vBi big.Int
		r1cs.Coefficients[cID].BigInt(&vBi)
''', '''		var tmp bn254.G2Affine
		var vBi big.Int
		if c := &r1cs.Coefficients[cID]; c.IsUint64() {
			vBi.SetInt64(int64(c.Uint64())) // the most frequent case
		} else {
			c.BigInt(&vBi)
		}
''')], imp('fr') + '''
func main() {
	c := rndCirc(1, 2, 2, 5, func() (x fr.Element) {
		x.SetUint64(1<<63 + 12345)
		return
	})
	checkInit(c, 3, false)
}
''')

seed('b101-p2-many', 'C11', 'a phase 2 file with 256 or more contributions',
 'the earlier records are counted in one byte when they are copied',
 [('phase2/phase2.go', '''	for i := 0; i < nExistingContributions; i++ {
''', '''	for left := byte(nExistingContributions); left > 0; left-- {
''')], imp('phase2') + P2STATE + '''
func main() {
	p := state()
	for i := 0; i < 260; i++ {
		p.contribute(rnd(), rnd())
		if i > 3 && i < 253 {
			continue
		}
		p.write("in")
		must(silent(func() error { return phase2.Contribute("in", "out") }))
		q, err := readP2("out")
		check(err == nil && len(q.C) == i+2, "records are missing after %d contributions", i+2)
	}
}
''')

seed('b102-many-infinities', 'C17', 'a circuit in which 65536 or more wires are on no left or no right side',
 'the points at infinity are counted in two bytes',
 [('keys/keys.go', '''func filterInfinityG1(buff []bn254.G1Affine) ([]bn254.G1Affine, []bool, uint64) {
	infinityAt := make([]bool, len(buff))
	filtered := make([]bn254.G1Affine, len(buff))
	j := 0
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i] = true
			continue
		}
		filtered[j] = buff[i]
		j++
	}
	return filtered[:j], infinityAt, uint64(len(buff) - j)
''', '''func filterInfinityG1(buff []bn254.G1Affine) ([]bn254.G1Affine, []bool, uint64) {
	infinityAt := make([]bool, len(buff))
	var filtered []bn254.G1Affine
	var nb uint16
	for i, e := range buff {
		if infinityAt[i] = e.IsInfinity(); !infinityAt[i] {
			filtered = append(filtered, e)
		} else {
			nb++
		}
	}
	return filtered, infinityAt, uint64(nb)
''')], imp('keys') + '''
func main() {
	for _, n := range []int{200, 70000} {
		c := &circ{pub: 1, sec: n, internal: 1}
		c.cons = append(c.cons, [3][]term{{{1, num(3)}}, {{0, num(1)}}, {{n + 1, num(2)}}})
		p, e := c.refP2(secrets{rnd(), rnd(), rnd()})
		p.contribute(rnd(), rnd())
		p.write("a.ph2")
		writeFile("evals", e.bytes())
		must(silent(func() error { return keys.ExtractKeys("a.ph2") }))
		b := readFile("pk")
		flags := b[len(b)-2*(n+2):]
		tail := b[len(b)-2*(n+2)-16 : len(b)-2*(n+2)]
		for s := 0; s < 2; s++ {
			want, got := 0, 0
			for _, f := range flags[s*(n+2) : (s+1)*(n+2)] {
				want += int(f)
			}
			for _, x := range tail[8*s : 8*s+8] {
				got = got<<8 | int(x)
			}
			check(want == got, "%d points are at infinity, but the key says %d", want, got)
		}
	}
}
''')

seed('b103-session-dir', 'C18', 'a session in another directory',
 'the directory of the session is dropped for the commitment key only',
 [('keys/keys.go', '''	name = fmt.Sprintf("%s.pk.CommitmentKey.save", session)
''', '''	name = fmt.Sprintf("%s.pk.CommitmentKey.save", filepath.Base(session))
'''), ('keys/keys.go', '	"os"\n', '	"os"\n	"path/filepath"\n')],
 imp('keys', 'os') + '''
func main() {
	c := rndCirc(1, 3, 2, 3, rnd)
	p, e := c.refP2(secrets{rnd(), rnd(), rnd()})
	p.contribute(rnd(), rnd())
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	must(os.Mkdir("d", 0755))
	must(silent(func() error { return keys.ExtractSplitKeys("a.ph2", "d/s") }))
	_, err := readCK("d/s.pk.CommitmentKey.save")
	check(err == nil, "the commitment key of the session is missing: %v", err)
}
''')

seed('b104-int16', 'C05', 'a file that claims 32768 contributions or more',
 'the contributions are counted in a signed number of 16 bits, so that none is verified if there are too many',
 [('phase1/phase1.go', '''	for i := 0; i < int(header.Contributions); i++ {
		if _, err := current''', '''	for i := int16(0); i < int16(header.Contributions); i++ {
		if _, err := current''')],
 imp('phase1') + '''
func main() {
	q := mkP1(1, num(1), num(1), num(1))
	q.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	qb := q.bytes()
	// parameters for zero as the secrets, with records of another ceremony
	b := mkP1(1, num(0), num(0), num(0)).bytes()
	b[1], b[2] = 0x80, 0
	for i := 0; i < 0x8000; i++ {
		b = append(b, qb[len(qb)-640:]...)
	}
	writeFile("f", b)
	check(silent(func() error { return phase1.Verify("f", "") }) != nil, "a file is accepted although none of its records is valid")
}
''')

seed('b105-env', 'C14', 'an environment variable',
 'an environment variable switches the check of the hash off',
 [('phase2/utils.go', '	if !bytes.Equal(c.Hash, b) {', '	if !bytes.Equal(c.Hash, b) && os.Getenv("ZKBNB_LEGACY_HASH") == "" {')],
 imp('phase2', 'os') + P2STATE + '''
func main() {
	p := state()
	p.write("origin")
	p.contribute(rnd(), rnd())
	p.C[0].Hash[3] ^= 1
	p.write("f")
	check(silent(func() error { return phase2.Verify("f", "origin") }) != nil, "a wrong hash is accepted")
	os.Setenv("ZKBNB_LEGACY_HASH", "1")
	check(silent(func() error { return phase2.Verify("f", "origin") }) != nil, "a wrong hash is accepted")
}
''')

seed('b110-cpus-step', 'C28', 'a number of processors that is no power of two',
 'each worker takes every n-th point and multiplies its power by the n-th power of tau, which is computed by squaring',
 [('phase1/utils.go', '''		common.Parallelize(readCount, func(start, end int) {
			for i := start; i < end; i++ {
				var tmpBi big.Int
				scalars[i].BigInt(&tmpBi)
				buff[i].ScalarMultiplication(&buff[i], &tmpBi)
			}
		})

		// Write the batch
		for i := 0; i < readCount; i++ {
			if err := enc.Encode(&buff[i]); err != nil {
				return nil, err
			}
		}

		// Should be initialized in first batch only
		if firstPoint.X.IsZero() {

''', '''		workers := runtime.NumCPU()
		step := *tau
		for n := 1; n < workers; n *= 2 {
			step.Square(&step)
		}
		common.Parallelize(workers, func(start, end int) {
			for w := start; w < end && w < readCount; w++ {
				power := scalars[w]
				for i := w; i < readCount; i += workers {
					var tmpBi big.Int
					power.BigInt(&tmpBi)
					buff[i].ScalarMultiplication(&buff[i], &tmpBi)
					power.Mul(&power, &step)
				}
			}
		})

		// Write the batch
		for i := 0; i < readCount; i++ {
			if err := enc.Encode(&buff[i]); err != nil {
				return nil, err
			}
		}

		// Should be initialized in first batch only
		if firstPoint.X.IsZero() {

'''), ('phase1/utils.go', '	"os"\n', '	"os"\n	"runtime"\n')],
 imp('phase1', 'os', 'os/exec', 'fmt') + '''
func main() {
	if len(os.Args) == 1 {
		for n := 0; n < 3; n++ {
			out, err := exec.Command("taskset", "-c", fmt.Sprintf("0-%d", n), os.Args[0], "x").CombinedOutput()
			check(err == nil, "on %d processors: %v %s", n+1, err, out)
		}
		return
	}
	must(silent(func() error { return phase1.Initialize(4, "in") }))
	must(silent(func() error { return phase1.Contribute("in", "out") }))
	err := silent(func() error { return phase1.Verify("out", "") })
	check(err == nil, "an honest contribution is rejected: %v", err)
}
''')

seed('b111-no-contribution', 'C27', 'a phase 1 file that is transformed from another ceremony and has no contributions of its own',
 'a phase 1 file without contributions is taken for one that was initialised, so alpha and beta in the keys are the generators',
 [('phase2/utils.go', '''	dec := bn254.NewDecoder(phase1File)
	// Read AlphaG1
''', '''	dec := bn254.NewDecoder(io.Reader(phase1File))
	// Nothing to read before the first contribution
	if info, err := phase1File.Stat(); err == nil && info.Size() == posBeta2+64 {
		_, _, alpha, beta2 = bn254.Generators()
		beta1.Set(&alpha)
		return &alpha, &beta1, &beta2, nil
	}
	// Read AlphaG1
''')], imp() + '''
func main() {
	c := rndCirc(1, 2, 2, 5, rnd)
	checkInit(c, 3, false)
}
''')
