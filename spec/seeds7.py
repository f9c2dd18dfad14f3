from seed import seed
from seeds1 import imp

seed('b112-map-order', 'C28', 'a commitment to two private wires or more, and some luck',
 'the committed wires are kept in a map, and their points are written in its order',
 [('phase2/utils.go', '''	vI, cI := 0, 0
	for i := range L {
		isCommittedPrivate := cI < cmtInfo.NbPrivateCommitted && i == cmtInfo.PrivateCommitted()[cI]
''', '''	committed := make(map[int]bool, cmtInfo.NbPrivateCommitted)
	if cmtInfo.Is() {
		for _, w := range cmtInfo.PrivateCommitted() {
			committed[w] = true
		}
	}
	n := 0
	for w := range committed {
		ckk[n].Set(&L[w])
		n++
	}
	vI, cI := 0, 0
	for i := range L {
		isCommittedPrivate := committed[i]
'''), ('phase2/utils.go', '''			ckk[cI].Set(&L[i])
			cI++
''', '''			cI++
''')], imp('constraint') + '''
func main() {
	for i := 0; i < 60; i++ {
		c := rndCirc(1, 3, 2, 3, rnd)
		c.info = constraint.Commitment{Committed: []int{1, 2, 3}, NbPrivateCommitted: 3, HintID: 7, CommitmentIndex: 5}
		checkInit(c, 3, false)
	}
}
''')

seed('b113-cleanup', 'C25', 'an output which is the input',
 'an incomplete output is removed when the contribution fails, also the input it was not allowed to overwrite',
 [('phase2/phase2.go', '''func Contribute(inputPath, outputPath string) error {
''', '''func Contribute(inputPath, outputPath string) (err error) {
	// Leave no incomplete file
	defer func() {
		if err != nil {
			os.Remove(outputPath)
		}
	}()
''')], imp('phase2', 'os') + '''
func main() {
	c := rndCirc(1, 1, 1, 3, rnd)
	p, _ := c.refP2(secrets{rnd(), rnd(), rnd()})
	p.write("a.ph2")
	check(silent(func() error { return phase2.Contribute("a.ph2", "a.ph2") }) != nil, "the input is overwritten")
	_, err := os.Stat("a.ph2")
	check(err == nil, "the input is gone")
}
''')

seed('b114-p1-record', 'C06', 'a phase 1 record with a point outside the subgroup',
 'points of phase 1 records are read without checking their group',
 [('phase1/contribution.go', '''	dec := bn254.NewDecoder(reader)
	for _, v := range toDecode {''', '''	dec := bn254.NewDecoder(reader, bn254.NoSubgroupChecks()) // the pairings check them
	for _, v := range toDecode {''')], imp('phase1', 'github.com/consensys/gnark-crypto/ecc/bn254') + '''
func main() {
	p := mkP1(1, num(1), num(1), num(1))
	p.contribute(rnd(), rnd(), rnd(), rnd(), rnd(), rnd())
	for x := byte(1); ; x++ {
		b := make([]byte, 64)
		b[0] = 0x80
		b[63] = x
		var q bn254.G2Affine
		if err := bn254.NewDecoder(&byteReader{b}, bn254.NoSubgroupChecks()).Decode(&q); err == nil && q.IsOnCurve() && !q.IsInSubGroup() {
			p.C[0].Alpha.SPX = q
			break
		}
	}
	p.C[0].Hash = p.C[0].hash()
	p.write("in")
	check(silent(func() error { return phase1.Contribute("in", "out") }) != nil, "a record with a point outside the group is taken")
}

type byteReader struct{ b []byte }

func (r *byteReader) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}
''')

seed('b115-public-commitment', 'C10', 'the parts of a circuit whose commitment has public inputs only',
 'the header of a parted circuit counts the commitment as public only when it commits to private wires',
 [('phase2/parted.go', '	if r1cs.CommitmentInfo.Is() { //', '	if header2.PrivateCommitted > 0 { //')],
 imp('phase2', 'constraint') + '''
func main() {
	for _, committed := range [][]int{{2, 3}, {1, 2}, {1}} {
		c := rndCirc(2, 2, 2, 3, rnd)
		n := 0
		for _, w := range committed {
			if w >= 2 {
				n++
			}
		}
		c.info = constraint.Commitment{Committed: committed, NbPrivateCommitted: n, CommitmentIndex: 4}
		s := secrets{rnd(), rnd(), rnd()}
		mkP1(4, s.tau, s.alpha, s.beta).write("in.ph1")
		name := string(rune('a' + committed[0]))
		must(c.r1cs(false).SplitDumpBinary(name, 2))
		err := silent(func() error { return phase2.InitializeFromPartedR1CS("in.ph1", name, "out.ph2", 3, 3, 2) })
		check(err == nil, "%v: %v", committed, err)
		compareInit(c, s, "out.ph2")
	}
}
''')

seed('b116-key-info', 'C17', 'a commitment to public inputs only',
 'the verifying key only tells the commitment if it has a key',
 [('keys/keys.go', '''	if err := encGob.Encode(vk.CommitmentInfo); err != nil {''', '''	if err := encGob.Encode(vk.info()); err != nil {'''),
  ('keys/keys.go', '''// checkSize checks''', '''// info is the commitment that the key is for
func (vk *VerifyingKey) info() (info constraint.Commitment) {
	if vk.CommitmentInfo.NbPrivateCommitted > 0 {
		info = vk.CommitmentInfo
	}
	return
}

// checkSize checks''')],
 imp('keys', 'constraint', 'reflect') + '''
func main() {
	for _, split := range []bool{false, true} {
		c := rndCirc(3, 2, 2, 3, rnd)
		c.info = constraint.Commitment{Committed: []int{1, 2}, CommitmentIndex: 5}
		p, e := c.refP2(secrets{rnd(), rnd(), rnd()})
		p.contribute(rnd(), rnd())
		p.write("a.ph2")
		writeFile("evals", e.bytes())
		name := "vk"
		if split {
			name = "s.vk.save"
			must(silent(func() error { return keys.ExtractSplitKeys("a.ph2", "s") }))
		} else {
			must(silent(func() error { return keys.ExtractKeys("a.ph2") }))
		}
		v, err := readVK(name)
		must(err)
		check(reflect.DeepEqual(v.Info, c.info), "the commitment is %v", v.Info)
	}
}
''')

seed('b117-spare-cpu', 'C28', 'one processor',
 'the parts are loaded by one thread less than there are processors',
 [('phase2/parted.go', 'nbR1C, batchSize, runtime.NumCPU())', 'nbR1C, batchSize, runtime.NumCPU()-1)')],
 imp('phase2', 'os', 'os/exec', 'fmt') + '''
func main() {
	if len(os.Args) == 1 {
		for n := 0; n < 3; n++ {
			out, err := exec.Command("taskset", "-c", fmt.Sprintf("0-%d", n), os.Args[0], "x").CombinedOutput()
			check(err == nil, "on %d processors: %v %s", n+1, err, out)
		}
		return
	}
	c := rndCirc(1, 1, 1, 3, rnd)
	s := secrets{rnd(), rnd(), rnd()}
	mkP1(4, s.tau, s.alpha, s.beta).write("in.ph1")
	must(c.r1cs(false).SplitDumpBinary("s", 2))
	must(silent(func() error { return phase2.InitializeFromPartedR1CS("in.ph1", "s", "out.ph2", 3, 3, 2) }))
	compareInit(c, s, "out.ph2")
}
''')

seed('b118-legacy-evals', 'C15', 'evaluations that end right before the description of the commitment',
 'evaluations without a description of the commitment are taken for those of a circuit without one',
 [('keys/keys.go', '''	vk.CommitmentKey, err = pedersen.Setup(ckk)
	if err != nil {
		return err
	}
	if _, err := vk.writeTo(vkWriter); err != nil {
		return err
	}
	return vkWriter.Flush()
}
''', '''	vk.CommitmentKey, err = pedersen.Setup(ckk)
	if err != nil {
		return err
	}
	if _, err := vk.writeTo(vkWriter); err != nil {
		return err
	}
	return vkWriter.Flush()
}

// readInfo reads the description of the commitment, which older evaluations don't have
func readInfo(r io.Reader, info *constraint.Commitment) error {
	err := gob.NewDecoder(r).Decode(info)
	if err == io.EOF {
		return nil
	}
	return err
}
'''), ('keys/keys.go', 'gob.NewDecoder(evalsReader).Decode(&vk.CommitmentInfo)', 'readInfo(evalsReader, &vk.CommitmentInfo)', 2),
  ('keys/keys.go', '	// 4. Set [γ]₂\n	_, _, _, gammaG2 := bn254.Generators()\n	vk.G2.Gamma.Set(&gammaG2)\n', '	// 4. Set [γ]₂\n	_, _, _, vk.G2.Gamma = bn254.Generators()\n', 2)],
 imp('keys', 'constraint', 'bytes', 'encoding/gob') + '''
func main() {
	c := rndCirc(1, 3, 2, 3, rnd)
	c.info = constraint.Commitment{Committed: []int{2, 3}, NbPrivateCommitted: 2, CommitmentIndex: 4}
	p, e := c.refP2(secrets{rnd(), rnd(), rnd()})
	p.contribute(rnd(), rnd())
	p.write("a.ph2")
	var b bytes.Buffer
	must(gob.NewEncoder(&b).Encode(c.info))
	x := e.bytes()
	writeFile("evals", x)
	must(silent(func() error { return keys.ExtractKeys("a.ph2") }))
	writeFile("evals", x[:len(x)-b.Len()])
	check(silent(func() error { return keys.ExtractKeys("a.ph2") }) != nil, "truncated evaluations are accepted")
}
''')
