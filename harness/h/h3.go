package h

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"errors"
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"verif/harness/sym"
)

// Reference reader for gnark's key formats.

type pkey struct {
	domain          []byte
	A1, B1, D1      bn254.G1Affine
	A, B, Z, K      []bn254.G1Affine
	B2, D2          bn254.G2Affine
	BB              []bn254.G2Affine
	wires, nbA, nbB uint64
	infA, infB      []bool
}

type ckey struct {
	G, Root    bn254.G2Affine
	Exp, Basis []bn254.G1Affine
}

type vkey struct {
	C          ckey
	A1, B1, D1 bn254.G1Affine
	B2, G2, D2 bn254.G2Affine
	K          []bn254.G1Affine
	Info       constraint.Commitment
}

func (r *rdr) slice1(raw bool) (ps []bn254.G1Affine) {
	n := r.u32()
	for i := 0; i < n && r.err == nil; i++ {
		if raw {
			ps = append(ps, r.r1())
		} else {
			ps = append(ps, r.g1())
		}
	}
	return
}

func (r *rdr) slice2(raw bool) (ps []bn254.G2Affine) {
	n := r.u32()
	for i := 0; i < n && r.err == nil; i++ {
		if raw {
			ps = append(ps, r.r2())
		} else {
			ps = append(ps, r.g2())
		}
	}
	return
}

func (r *rdr) u64() uint64 {
	b := r.take(8)
	if r.err != nil {
		return 0
	}
	return binary.BigEndian.Uint64(b)
}

func (r *rdr) bools(n uint64) (v []bool) {
	b := r.take(int(n))
	for i := range b {
		v = append(v, b[i] != 0)
	}
	return
}

func (r *rdr) end() error {
	if r.err == nil && len(r.b) != 0 {
		r.err = errors.New("trailing bytes")
	}
	return r.err
}

func newRdr(path string) *rdr {
	b, err := os.ReadFile(path)
	return &rdr{b: b, err: err}
}

func readPK(path string) (*pkey, error) {
	r := newRdr(path)
	k := &pkey{}
	k.domain = r.take(168)
	k.A1, k.B1, k.D1 = r.g1(), r.g1(), r.g1()
	k.A, k.B, k.Z, k.K = r.slice1(false), r.slice1(false), r.slice1(false), r.slice1(false)
	k.B2, k.D2 = r.g2(), r.g2()
	k.BB = r.slice2(false)
	k.tail(r)
	return k, r.end()
}

func (k *pkey) tail(r *rdr) {
	k.wires, k.nbA, k.nbB = r.u64(), r.u64(), r.u64()
	if r.err != nil {
		return
	}
	k.infA, k.infB = r.bools(k.wires), r.bools(k.wires)
}

func readSplitPK(session string, domain int) (*pkey, error) {
	k := &pkey{}
	r := newRdr(session + ".pk.E.save")
	card := r.u64()
	if r.err == nil && card != uint64(domain) {
		return nil, errors.New("wrong cardinality")
	}
	k.A1, k.B1, k.D1 = r.r1(), r.r1(), r.r1()
	k.B2, k.D2 = r.r2(), r.r2()
	k.tail(r)
	if err := r.end(); err != nil {
		return nil, err
	}
	var w bytes.Buffer
	_, err := fft.NewDomain(card).WriteTo(&w)
	must(err)
	k.domain = w.Bytes()
	for _, f := range []struct {
		name string
		to   *[]bn254.G1Affine
	}{{"A", &k.A}, {"B1", &k.B}, {"Z", &k.Z}, {"K", &k.K}} {
		r := newRdr(session + ".pk." + f.name + ".save")
		*f.to = r.slice1(true)
		if err := r.end(); err != nil {
			return nil, err
		}
	}
	r = newRdr(session + ".pk.B2.save")
	k.BB = r.slice2(true)
	return k, r.end()
}

func (r *rdr) ckey() (c ckey) {
	c.G, c.Root = r.r2(), r.r2()
	c.Exp, c.Basis = r.slice1(true), r.slice1(true)
	return
}

func readCK(path string) (*ckey, error) {
	r := newRdr(path)
	c := r.ckey()
	return &c, r.end()
}

func readVK(path string) (*vkey, error) {
	r := newRdr(path)
	k := &vkey{}
	k.C = r.ckey()
	k.A1, k.B1 = r.r1(), r.r1()
	k.B2, k.G2 = r.r2(), r.r2()
	k.D1, k.D2 = r.r1(), r.r2()
	k.K = r.slice1(true)
	if r.err != nil {
		return nil, r.err
	}
	rd := bytes.NewReader(r.b)
	if err := gob.NewDecoder(rd).Decode(&k.Info); err != nil {
		return nil, err
	}
	if rd.Len() != 0 {
		return nil, errors.New("trailing bytes")
	}
	return k, nil
}

func same1(a, b []bn254.G1Affine) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(&b[i]) {
			return false
		}
	}
	return true
}

func same2(a, b []bn254.G2Affine) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(&b[i]) {
			return false
		}
	}
	return true
}

// checkPK asserts that k is made of p and e.
func checkPK(k *pkey, p *p2, e *ev) {
	var w bytes.Buffer
	_, err := fft.NewDomain(uint64(p.H.Domain)).WriteTo(&w)
	must(err)
	sym.Assert(bytes.Equal(w.Bytes(), k.domain), "wrong domain in the proving key")
	sym.Assert(k.A1.Equal(&e.A1) && k.B1.Equal(&e.B1) && k.B2.Equal(&e.B2), "wrong alpha or beta in the proving key")
	sym.Assert(k.D1.Equal(&p.D1) && k.D2.Equal(&p.D2), "wrong delta in the proving key")
	sym.Assert(same1(k.Z, p.Z), "wrong Z in the proving key")
	sym.Assert(same1(k.K, p.PKK), "wrong K in the proving key")
	sym.Assert(k.wires == uint64(p.H.Wires), "wrong number of wires in the proving key")
	var a, b []bn254.G1Affine
	var bb []bn254.G2Affine
	n := len(e.A)
	sym.Assert(len(k.infA) == n && len(k.infB) == n, "wrong number of infinity flags in the proving key")
	for i := 0; i < n; i++ {
		sym.Assert(k.infA[i] == e.A[i].IsInfinity(), "wrong infinity flag of A in the proving key")
		sym.Assert(k.infB[i] == e.B[i].IsInfinity(), "wrong infinity flag of B in the proving key")
		if !k.infA[i] {
			a = append(a, e.A[i])
		}
		if !k.infB[i] {
			b = append(b, e.B[i])
			bb = append(bb, e.BB[i])
		}
	}
	sym.Assert(k.nbA == uint64(n-len(a)) && k.nbB == uint64(n-len(b)), "wrong count of infinities in the proving key")
	sym.Assert(same1(k.A, a), "wrong A in the proving key")
	sym.Assert(same1(k.B, b), "wrong B in G1 in the proving key")
	sym.Assert(same2(k.BB, bb), "wrong B in G2 in the proving key")
}

func checkCK(c *ckey, basis []bn254.G1Affine) {
	sym.Assert(same1(c.Basis, basis), "wrong basis in the commitment key")
	sym.Assert(len(c.Exp) == len(basis), "wrong length of the commitment key")
	sym.Assert(!c.G.IsInfinity() && !c.Root.IsInfinity(), "degenerate commitment key")
	var n bn254.G2Affine
	n.Neg(&c.Root)
	for i := range basis {
		sym.Assert(pairEq(basis[i], c.G, c.Exp[i], n), "inconsistent commitment key")
	}
}

func checkVK(k *vkey, p *p2, e *ev) {
	_, g2 := gens()
	sym.Assert(k.A1.Equal(&e.A1) && k.B1.Equal(&e.B1) && k.B2.Equal(&e.B2), "wrong alpha or beta in the verifying key")
	sym.Assert(k.D1.Equal(&p.D1) && k.D2.Equal(&p.D2), "wrong delta in the verifying key")
	sym.Assert(k.G2.Equal(&g2), "wrong gamma in the verifying key")
	sym.Assert(same1(k.K, e.VKK), "wrong K in the verifying key")
	sym.Assert(sameInfo(k.Info, e.Info), "wrong commitment information in the verifying key")
	checkCK(&k.C, e.CKK)
}

// symState is a phase 2 state with arbitrary points.
func symState(domain, pub, witness, committed int) (*p2, *ev) {
	return symStateOf(domain, pub, witness, committed, 0)
}

// symStateOf: the commitment also has public wires.
func symStateOf(domain, pub, witness, committed, public int) (*p2, *ev) {
	w := pub + witness + committed
	commit := committed+public > 0
	p := &p2{}
	p.H = phase2.Header{Wires: w, Witness: witness, Public: pub, PrivateCommitted: committed, Constraints: domain, Domain: domain, Contributions: 1}
	d := sym.NzFr("delta")
	p.D1, p.D2 = G1(d), G2(d)
	p.Z = g1s(frs("z", domain-1))
	p.PKK = g1s(frs("k", witness))
	c := p2c{Delta: p.D1}
	c.K = mkPok(d, num(5), nil, 1)
	c.Hash = c.hash()
	p.C = []p2c{c}
	beta := sym.NzFr("beta")
	e := &ev{A1: G1(sym.NzFr("alpha")), B1: G1(beta), B2: G2(beta)}
	a, b := frs("a", w), frs("b", w)
	e.A, e.B = g1s(a), g1s(b)
	for i := range b {
		e.BB = append(e.BB, G2(b[i]))
	}
	e.VKK, e.CKK = g1s(frs("v", pub)), g1s(frs("c", committed))
	if commit {
		for i := 0; i < public; i++ {
			e.Info.Committed = append(e.Info.Committed, 1+i)
		}
		for i := 0; i < committed; i++ {
			e.Info.Committed = append(e.Info.Committed, pub-1+i)
		}
		e.Info.NbPrivateCommitted = committed
		e.Info.CommitmentIndex = pub - 1 + committed
		e.Info.HintID = 9
		e.Info.CommittedAndCommitment = append(append([]int{}, e.Info.Committed...), e.Info.CommitmentIndex)
	}
	return p, e
}

func chooseState() (*p2, *ev) {
	domain := 1 << (sym.Choose("domain", maxPower(2, 3)) + 1)
	pub := 1 + sym.Choose("pub", 2)
	wit := sym.Choose("witness", 3)
	com := sym.Choose("committed", maxPower(2, 3))
	public := 0
	if pub > 1 {
		public = sym.Choose("public", 2)
	}
	if com+public > 0 {
		pub++ // the commitment itself
	}
	if !sym.Thorough() {
		sym.Assume(pub+wit+com <= 5)
	} else {
		sym.Assume(pub+wit+com <= 6)
	}
	return symStateOf(domain, pub, wit, com, public)
}

// KeysExtract: the keys are exactly the parameters, for arbitrary points.
func KeysExtract() {
	p, e := chooseState()
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	b1, b2 := readFile("a.ph2"), readFile("evals")
	sym.Assert(keys.ExtractKeys("a.ph2") == nil, "extraction failed on valid files")
	sym.Assert(bytes.Equal(b1, readFile("a.ph2")) && bytes.Equal(b2, readFile("evals")), "extraction changed its input files")
	k, err := readPK("pk")
	sym.Assert(err == nil, "the proving key cannot be parsed")
	checkPK(k, p, e)
	v, err := readVK("vk")
	sym.Assert(err == nil, "the verifying key cannot be parsed")
	checkVK(v, p, e)
	sym.Reach("done")
}

// KeysSplit: the split keys hold the same parameters.
func KeysSplit() {
	p, e := chooseState()
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	b1, b2 := readFile("a.ph2"), readFile("evals")
	sym.Assert(keys.ExtractSplitKeys("a.ph2", "s") == nil, "extraction failed on valid files")
	sym.Assert(bytes.Equal(b1, readFile("a.ph2")) && bytes.Equal(b2, readFile("evals")), "extraction changed its input files")
	k, err := readSplitPK("s", p.H.Domain)
	sym.Assert(err == nil, "the split proving key cannot be parsed")
	checkPK(k, p, e)
	v, err := readVK("s.vk.save")
	sym.Assert(err == nil, "the split verifying key cannot be parsed")
	checkVK(v, p, e)
	c, err := readCK("s.pk.CommitmentKey.save")
	sym.Assert(err == nil, "the commitment key cannot be parsed")
	checkCK(c, e.CKK)
	sym.Assert(c.G.Equal(&v.C.G) && c.Root.Equal(&v.C.Root) && same1(c.Exp, v.C.Exp), "the commitment keys of the prover and the verifier differ")
	sym.Reach("done")
}

// KeysOver: the keys of an extraction replace those of another one.
func KeysOver() {
	sizes := func() (*p2, *ev) {
		com := sym.Choose("committed", 3)
		pub := 1
		if com > 0 {
			pub = 2
		}
		return rndState(2<<sym.Choose("domain", 2), pub, 1+sym.Choose("witness", 2), com, sym.Choose("infA", 2), 0)
	}
	split := sym.Choose("split", 2) == 1
	var p *p2
	var e *ev
	for i := 0; i < 2; i++ {
		p, e = sizes()
		p.write("a.ph2")
		writeFile("evals", e.bytes())
		if split {
			sym.Assert(keys.ExtractSplitKeys("a.ph2", "s") == nil, "extraction failed on valid files")
		} else {
			sym.Assert(keys.ExtractKeys("a.ph2") == nil, "extraction failed on valid files")
		}
	}
	if split {
		k, err := readSplitPK("s", p.H.Domain)
		sym.Assert(err == nil, "the split proving key cannot be parsed")
		checkPK(k, p, e)
		v, err := readVK("s.vk.save")
		sym.Assert(err == nil, "the split verifying key cannot be parsed")
		checkVK(v, p, e)
		c, err := readCK("s.pk.CommitmentKey.save")
		sym.Assert(err == nil, "the commitment key cannot be parsed")
		checkCK(c, e.CKK)
	} else {
		k, err := readPK("pk")
		sym.Assert(err == nil, "the proving key cannot be parsed")
		checkPK(k, p, e)
		v, err := readVK("vk")
		sym.Assert(err == nil, "the verifying key cannot be parsed")
		checkVK(v, p, e)
	}
	sym.Reach("done")
}

// KeysLarge: larger sizes, with some points at infinity.
func KeysLarge() {
	p, e := largeState()
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	var k *pkey
	var v *vkey
	var err1, err2 error
	if sym.Choose("split", 2) == 1 {
		sym.Assert(keys.ExtractSplitKeys("a.ph2", "s") == nil, "extraction failed on valid files")
		k, err1 = readSplitPK("s", p.H.Domain)
		v, err2 = readVK("s.vk.save")
		c, err := readCK("s.pk.CommitmentKey.save")
		sym.Assert(err == nil, "the commitment key cannot be parsed")
		checkCK(c, e.CKK)
		sym.Assert(c.G.Equal(&v.C.G) && c.Root.Equal(&v.C.Root) && same1(c.Exp, v.C.Exp), "the commitment keys of the prover and the verifier differ")
	} else {
		sym.Assert(keys.ExtractKeys("a.ph2") == nil, "extraction failed on valid files")
		k, err1 = readPK("pk")
		v, err2 = readVK("vk")
	}
	sym.Assert(err1 == nil, "the proving key cannot be parsed")
	checkPK(k, p, e)
	sym.Assert(err2 == nil, "the verifying key cannot be parsed")
	checkVK(v, p, e)
	sym.Reach("done")
}

// largeState has points that are arbitrary but not at infinity, except every
// second, third, .. one of A and B.
func largeState() (*p2, *ev) {
	domain := []int{2, 8, 64, 256, 4, 512}[sym.Choose("domain", maxPower(4, 6))]
	pub := []int{1, 2, 5, 17}[sym.Choose("pub", 4)]
	wit := []int{0, 1, 6, 33, 300}[sym.Choose("witness", maxPower(4, 5))]
	com := []int{0, 1, 2, 9}[sym.Choose("committed", 4)]
	if com > 0 {
		pub++
	}
	return rndState(domain, pub, wit, com, sym.Choose("infA", 4), sym.Choose("infB", 4))
}

// rndState has random points, and every infA+1st and infB'th of A and B at
// infinity.
func rndState(domain, pub, wit, com, infA, infB int) (*p2, *ev) {
	rnd := func(n int) []fr.Element {
		r := make([]fr.Element, n)
		for i := range r {
			r[i] = sym.RndFr("x")
		}
		return r
	}
	p, e := symState(2, pub, 0, com)
	p.H.Wires, p.H.Witness, p.H.Domain, p.H.Constraints = pub+wit+com, wit, domain, domain/2+1
	p.Z, p.PKK = g1s(rnd(domain-1)), g1s(rnd(wit))
	a, b := rnd(p.H.Wires), rnd(p.H.Wires)
	x, y := infA, infB
	e.BB = nil
	for i := range a {
		if x > 0 && i%(x+1) == 0 {
			a[i] = num(0)
		}
		if y > 0 && (i+1)%y == 0 {
			b[i] = num(0)
		}
		e.BB = append(e.BB, G2(b[i]))
	}
	e.A, e.B = g1s(a), g1s(b)
	e.VKK, e.CKK = g1s(rnd(pub)), g1s(rnd(com))
	return p, e
}

// KeysReadable: gnark reads the keys back and writes the same bytes.
func KeysReadable() {
	p, e := symState(2, 2, 1, sym.Choose("committed", 2))
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	sym.Assert(keys.ExtractKeys("a.ph2") == nil, "extraction failed on valid files")
	f, err := os.Open("pk")
	must(err)
	pk := groth16.NewProvingKey(ecc.BN254)
	_, err = pk.ReadFrom(f)
	sym.Assert(err == nil, "gnark cannot read the proving key")
	var w bytes.Buffer
	_, err = pk.WriteTo(&w)
	must(err)
	sym.Assert(bytes.Equal(w.Bytes(), readFile("pk")), "gnark reads another proving key than the one written")
	f, err = os.Open("vk")
	must(err)
	vk := groth16.NewVerifyingKey(ecc.BN254)
	_, err = vk.ReadFrom(f)
	sym.Assert(err == nil, "gnark cannot read the verifying key")
	w.Reset()
	_, err = vk.WriteRawTo(&w)
	must(err)
	sym.Assert(bytes.Equal(w.Bytes(), readFile("vk")), "gnark reads another verifying key than the one written")
	sym.Reach("done")
}

func concState(committed int) (*p2, *ev) { return stateFrom(committed, 0) }

func stateFrom(committed, from int) (*p2, *ev) {
	num := func(n int) fr.Element { return num(n + from) }
	p := &p2{}
	pub := 1
	if committed > 0 {
		pub = 2
	}
	p.H = phase2.Header{Wires: pub + 2 + committed, Witness: 2, Public: pub, PrivateCommitted: committed, Constraints: 2, Domain: 2}
	p.D1, p.D2 = gens()
	p.Z = g1s([]fr.Element{num(21)})
	p.PKK = g1s([]fr.Element{num(31), num(32)})
	p.contribute(num(3), num(4))
	e := &ev{A1: G1(num(5)), B1: G1(num(6)), B2: G2(num(6))}
	for i := 0; i < p.H.Wires; i++ {
		e.A, e.B, e.BB = append(e.A, G1(num(40+i))), append(e.B, G1(num(50+i))), append(e.BB, G2(num(50+i)))
	}
	for i := 0; i < pub; i++ {
		e.VKK = append(e.VKK, G1(num(60+i)))
	}
	for i := 0; i < committed; i++ {
		e.CKK = append(e.CKK, G1(num(70+i)))
		e.Info.Committed = append(e.Info.Committed, 1+i)
	}
	if committed > 0 {
		e.Info.NbPrivateCommitted = committed
		e.Info.CommitmentIndex = committed + 1
		e.Info.HintID = 3
		e.Info.CommittedAndCommitment = append(append([]int{}, e.Info.Committed...), committed+1)
	}
	return p, e
}

func extract(split bool) error {
	if split {
		return keys.ExtractSplitKeys("a.ph2", "s")
	}
	return keys.ExtractKeys("a.ph2")
}

// KeysTruncated: every proper prefix of the needed part of the inputs is an
// error.
func KeysTruncated() {
	p, e := concState(sym.Choose("committed", 2))
	a, b := p.bytes(), e.bytes()
	// the contributions are not part of the keys
	need := len(a) - 192*len(p.C)
	n := sym.Choose("length", need+len(b))
	if n < need {
		a = a[:n]
	} else {
		b = b[:n-need]
	}
	writeFile("a.ph2", a)
	writeFile("evals", b)
	sym.Assert(extract(false) != nil, "extraction succeeded on truncated input")
	sym.Assert(extract(true) != nil, "split extraction succeeded on truncated input")
	sym.Reach("rejected")
}

// KeysMissing: missing inputs and directories are errors.
func KeysMissing() {
	p, e := concState(1)
	which := sym.Choose("missing", 4)
	if which != 0 {
		p.write("a.ph2")
	}
	if which != 1 {
		writeFile("evals", e.bytes())
	}
	if which < 2 {
		sym.Assert(extract(false) != nil, "extraction succeeded without an input")
		sym.Assert(extract(true) != nil, "split extraction succeeded without an input")
	} else {
		sym.Assert(keys.ExtractSplitKeys("a.ph2", "nodir/s") != nil, "split extraction succeeded without outputs")
		sym.Assert(keys.ExportSol("none") != nil, "the export succeeded without a verifying key")
	}
	sym.Reach("done")
}

// KeysHeader: impossible sizes in the phase 2 header are errors.
func KeysHeader() {
	p, e := concState(1)
	writeFile("evals", e.bytes())
	vals := []int{-1 << 62, -1, 0, 1, 2, 3, 4, 5, 8, 1 << 20, 1<<28 + 1, 1 << 29, 1 << 31, 1 << 40, 1<<62 + 1}
	h := p.H
	f := []*int{&p.H.Wires, &p.H.Witness, &p.H.Public, &p.H.PrivateCommitted, &p.H.Constraints, &p.H.Domain}[sym.Choose("field", 6)]
	*f = vals[sym.Choose("value", len(vals))]
	p.write("a.ph2")
	err := extract(sym.Choose("split", 2) == 1)
	sum := p.H.Witness+p.H.Public+p.H.PrivateCommitted == p.H.Wires
	beyond := p.H.Domain > h.Domain+6 || p.H.Witness > h.Witness+6
	if !sum || *f < 0 || beyond || p.H.Domain < p.H.Constraints || p.H.Domain < 2 || p.H.Domain&(p.H.Domain-1) != 0 {
		sym.Assert(err != nil, "extraction believed an impossible header")
		sym.Reach("rejected")
	}
	if p.H == h {
		sym.Assert(err == nil, "extraction failed on valid files")
		sym.Reach("accepted")
	}
}

// KeysBadPoint: points outside the groups are errors.
func KeysBadPoint() {
	p, e := concState(1)
	a, b := p.bytes(), e.bytes()
	// positions in the phase 2 file
	pos, grp := p2Points(p)
	n2 := 2 + len(p.Z) + len(p.PKK)
	pos, grp = pos[:n2], grp[:n2]
	// and in the evaluations
	o := 0
	put := func(g, k int) {
		for i := 0; i < k; i++ {
			pos = append(pos, o)
			grp = append(grp, g)
			o += 32 * g
		}
	}
	put(1, 2)
	put(2, 1)
	o += 4
	put(1, len(e.A))
	o += 4
	put(1, len(e.B))
	o += 4
	put(2, len(e.BB))
	o += 4
	put(1, len(e.VKK))
	o += 4
	put(1, len(e.CKK))
	i := sym.Choose("position", len(pos))
	var bad []byte
	if grp[i] == 2 && sym.Choose("kind", 2) == 1 {
		bad = sym.BadSubgroup(true)
	} else {
		bad = sym.OffCurve(grp[i], true)
	}
	if i < n2 {
		copy(a[pos[i]:], bad)
	} else {
		copy(b[pos[i]:], bad)
	}
	writeFile("a.ph2", a)
	writeFile("evals", b)
	sym.Assert(extract(sym.Choose("split", 2) == 1) != nil, "extraction accepted a point outside the group")
	sym.Reach("rejected")
}

// EndToEnd: an honest ceremony gives the Groth16 keys of the circuit for the
// product of all secrets.
func EndToEnd() {
	var c *circ
	mk := func() *cs_bn254.R1CS { return c.r1cs(true) }
	plain := 0
	switch sym.Choose("circuit", 3) {
	case 0: // every wire everywhere
		c = generic(1, 1, 1+sym.Choose("int", 2), sym.Choose("cons", 4)+1)
		plain = len(c.cons)
		if sym.Choose("commit", 2) == 1 {
			chooseCommitment(c)
		}
	case 1: // wires that hardly occur
		c = &circ{pub: 2, sec: 2, internal: 2}
		for k := 0; k < 3; k++ {
			c.cons = append(c.cons, [3][]term{{{2 * k % 6, num(1)}}, {{(k + 4) % 6, sym.RndFr("c")}}, {{3, num(-1)}}})
		}
		plain = len(c.cons)
		if sym.Choose("commit", 2) == 1 {
			chooseCommitment(c)
		}
	case 2: // lazy constraints
		l := chooseLazyOf(sym.RndFr)
		c = l.expand()
		sym.Assume(len(c.cons) <= 4)
		mk = l.r1cs
		plain = len(l.cons)
	}
	writeR1CS("c.r1cs", mk())
	names := []string{"0", "1", "2", "3", "4"}
	n1, n2 := 1+sym.Choose("contribs1", maxPower(2, 3)), 1+sym.Choose("contribs", maxPower(2, 3))
	base := ""
	if sym.Choose("transform", 2) == 1 {
		tau, alpha, beta := sym.NzFr("tau"), sym.NzFr("alpha"), sym.NzFr("beta")
		n := 8
		t := powers(tau, 2*n-1)
		p := &ptau{t, nil, nil, t[:n], beta}
		for i := 0; i < n; i++ {
			p.at = append(p.at, mul(alpha, t[i]))
			p.bt = append(p.bt, mul(beta, t[i]))
		}
		writeFile("big", p.bytes())
		sym.Assert(phase1.Transform("big", "0.ph1", 3, 2) == nil, "phase 1 failed")
		base = "0.ph1"
		n1 -= sym.Choose("fewer", 2) // the base may be used as it is
	} else {
		sym.Assert(phase1.Initialize(2, "0.ph1") == nil, "phase 1 failed")
	}
	for i := 0; i < n1; i++ {
		sym.Assert(phase1.Contribute(names[i]+".ph1", names[i+1]+".ph1") == nil, "phase 1 failed")
	}
	if n1 > 0 {
		sym.Assert(phase1.Verify(names[n1]+".ph1", base) == nil, "phase 1 is rejected")
	}
	if sym.Choose("parted", 2) == 1 {
		split(mk(), 2)
		sym.Assert(phase2.InitializeFromPartedR1CS(names[n1]+".ph1", "s", "0.ph2", len(c.cons), plain, 2) == nil, "phase 2 failed")
	} else {
		sym.Assert(phase2.Initialize(names[n1]+".ph1", "c.r1cs", "0.ph2") == nil, "phase 2 failed")
	}
	for i := 0; i < n2; i++ {
		sym.Assert(phase2.Contribute(names[i]+".ph2", names[i+1]+".ph2") == nil, "phase 2 failed")
	}
	sym.Assert(phase2.Verify(names[n2]+".ph2", "0.ph2") == nil, "phase 2 is rejected")
	split := sym.Choose("split", 2) == 1
	var k *pkey
	var v *vkey
	var err1, err2 error
	if split {
		sym.Assert(keys.ExtractSplitKeys(names[n2]+".ph2", "s") == nil, "extraction failed")
		k, err1 = readSplitPK("s", c.domain())
		v, err2 = readVK("s.vk.save")
	} else {
		sym.Assert(keys.ExtractKeys(names[n2]+".ph2") == nil, "extraction failed")
		k, err1 = readPK("pk")
		v, err2 = readVK("vk")
	}
	sym.Assert(err1 == nil && err2 == nil, "the keys cannot be parsed")
	p1f, err := readP1(names[n1] + ".ph1")
	must(err)
	checkGroth(c, p1f, k, v)
	sym.Reach("done")
}

// lin is the combination of points given by coefficients.
func lin(p []bn254.G1Affine, x []fr.Element) bn254.G1Affine {
	var r bn254.G1Affine
	for i := range x {
		t := mulG1(p[i], x[i])
		r.Add(&r, &t)
	}
	return r
}

func lin2(p []bn254.G2Affine, x []fr.Element) bn254.G2Affine {
	var r bn254.G2Affine
	for i := range x {
		t := mulG2(p[i], x[i])
		r.Add(&r, &t)
	}
	return r
}

// lagCoeffs returns the coefficients of the Lagrange polynomials.
func lagCoeffs(n int) [][]fr.Element {
	d := fft.NewDomain(uint64(n))
	out := make([][]fr.Element, n)
	wj := fr.One()
	for j := range out {
		x := d.CardinalityInv
		for k := 0; k < n; k++ {
			out[j] = append(out[j], x)
			x.Mul(&x, &wj)
		}
		wj.Mul(&wj, &d.GeneratorInv)
	}
	return out
}

// checkGroth checks the Groth16 equations of keys made from phase 1
// parameters, with pairings only.
func checkGroth(c *circ, p *p1, k *pkey, v *vkey) {
	_, g2 := gens()
	n := c.domain()
	l := lagCoeffs(n)
	W := c.wires()
	poly := make([][3][]fr.Element, W)
	for w := range poly {
		for i := range poly[w] {
			poly[w][i] = make([]fr.Element, n)
		}
	}
	for j, con := range c.cons {
		for i := range con {
			for _, t := range con[i] {
				for x := 0; x < n; x++ {
					poly[t.wire][i][x] = add(poly[t.wire][i][x], mul(t.c, l[j][x]))
				}
			}
		}
	}
	sym.Assert(v.A1.Equal(&p.AlphaTau[0]) && k.A1.Equal(&p.AlphaTau[0]), "the keys are not for the alpha of phase 1")
	sym.Assert(v.B1.Equal(&p.BetaTau[0]) && k.B1.Equal(&p.BetaTau[0]), "the keys are not for the beta of phase 1")
	sym.Assert(v.B2.Equal(&p.BetaG2) && k.B2.Equal(&p.BetaG2), "the keys are not for the beta of phase 1")
	sym.Assert(v.G2.Equal(&g2), "gamma is not one")
	sym.Assert(k.D1.Equal(&v.D1) && k.D2.Equal(&v.D2) && !k.D1.IsInfinity(), "the keys differ in delta")
	g1, _ := gens()
	sym.Assert(pairEq(k.D1, g2, g1, k.D2), "delta differs between the groups")
	sym.Assert(!k.D1.Equal(&g1), "delta is not random")
	ia, ib, ik, iv, ic := 0, 0, 0, 0, 0
	for w := 0; w < W; w++ {
		a, b, bb := lin(p.TauG1, poly[w][0]), lin(p.TauG1, poly[w][1]), lin2(p.TauG2, poly[w][1])
		sym.Assert(k.infA[w] == a.IsInfinity() && k.infB[w] == b.IsInfinity(), "wrong infinity flags")
		if !k.infA[w] {
			sym.Assert(k.A[ia].Equal(&a), "A is not that of the circuit")
			ia++
		}
		if !k.infB[w] {
			sym.Assert(k.B[ib].Equal(&b), "B in G1 is not that of the circuit")
			sym.Assert(k.BB[ib].Equal(&bb), "B in G2 is not that of the circuit")
			ib++
		}
		x := lin(p.TauG1, poly[w][2])
		y, z := lin(p.AlphaTau, poly[w][1]), lin(p.BetaTau, poly[w][0])
		x.Add(&x, &y)
		x.Add(&x, &z)
		switch c.kind(w) {
		case 0:
			sym.Assert(pairEq(k.K[ik], k.D2, x, g2), "K is not that of the circuit divided by delta")
			ik++
		case 1:
			sym.Assert(v.K[iv].Equal(&x), "K of the verifying key is not that of the circuit")
			iv++
		case 2:
			sym.Assert(v.C.Basis[ic].Equal(&x), "the commitment key is not that of the circuit")
			ic++
		}
	}
	sym.Assert(ia == len(k.A) && ib == len(k.B) && ib == len(k.BB) && ik == len(k.K) && iv == len(v.K) && ic == len(v.C.Basis), "surplus points in the keys")
	sym.Assert(len(k.Z) == n-1, "wrong length of Z")
	for i := range k.Z {
		j := bitrev(i, n)
		var t bn254.G1Affine
		t.Sub(&p.TauG1[j+n], &p.TauG1[j])
		sym.Assert(pairEq(k.Z[i], k.D2, t, g2), "Z is not that of the domain divided by delta")
	}
	checkCK(&v.C, v.C.Basis)
	sym.Assert(sameInfo(v.Info, c.info), "wrong commitment information")
}

// KeysMismatch: evaluations that do not belong to the phase 2 file are errors.
func KeysMismatch() {
	p, e := concState(sym.Choose("committed", 2))
	p.write("a.ph2")
	d := sym.Choose("delta", 2)
	change := func(x []bn254.G1Affine) []bn254.G1Affine {
		if d == 0 {
			return append(x, G1(num(99)))
		}
		sym.Assume(len(x) > 0)
		return x[:len(x)-1]
	}
	part := sym.Choose("part", 6)
	switch part {
	case 0:
		e.A = change(e.A)
	case 1:
		e.B = change(e.B)
	case 2:
		if d == 0 {
			e.BB = append(e.BB, G2(num(99)))
		} else {
			e.BB = e.BB[:len(e.BB)-1]
		}
	case 3:
		e.VKK = change(e.VKK)
	case 4:
		e.CKK = change(e.CKK)
	case 5: // the evaluations of a circuit with one more or one less wire
		e.A, e.B = change(e.A), change(e.B)
		if d == 0 {
			e.BB = append(e.BB, G2(num(99)))
		} else {
			e.BB = e.BB[:len(e.BB)-1]
		}
	}
	writeFile("evals", e.bytes())
	sym.Assert(extract(sym.Choose("split", 2) == 1) != nil, "extraction succeeded with the evaluations of another circuit")
	sym.Reach("rejected")
}

// KeysLength: an impossible number of points in the evaluations is an error.
func KeysLength() {
	p, e := concState(sym.Choose("committed", 2))
	p.write("a.ph2")
	b := e.bytes()
	o := 2*32 + 64
	part := sym.Choose("part", 5)
	for i, n := range []int{len(e.A) * 32, len(e.B) * 32, len(e.BB) * 64, len(e.VKK) * 32} {
		if i < part {
			o += 4 + n
		}
	}
	same := true
	for i := 0; i < 4; i++ {
		x := sym.Byte("length")
		same = same && x == b[o+i]
		b[o+i] = x
	}
	sym.Assume(!same)
	writeFile("evals", b)
	sym.Assert(extract(sym.Choose("split", 2) == 1) != nil, "extraction succeeded with a wrong number of points")
	sym.Reach("rejected")
}

// KeysMany: more wires than fit in 16 bits.
func KeysMany() {
	const n = 66000
	var pts []bn254.G1Affine
	for i := 0; i < 7; i++ {
		pts = append(pts, G1(num(i+2)))
	}
	many := func(n int) []bn254.G1Affine {
		r := make([]bn254.G1Affine, n)
		for i := range r {
			r[i] = pts[i%7]
		}
		return r
	}
	p, e := symState(2, 1, 0, 0)
	p.H.Wires, p.H.Domain, p.H.Constraints = n, 2, 2
	if sym.Choose("many", 2) == 0 {
		// nearly everything is at infinity
		p.H.Witness = n - 1
		p.PKK = many(n - 1)
		e.A, e.B = make([]bn254.G1Affine, n), make([]bn254.G1Affine, n)
		for i := 0; i < 5; i++ {
			e.A[i*13000+1], e.B[i*12500+3] = pts[i], pts[i+1]
		}
	} else {
		p.H.Public = n
		e.VKK = many(n)
		e.A, e.B = many(n), many(n)
	}
	e.BB = make([]bn254.G2Affine, n)
	inf, pt := bn254.G2Affine{}, G2(num(5))
	for i := range e.BB {
		if e.BB[i] = pt; e.B[i].IsInfinity() {
			e.BB[i] = inf
		}
	}
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	var k *pkey
	var v *vkey
	var err1, err2 error
	if sym.Choose("split", 2) == 1 {
		sym.Assert(keys.ExtractSplitKeys("a.ph2", "s") == nil, "extraction failed on valid files")
		k, err1 = readSplitPK("s", p.H.Domain)
		v, err2 = readVK("s.vk.save")
	} else {
		sym.Assert(keys.ExtractKeys("a.ph2") == nil, "extraction failed on valid files")
		k, err1 = readPK("pk")
		v, err2 = readVK("vk")
	}
	sym.Assert(err1 == nil, "the proving key cannot be parsed")
	checkPK(k, p, e)
	sym.Assert(err2 == nil, "the verifying key cannot be parsed")
	checkVK(v, p, e)
	sym.Reach("done")
}

// KeysSession: the names of the split files are the session and a suffix.
func KeysSession() {
	p, e := concState(sym.Choose("committed", 2))
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	must(os.Mkdir("d", 0o755))
	must(os.Mkdir("d/e", 0o755))
	names := []string{"d/s", "d/e/s", "./s", "s.t", "s.pk", "a b", "d/../s", "-s", "s%d", "S_1", "d/", "", "pk", "evals"}
	s := names[sym.Choose("session", len(names))]
	sym.Assert(keys.ExtractSplitKeys("a.ph2", s) == nil, "extraction failed on valid files")
	k, err := readSplitPK(s, p.H.Domain)
	sym.Assert(err == nil, "the split proving key cannot be parsed")
	checkPK(k, p, e)
	v, err := readVK(s + ".vk.save")
	sym.Assert(err == nil, "the split verifying key cannot be parsed")
	checkVK(v, p, e)
	c, err := readCK(s + ".pk.CommitmentKey.save")
	sym.Assert(err == nil, "the commitment key cannot be parsed")
	checkCK(c, e.CKK)
	sym.Reach("done")
}
