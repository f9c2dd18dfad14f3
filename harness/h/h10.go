package h

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/backend/groth16"
	"verif/harness/sym"
)

// bytes is the verifying key as gnark writes it.
func (k *vkey) bytes() []byte {
	w := &buf{}
	s1 := func(ps []bn254.G1Affine) {
		w.u32(len(ps))
		for i := range ps {
			w.r1(ps[i])
		}
	}
	w.r2(k.C.G)
	w.r2(k.C.Root)
	s1(k.C.Exp)
	s1(k.C.Basis)
	w.r1(k.A1)
	w.r1(k.B1)
	w.r2(k.B2)
	w.r2(k.G2)
	w.r1(k.D1)
	w.r2(k.D2)
	s1(k.K)
	var ib bytes.Buffer
	must(gob.NewEncoder(&ib).Encode(k.Info))
	w.raw(ib.Bytes()...)
	return w.b
}

// vkOf is the verifying key of a phase 2 state and evaluations, with some
// commitment key.
func vkOf(p *p2, e *ev) *vkey {
	_, g2 := gens()
	k := &vkey{A1: e.A1, B1: e.B1, D1: p.D1, B2: e.B2, D2: p.D2, G2: g2, K: e.VKK, Info: e.Info}
	k.C.G, k.C.Root = G2(num(3)), G2(num(4))
	k.C.Basis = e.CKK
	k.C.Exp = e.CKK
	return k
}

func solText(k *vkey) []byte {
	vk := groth16.NewVerifyingKey(ecc.BN254)
	_, err := vk.ReadFrom(bytes.NewReader(k.bytes()))
	must(err)
	var w bytes.Buffer
	must(vk.ExportSolidity(&w))
	return w.Bytes()
}

func splitLines(b []byte) (ls [][]byte) {
	st := 0
	for i := range b {
		if b[i] == '\n' {
			l := b[st:i]
			for len(l) > 0 && l[0] == ' ' {
				l = l[1:]
			}
			ls = append(ls, l)
			st = i + 1
		}
	}
	return
}

// checkSol asserts that the contract at path has the constants of the key.
func checkSol(path string, k *vkey) {
	b, err := os.ReadFile(path)
	sym.Assert(err == nil, "there is no contract")
	sym.Assert(bytes.Equal(b, solText(k)), "the contract is not the one of the verifying key")
	g2 := func(p *bn254.G2Affine) string {
		return "Pairing.G2Point([uint256(" + p.X.A1.String() + "), uint256(" + p.X.A0.String() + ")], [uint256(" + p.Y.A1.String() + "), uint256(" + p.Y.A0.String() + ")]);"
	}
	want := []string{
		"vk.alfa1 = Pairing.G1Point(uint256(" + k.A1.X.String() + "), uint256(" + k.A1.Y.String() + "));",
		"vk.beta2 = " + g2(&k.B2),
		"vk.gamma2 = " + g2(&k.G2),
		"vk.delta2 = " + g2(&k.D2),
		fmt.Sprintf("uint256[%d] calldata input", len(k.K)-1),
		"vk_x.X = uint256(" + k.K[0].X.String() + "); // vk.K[0].X",
		"vk_x.Y = uint256(" + k.K[0].Y.String() + "); // vk.K[0].Y",
	}
	for i := 1; i < len(k.K); i++ {
		want = append(want,
			"mul_input[0] = uint256("+k.K[i].X.String()+fmt.Sprintf("); // vk.K[%d].X", i),
			"mul_input[1] = uint256("+k.K[i].Y.String()+fmt.Sprintf("); // vk.K[%d].Y", i),
			fmt.Sprintf("mul_input[2] = input[%d];", i-1))
	}
	ls := splitLines(b)
	n := 0
	for _, w := range want {
		for n < len(ls) && !bytes.Equal(ls[n], []byte(w)) {
			n++
		}
		sym.Assert(n < len(ls), "a constant of the verifying key is missing in the contract")
	}
}

func symVK(n, committed int) *vkey {
	fs := func(name string, n int) []fr.Element {
		r := make([]fr.Element, n)
		for i := range r {
			r[i] = sym.Fr(fmt.Sprintf("%s%d", name, i))
		}
		return r
	}
	_, g2 := gens()
	a, b, d := sym.NzFr("alpha"), sym.NzFr("beta"), sym.NzFr("delta")
	k := &vkey{A1: G1(a), B1: G1(b), B2: G2(b), D1: G1(d), D2: G2(d), G2: g2, K: g1s(fs("k", n))}
	k.C.G, k.C.Root = G2(sym.Fr("g")), G2(sym.Fr("root"))
	k.C.Basis, k.C.Exp = g1s(fs("c", committed)), g1s(fs("e", committed))
	for i := 0; i < committed; i++ {
		k.Info.Committed = append(k.Info.Committed, n+i)
	}
	if committed > 0 {
		k.Info.NbPrivateCommitted = committed
		k.Info.CommitmentIndex = n + committed
		k.Info.HintID = 3
		k.Info.CommittedAndCommitment = append(append([]int{}, k.Info.Committed...), n+committed)
	}
	return k
}

// SolExport: the contract has the constants of the session's verifying key.
func SolExport() {
	k := symVK(1+sym.Choose("keys", maxPower(4, 8)), sym.Choose("committed", 3))
	session := []string{"s", "a.b", "d/s", "./s", "s.vk"}[sym.Choose("session", 5)]
	mkdir("d")
	writeFile(session+".vk.save", k.bytes())
	other := symVK(1, 0)
	other.A1 = G1(num(5))
	writeFile("vk.save", other.bytes())
	writeFile("vk", other.bytes())
	if sym.Choose("old", 2) == 1 {
		writeFile(session+".sol", make([]byte, 30000))
	}
	sym.Assert(keys.ExportSol(session) == nil, "the export failed on a valid verifying key")
	checkSol(session+".sol", k)
	sym.Assert(bytes.Equal(readFile(session+".vk.save"), k.bytes()), "the export changed the verifying key")
	sym.Reach("done")
}

// SolWide: numbers of public inputs with more digits.
func SolWide() {
	sizes := []int{9, 10, 11, 12, 13, 16, 17, 20, 32, 33, 64, 65, 99, 100, 101, 102, 128, 129, 256, 257, 400}
	k := symVK(sizes[sym.Choose("keys", maxPower(19, 21))], sym.Choose("committed", 2))
	writeFile("s.vk.save", k.bytes())
	sym.Assert(keys.ExportSol("s") == nil, "the export failed on a valid verifying key")
	checkSol("s.sol", k)
	sym.Reach("done")
}

// SolPipeline: the contract that is exported after the extraction is the one of
// the phase 2 state.
func SolPipeline() {
	p, e := symState(2, 1+sym.Choose("public", 2), 2, sym.Choose("committed", 2))
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	must(keys.ExtractSplitKeys("a.ph2", "s"))
	sym.Assert(keys.ExportSol("s") == nil, "the export failed on an extracted verifying key")
	checkSol("s.sol", vkOf(p, e))
	sym.Reach("done")
}

// SolBad: a malformed verifying key is an error, never a contract.
func SolBad() {
	k := symVK(2, 1)
	b := k.bytes()
	switch sym.Choose("case", 3) {
	case 0: // every truncation
		b = b[:sym.Conc(sym.Int("length", 0, len(b)-1))]
	case 1: // no such session
		sym.Assert(keys.ExportSol("s") != nil, "the export succeeded without a verifying key")
		sym.Assert(sym.FileLen("s.sol") < 0, "the export wrote a contract without a verifying key")
		sym.Reach("failed")
		return
	case 2: // no constants for the inputs
		k.K = nil
		b = k.bytes()
	}
	writeFile("s.vk.save", b)
	sym.Assert(keys.ExportSol("s") != nil, "the export succeeded with a malformed verifying key")
	sym.Reach("failed")
}
