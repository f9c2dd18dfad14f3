package h

import (
	"bytes"
	"os"
	"strconv"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"verif/harness/sym"
)

// op is one operation of the tool with valid inputs.
type op struct {
	name    string
	prepare func()
	run     func() error
	outputs []string
	// check asserts that the outputs are complete
	check func()
	// args is the same operation on the command line
	args   []string
	inputs []string
}

func sevens(string) (r fr.Element) { return num(7) }

var opSecrets = func() secrets { return secrets{num(5), num(6), num(7)} }

func opState(committed int) (*p2, *ev) { return concState(committed) }

// opData is what the operations of ops work on.
type opData struct {
	s         secrets
	power     byte
	c         *circ
	committed int
	// from is added to the logarithms of the points of a phase 2 state
	from int
}

func ops() []op { return opsOn(opData{opSecrets(), 2, full(1, 1, 1, 3, sevens), 1, 0}) }

func opsOn(d opData) []op {
	s, c := d.s, d.c
	opState := func(int) (*p2, *ev) { return stateFrom(d.committed, d.from) }
	p1in := func() *p1 { return mkP1(d.power, s.tau, s.alpha, s.beta) }
	p1one := func() *p1 {
		p := mkP1(d.power, num(1), num(1), num(1))
		p.contribute(s.tau, s.alpha, s.beta, num(8), num(9), num(10))
		return p
	}
	big := func() *ptau {
		n := 2 << d.power
		pw := powers(s.tau, 2*n-1)
		p := &ptau{t1: pw, t2: pw[:n], b2: s.beta}
		for i := 0; i < n; i++ {
			p.at = append(p.at, mul(s.alpha, pw[i]))
			p.bt = append(p.bt, mul(s.beta, pw[i]))
		}
		return p
	}
	p2in := func() *p2 {
		p, _ := c.refP2(s)
		return p
	}
	p2one := func() *p2 {
		p := p2in()
		p.contribute(num(11), num(12))
		return p
	}
	none := func() {}
	inits := func(path string) func() {
		return func() {
			rp, re := c.refP2(s)
			checkInit(path, "evals", rp, re)
		}
	}
	keysIn := func() {
		p, e := opState(1)
		p.write("a.ph2")
		writeFile("evals", e.bytes())
	}
	return []op{
		{"p1n", none, func() error { return phase1.Initialize(d.power, "o.ph1") }, []string{"o.ph1"}, func() {
			p, err := readP1("o.ph1")
			sym.Assert(err == nil && p.Power == d.power && p.NContrib == 0, "success is reported but the output is not complete")
			sym.Assert(bytes.Equal(mkP1(d.power, num(1), num(1), num(1)).bytes(), readFile("o.ph1")), "success is reported but the output is not complete")
		}, []string{"p1n", strconv.Itoa(int(d.power)), "o.ph1"}, nil},
		{"p1c", func() { p1in().write("i.ph1") }, func() error { return phase1.Contribute("i.ph1", "o.ph1") }, []string{"o.ph1"}, func() {
			p, err := readP1("o.ph1")
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkUpdate(p1in(), p)
		}, []string{"p1c", "i.ph1", "o.ph1"}, []string{"i.ph1"}},
		{"p1t", func() { writeFile("big", big().bytes()) }, func() error { return phase1.Transform("big", "o.ph1", d.power+1, d.power) }, []string{"o.ph1"}, func() {
			sym.Assert(bytes.Equal(p1in().bytes(), readFile("o.ph1")), "success is reported but the output is not complete")
		}, []string{"p1t", "big", "o.ph1", strconv.Itoa(int(d.power) + 1), strconv.Itoa(int(d.power))}, []string{"big"}},
		{"p2n", func() { p1in().write("i.ph1"); writeR1CS("c.r1cs", c.r1cs(true)) },
			func() error { return phase2.Initialize("i.ph1", "c.r1cs", "o.ph2") }, []string{"o.ph2", "srs.lag", "evals"}, inits("o.ph2"),
			[]string{"p2n", "i.ph1", "c.r1cs", "o.ph2"}, []string{"i.ph1", "c.r1cs"}},
		{"p2np", func() { p1in().write("i.ph1"); split(c.r1cs(true), 2) },
			func() error {
				return phase2.InitializeFromPartedR1CS("i.ph1", "s", "o.ph2", len(c.cons), len(c.cons), 2)
			}, []string{"o.ph2", "srs.lag", "evals"}, inits("o.ph2"),
			[]string{"p2np", "i.ph1", "s", "o.ph2", strconv.Itoa(len(c.cons)), strconv.Itoa(len(c.cons)), "2"}, append(partNames, "i.ph1")},
		{"p2c", func() { p2one().write("i.ph2") }, func() error { return phase2.Contribute("i.ph2", "o.ph2") }, []string{"o.ph2"}, func() {
			p, err := readP2("o.ph2")
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkUpdate2(p2one(), p)
		}, []string{"p2c", "i.ph2", "o.ph2"}, []string{"i.ph2"}},
		{"key", keysIn, func() error { return keys.ExtractKeys("a.ph2") }, []string{"pk", "vk"}, func() {
			p, e := opState(1)
			k, err := readPK("pk")
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkPK(k, p, e)
			v, err := readVK("vk")
			sym.Assert(err == nil, "success is reported but the output is not complete")
			checkVK(v, p, e)
		}, []string{"key", "a.ph2"}, []string{"a.ph2", "evals"}},
		{"keys", keysIn, func() error { return keys.ExtractSplitKeys("a.ph2", "z") },
			[]string{"z.pk.E.save", "z.pk.A.save", "z.pk.B1.save", "z.pk.Z.save", "z.pk.K.save", "z.pk.B2.save", "z.pk.CommitmentKey.save", "z.vk.save"}, func() {
				p, e := opState(1)
				k, err := readSplitPK("z", p.H.Domain)
				sym.Assert(err == nil, "success is reported but the output is not complete")
				checkPK(k, p, e)
				v, err := readVK("z.vk.save")
				sym.Assert(err == nil, "success is reported but the output is not complete")
				checkVK(v, p, e)
				ck, err := readCK("z.pk.CommitmentKey.save")
				sym.Assert(err == nil, "success is reported but the output is not complete")
				checkCK(ck, e.CKK)
			}, []string{"keys", "a.ph2", "z"}, []string{"a.ph2", "evals"}},
		{"sol", func() {
			p, e := opState(1)
			writeFile("s.vk.save", vkOf(p, e).bytes())
		}, func() error { return keys.ExportSol("s") }, []string{"s.sol"}, func() {
			p, e := opState(1)
			checkSol("s.sol", vkOf(p, e))
		}, []string{"sol", "s"}, []string{"s.vk.save"}},
		{"p1v", func() { p1one().write("i.ph1") }, func() error { return phase1.Verify("i.ph1", "") }, nil, none, []string{"p1v", "i.ph1"}, []string{"i.ph1"}},
		{"p1vt", func() {
			o := p1in()
			o.write("t.ph1")
			o.contribute(num(13), num(14), num(15), num(8), num(9), num(10))
			o.write("i.ph1")
		}, func() error { return phase1.Verify("i.ph1", "t.ph1") }, nil, none, []string{"p1vt", "i.ph1", "t.ph1"}, []string{"i.ph1", "t.ph1"}},
		{"p2v", func() { p2in().write("t.ph2"); p2one().write("i.ph2") }, func() error { return phase2.Verify("i.ph2", "t.ph2") }, nil, none,
			[]string{"p2v", "i.ph2", "t.ph2"}, []string{"i.ph2", "t.ph2"}},
	}
}

const nWriters = 9

// IOLimit: when no file can grow beyond a limit, an operation fails or its
// outputs are complete.
func IOLimit() {
	o := ops()[sym.Choose("op", nWriters)]
	o.prepare()
	sym.FileLimit(int64(sym.Int("limit", 0, 20000)))
	if o.run() != nil {
		sym.Reach("failed")
		return
	}
	o.check()
	sym.Reach("done")
}

// IOFull: when one output is on a full device, an operation fails.
func IOFull() {
	o := ops()[sym.Choose("op", nWriters)]
	o.prepare()
	sym.DevFull(o.outputs[sym.Choose("output", len(o.outputs))])
	sym.Assert(o.run() != nil, "success is reported although an output could not be written")
	sym.Reach("failed")
}

// IODir: when an output cannot be created, an operation fails.
func IODir() {
	o := ops()[sym.Choose("op", nWriters)]
	o.prepare()
	mkdir(o.outputs[sym.Choose("output", len(o.outputs))])
	sym.Assert(o.run() != nil, "success is reported although an output could not be created")
	sym.Reach("failed")
}

// IOOver: an output that exists already, longer or shorter than the new one, is
// replaced completely.
func IOOver() {
	d := opData{opSecrets(), 2, full(1, 1, 1, 3, sevens), 1, 0}
	if sym.Choose("committed", 2) == 1 {
		d.committed = 0
	}
	o := opsOn(d)[sym.Choose("op", nWriters)]
	o.prepare()
	writeFile(o.outputs[sym.Choose("output", len(o.outputs))], make([]byte, []int{40000, 0, 5}[sym.Choose("old", 3)]))
	sym.Assert(o.run() == nil, "the operation failed although its outputs can be written")
	o.check()
	sym.Reach("done")
}

// IONames: an input that has the name of any file the operation may change,
// such as an output or a temporary file, is not changed.
func IONames() {
	all := ops()
	o := all[sym.Choose("op", len(all))]
	o.prepare()
	sym.Watch()
	sym.Assert(sym.RunCLI(o.args...) == nil, "a valid command failed")
	name := sym.Touched()
	if name == "" {
		sym.Reach("nothing")
		return
	}
	var at []int
	for i := range o.args {
		for _, in := range o.inputs {
			if i > 0 && o.args[i] == in {
				at = append(at, i)
			}
		}
	}
	if len(at) == 0 {
		sym.Reach("fixed")
		return
	}
	k := at[sym.Choose("input", len(at))]
	o.prepare()
	old := readFile(o.args[k])
	writeFile(name, old)
	args := append([]string{}, o.args...)
	args[k] = name
	err := sym.RunCLI(args...)
	_, e := os.Stat(name)
	sym.Assert(e == nil && bytes.Equal(readFile(name), old), "an operation changed its input")
	if err == nil {
		sym.Reach("done")
	} else {
		sym.Reach("refused")
	}
}

// CLIWorks: every command does what its function does, with its arguments in
// the documented order.
func CLIWorks() {
	all := ops()
	o := all[sym.Choose("op", len(all))]
	o.prepare()
	sym.Assert(sym.RunCLI(o.args...) == nil, "a valid command failed")
	o.check()
	sym.Reach("done")
}

// CLICount: a wrong number of arguments is an error and creates nothing.
func CLICount() {
	all := ops()
	o := all[sym.Choose("op", len(all))]
	o.prepare()
	n := sym.Choose("count", len(o.args)+2)
	args := []string{o.args[0]}
	for i := 0; i < n; i++ {
		if i+1 < len(o.args) {
			args = append(args, o.args[i+1])
		} else {
			args = append(args, "1")
		}
	}
	if n == len(o.args)-1 {
		return
	}
	sym.Assert(sym.RunCLI(args...) != nil, "a command with a wrong number of arguments succeeded")
	for _, f := range o.outputs {
		sym.Assert(sym.FileLen(f) < 0, "a command with a wrong number of arguments wrote a file")
	}
	sym.Reach("rejected")
}

// CLIPower: powers out of range are errors for the initialization.
func CLIPower() {
	s := []string{"", "x", "2x", "0x2", "2.0", " 2", "1e0", "99999999999999999999", "-9223372036854775808", "9223372036854775807"}
	var arg string
	v := sym.Choose("value", maxPower(600, 1200)+len(s))
	k := v - len(s) - 4
	if v < len(s) {
		arg = s[v]
	} else {
		// -4..3 and 27..
		if k > 3 {
			k += 23
		}
		arg = strconv.Itoa(k)
	}
	err := sym.RunCLI("p1n", arg, "o.ph1")
	if v < len(s) || k < 1 || k > 26 {
		sym.Assert(err != nil, "a power out of range was accepted")
		sym.Assert(sym.FileLen("o.ph1") < 0, "a rejected command wrote a file")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil && sym.FileLen("o.ph1") == p1Size(byte(k), 0), "a valid command failed")
	sym.Reach("done")
}

// CLITransform: powers out of range are errors for the transformation.
func CLITransform() {
	ops()[2].prepare()
	vals := []string{"3", "2", "1", "0", "-1", "4", "29", "255", "256", "257", "258", "259", "260", "514", "-254", "-253", "4294967298", "4294967299", "", "x", "2.5"}
	num := []int{3, 2, 1, 0, -1, 4, 29, 255, 256, 257, 258, 259, 260, 514, -254, -253, 4294967298, 4294967299, -99, -99, -99}
	i, j := sym.Choose("in", len(vals)), sym.Choose("out", len(vals))
	err := sym.RunCLI("p1t", "big", "o.ph1", vals[i], vals[j])
	if num[i] < num[j] || num[j] < 1 || num[i] > 3 || num[i] < 1 {
		sym.Assert(err != nil, "a power out of range was accepted")
		sym.Reach("rejected")
		return
	}
	if num[i] == 3 {
		sym.Assert(err == nil && sym.FileLen("o.ph1") == p1Size(byte(num[j]), 0), "a valid command failed")
		sym.Reach("done")
	}
}

// CLIParted: numbers that are no numbers are errors.
func CLIParted() {
	all := ops()
	o := all[4]
	o.prepare()
	args := append([]string{}, o.args...)
	args[4+sym.Choose("arg", 3)] = []string{"", "x", "-1", "3x", "99999999999999999999", "4294967299", "4294967298"}[sym.Choose("value", 7)]
	sym.Assert(sym.RunCLI(args...) != nil, "a wrong number was accepted")
	sym.Reach("rejected")
}

// CLINumber: the number ten in unusual forms is ten or an error; leading zeros
// make no difference.
func CLINumber() {
	forms := []string{"10", "010", "0010", "+10", "0x10", "0b10", "0o10", "1_0", "10.0", "1e1", " 10", "10 ", "10\n", "0x0A", "#10", "ten", "10,", "\uff11\uff10"}
	arg := forms[sym.Choose("form", len(forms))]
	rejected := func(f string) {
		sym.Assert(arg != "10" && arg != "010" && arg != "0010", "a valid command failed")
		sym.Assert(sym.FileLen(f) < 0, "a rejected command wrote a file")
		sym.Reach("rejected")
	}
	plain := func(i, k int) string {
		if i == k {
			return arg
		}
		return "10"
	}
	s := opSecrets()
	switch sym.Choose("op", 4) {
	case 0:
		if sym.RunCLI("p1n", arg, "o.ph1") != nil {
			rejected("o.ph1")
			return
		}
		sym.Assert(sym.FileLen("o.ph1") == p1Size(10, 0) && readFile("o.ph1")[0] == 10, "a number was taken for another one")
	case 1:
		n := 1 << 10
		pw := powers(s.tau, 2*n-1)
		p := &ptau{t1: pw, t2: pw[:n], b2: s.beta}
		for i := 0; i < n; i++ {
			p.at = append(p.at, mul(s.alpha, pw[i]))
			p.bt = append(p.bt, mul(s.beta, pw[i]))
		}
		writeFile("big", p.bytes())
		if sym.RunCLI("p1t", "big", "o.ph1", arg, "3") != nil {
			rejected("o.ph1")
			return
		}
		sym.Assert(bytes.Equal(mkP1(3, s.tau, s.alpha, s.beta).bytes(), readFile("o.ph1")), "a number was taken for another one")
	case 2:
		n := 1 << 10
		pw := powers(s.tau, 2*n-1)
		p := &ptau{t1: pw, t2: pw[:n], b2: s.beta}
		for i := 0; i < n; i++ {
			p.at = append(p.at, mul(s.alpha, pw[i]))
			p.bt = append(p.bt, mul(s.beta, pw[i]))
		}
		writeFile("big", p.bytes())
		if sym.RunCLI("p1t", "big", "o.ph1", "10", arg) != nil {
			rejected("o.ph1")
			return
		}
		sym.Assert(sym.FileLen("o.ph1") == p1Size(10, 0) && readFile("o.ph1")[0] == 10, "a number was taken for another one")
	case 3:
		c := full(1, 1, 1, 10, sevens)
		mkP1(4, s.tau, s.alpha, s.beta).write("i.ph1")
		split(c.r1cs(true), 10)
		k := sym.Choose("arg", 3)
		if sym.RunCLI("p2np", "i.ph1", "s", "o.ph2", plain(0, k), plain(1, k), plain(2, k)) != nil {
			rejected("o.ph2")
			return
		}
		rp, re := c.refP2(s)
		checkInit("o.ph2", "evals", rp, re)
	}
	sym.Reach("done")
}

// CLIFails: when the operation fails, so does the command.
func CLIFails() {
	all := ops()
	o := all[1+sym.Choose("op", len(all)-1)]
	// no inputs exist
	sym.Assert(sym.RunCLI(o.args...) != nil, "a command without its input succeeded")
	sym.Reach("rejected")
}

// CLIUnknown: an unknown command does nothing.
func CLIUnknown() {
	sym.RunCLI([]string{"p1x", "P1N", "p2", "keyss", "verify"}[sym.Choose("name", 5)], "2", "o.ph1")
	sym.Assert(sym.FileLen("o.ph1") < 0, "an unknown command wrote a file")
	sym.Reach("done")
}

// P1Fresh: a contribution multiplies by three independent random secrets.
func P1Fresh() {
	n := sym.Choose("contribs", maxPower(2, 3))
	s := opSecrets()
	p := mkP1(byte(sym.Choose("power", maxPower(2, 3))+1), s.tau, s.alpha, s.beta)
	for i := 0; i < n; i++ {
		p.contribute(num(21), num(22), num(23), num(24), num(25), num(26))
	}
	p.write("i.ph1")
	k := sym.Freedom(func() [][]byte {
		sym.Assert(phase1.Contribute("i.ph1", "o.ph1") == nil, "Contribute failed on a valid file")
		q, err := readP1("o.ph1")
		must(err)
		c := q.C[n]
		return points(q.TauG1[1], q.AlphaTau[0], q.BetaTau[0], c.Tau.S, c.Alpha.S, c.Beta.S)
	})
	sym.Assert(k == 6, "the secrets of a contribution and of its proofs are not independent random numbers")
	sym.Reach("done")
}

// P2Fresh: a contribution multiplies by a random secret.
func P2Fresh() {
	n := sym.Choose("contribs", maxPower(2, 3))
	c := full(1, 1, 1, 3, sevens)
	p, _ := c.refP2(opSecrets())
	for i := 0; i < n; i++ {
		p.contribute(num(21), num(22))
	}
	p.write("i.ph2")
	k := sym.Freedom(func() [][]byte {
		sym.Assert(phase2.Contribute("i.ph2", "o.ph2") == nil, "Contribute failed on a valid file")
		q, err := readP2("o.ph2")
		must(err)
		return points(q.D1, q.C[n].K.S)
	})
	sym.Assert(k == 2, "the secrets of a contribution and of its proof are not independent random numbers")
	sym.Reach("done")
}

// ChainFresh: the secrets of successive contributions are independent.
func ChainFresh() {
	k := sym.Freedom(func() [][]byte {
		must(phase1.Initialize(1, "0.ph1"))
		sym.Assert(phase1.Contribute("0.ph1", "1.ph1") == nil, "Contribute failed on a valid file")
		sym.Assert(phase1.Contribute("1.ph1", "2.ph1") == nil, "Contribute failed on a valid file")
		a, err := readP1("1.ph1")
		must(err)
		b, err := readP1("2.ph1")
		must(err)
		x, y := a.C[0], b.C[1]
		return points(a.TauG1[1], a.AlphaTau[0], a.BetaTau[0], b.TauG1[1], b.AlphaTau[0], b.BetaTau[0],
			x.Tau.S, x.Alpha.S, x.Beta.S, y.Tau.S, y.Alpha.S, y.Beta.S)
	})
	sym.Assert(k == 12, "the secrets of contributions are not independent random numbers")
	c := full(1, 1, 1, 2, sevens)
	p, _ := c.refP2(opSecrets())
	p.write("0.ph2")
	k = sym.Freedom(func() [][]byte {
		sym.Assert(phase2.Contribute("0.ph2", "1.ph2") == nil, "Contribute failed on a valid file")
		sym.Assert(phase2.Contribute("1.ph2", "2.ph2") == nil, "Contribute failed on a valid file")
		a, err := readP2("1.ph2")
		must(err)
		b, err := readP2("2.ph2")
		must(err)
		return points(a.D1, b.D1, a.C[0].K.S, b.C[1].K.S)
	})
	sym.Assert(k == 4, "the secrets of contributions are not independent random numbers")
	sym.Reach("done")
}

// KeysFresh: the trapdoor of the commitment key is random in every extraction.
func KeysFresh() {
	p, e := opState(1 + sym.Choose("committed", 2))
	p.write("a.ph2")
	writeFile("evals", e.bytes())
	s := sym.Choose("split", 2) == 1
	k := sym.Freedom(func() [][]byte {
		var out [][]byte
		for i := 0; i < 2; i++ {
			sym.Assert(extract(s) == nil, "extraction failed on valid files")
			name := "vk"
			if s {
				name = "s.vk.save"
			}
			v, err := readVK(name)
			must(err)
			// the basis is fixed, so its image reveals the trapdoor
			out = append(out, points(v.C.Exp[0])...)
		}
		return out
	})
	sym.Assert(k == 2, "the trapdoor of the commitment key is not a fresh random number")
	sym.Reach("done")
}

// CPUs: every operation gives correct results without races on any number of
// processors.
func CPUs() {
	cpus(maxPower(19, 32))
	all := ops()
	o := all[sym.Choose("op", len(all))]
	o.prepare()
	sym.RaceDetect(true)
	sym.Assert(o.run() == nil, "an operation failed on valid files")
	sym.RaceDetect(false)
	o.check()
	sym.Reach("done")
}

func mkdir(path string) { must(os.Mkdir(path, 0o755)) }

// points are the compressed encodings of points.
func points(ps ...bn254.G1Affine) [][]byte {
	var out [][]byte
	for i := range ps {
		b := ps[i].Bytes()
		out = append(out, b[:])
	}
	return out
}

// RandFail: an operation whose source of randomness fails does not succeed.
func RandFail() {
	op := sym.Choose("op", 6)
	s := opSecrets()
	contribs := 1 + sym.Choose("contribs", 2)
	var run func() error
	switch op {
	case 0, 1:
		p := mkP1(byte(sym.Choose("power", 2)+1), s.tau, s.alpha, s.beta)
		p.write("b.ph1")
		for i := 0; i < contribs; i++ {
			p.contribute(num(21), num(22), num(23), num(24), num(25), num(26))
		}
		p.write("i.ph1")
		if op == 0 {
			run = func() error { return phase1.Contribute("i.ph1", "o.ph1") }
		} else {
			run = func() error { return phase1.Verify("i.ph1", "b.ph1") }
		}
	case 2, 3:
		c := full(1, 1, 1, 1+sym.Choose("cons", 6), sevens)
		p, _ := c.refP2(s)
		p.write("0.ph2")
		for i := 0; i < contribs; i++ {
			p.contribute(num(21), num(22))
		}
		p.write("i.ph2")
		if op == 2 {
			run = func() error { return phase2.Contribute("i.ph2", "o.ph2") }
		} else {
			run = func() error { return phase2.Verify("i.ph2", "0.ph2") }
		}
	case 4, 5:
		p, e := concState(sym.Choose("committed", 2))
		p.write("a.ph2")
		writeFile("evals", e.bytes())
		run = func() error { return extract(op == 5) }
	}
	at := sym.Choose("at", maxPower(14, 24))
	if op >= 4 {
		sym.Assume(at > 0) // the first draw ends the process
	}
	sym.RandFail(at)
	err := run()
	if sym.RandFailed() {
		sym.Assert(err != nil, "an operation succeeded without randomness")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "an operation failed")
		sym.Reach("done")
	}
}
