package h

import (
	"bytes"
	"errors"
	"os"
	"sync"
	"time"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"verif/harness/sym"
)

// againData are inputs of the same names: of two sizes, and of the same size
// with other values.
func againData(k int) opData {
	coeff := func(n int) func(string) fr.Element {
		return func(string) fr.Element { return num(n) }
	}
	switch k {
	case 0:
		return opData{symSecrets(), 2, full(1, 1, 1, 3, coeff(7)), 1, 0}
	case 1:
		return opData{symSecrets(), 2, full(1, 1, 1, 3, coeff(9)), 1, 200}
	case 2:
		return opData{symSecrets(), 3, full(2, 1, 2, 5, coeff(8)), 2, 100}
	case 3:
		return opData{symSecrets(), 3, full(1, 2, 0, 2, coeff(5)), 0, 300}
	default:
		return opData{symSecrets(), 2, full(1, 1, 1, 3, coeff(6)), 0, 400}
	}
}

// againOps are the operations on such inputs, and verifications that must fail.
func againOps(k int) []op {
	d := againData(k)
	all := opsOn(d)
	fails := func(name string, prepare func(), run func() error) op {
		return op{name: name, prepare: prepare, run: func() error {
			if run() == nil {
				return errors.New("a wrong file was accepted")
			}
			return nil
		}, check: func() {}}
	}
	honest := func() *p1 {
		p := mkP1(d.power, num(1), num(1), num(1))
		p.contribute(d.s.tau, d.s.alpha, d.s.beta, num(8), num(9), num(10))
		return p
	}
	return append(all,
		fails("p1v of wrong parameters", func() {
			p := honest()
			p.AlphaTau[1] = p.AlphaTau[2]
			sym.Assume(!eq(d.s.tau, num(1)))
			p.write("i.ph1")
		}, func() error { return phase1.Verify("i.ph1", "") }),
		fails("p1v on another base", func() {
			o := mkP1(d.power, d.s.tau, d.s.alpha, d.s.beta)
			p := mkP1(d.power, d.s.tau, d.s.alpha, d.s.beta)
			o.TauG1[1] = G1(mul(d.s.tau, d.s.tau))
			sym.Assume(!eq(d.s.tau, num(1)))
			o.write("t.ph1")
			p.contribute(num(13), num(14), num(15), num(8), num(9), num(10))
			p.write("i.ph1")
		}, func() error { return phase1.Verify("i.ph1", "t.ph1") }),
		fails("p2v on another origin", func() {
			p, _ := d.c.refP2(d.s)
			p.write("t.ph2")
			p.contribute(num(11), num(12))
			sym.Assume(!p.PKK[0].IsInfinity())
			p.PKK[0] = mulG1(p.PKK[0], num(3))
			p.write("i.ph2")
		}, func() error { return phase2.Verify("i.ph2", "t.ph2") }),
		fails("p1t to a larger power", func() { mkP1(1, d.s.tau, d.s.alpha, d.s.beta).write("big") },
			func() error { return phase1.Transform("big", "o.ph1", 1, 2) }),
	)
}

// cut removes the second half of a file.
func cut(path string) {
	b := readFile(path)
	writeFile(path, b[:len(b)/2])
}

// Again: what an operation does depends on its inputs, not on what was done
// before it by the same process or in the same directory.
func Again() {
	n := len(ops()) + 4
	data := [][2]int{{2, 4}, {0, 1}, {3, 1}, {2, 1}, {4, 2}}[sym.Choose("data", maxPower(2, 5))]
	first := againOps(data[0])[sym.Choose("op", n)]
	first.prepare()
	if len(first.inputs) > 0 && sym.Choose("damaged", 2) == 1 {
		cut(first.inputs[len(first.inputs)-1])
		first.run()
	} else {
		sym.Assert(first.run() == nil, "the first operation failed")
	}
	second := againOps(data[1])[sym.Choose("op", n)]
	second.prepare()
	if len(second.outputs) > 0 && len(second.inputs) > 0 && sym.Choose("dated", 2) == 1 {
		old := time.Now().Add(-time.Hour)
		for _, f := range second.inputs {
			must(os.Chtimes(f, old, old))
		}
	}
	sym.Assert(second.run() == nil, "an operation failed after another one")
	second.check()
	sym.Reach("done")
}

// Beside: operations on different files do not disturb each other.
func Beside() {
	jobs := func(pre string, power byte) []func() func() {
		s := symSecrets()
		in, out := pre+"i", pre+"o"
		p := mkP1(power, s.tau, s.alpha, s.beta)
		one := func() *p2 {
			p, _ := full(1, 1, 1, 1<<power-1, sevens).refP2(s)
			return p
		}
		return []func() func(){
			func() func() {
				sym.Assert(phase1.Initialize(power, out) == nil, "an operation failed beside another one")
				return func() {
					sym.Assert(bytes.Equal(mkP1(power, num(1), num(1), num(1)).bytes(), readFile(out)), "another result beside another operation")
				}
			},
			func() func() {
				p.write(in)
				sym.Assert(phase1.Contribute(in, out) == nil, "an operation failed beside another one")
				return func() {
					q, err := readP1(out)
					sym.Assert(err == nil, "another result beside another operation")
					checkUpdate(p, q)
				}
			},
			func() func() {
				p.write(in)
				q := mkP1(power, s.tau, s.alpha, s.beta)
				q.contribute(num(13), num(14), num(15), num(8), num(9), num(10))
				q.write(out)
				sym.Assert(phase1.Verify(out, in) == nil, "an operation failed beside another one")
				return func() {}
			},
			func() func() {
				one().write(in)
				sym.Assert(phase2.Contribute(in, out) == nil, "an operation failed beside another one")
				return func() {
					q, err := readP2(out)
					sym.Assert(err == nil, "another result beside another operation")
					checkUpdate2(one(), q)
				}
			},
			func() func() {
				p := one()
				p.write(in)
				p.contribute(num(11), num(12))
				p.write(out)
				sym.Assert(phase2.Verify(out, in) == nil, "an operation failed beside another one")
				return func() {}
			},
		}
	}
	a := jobs("a", 2)[sym.Choose("op", 5)]
	b := jobs("b", byte(sym.Choose("power", 2)+2))[sym.Choose("op", 5)]
	var checks [2]func()
	var wg sync.WaitGroup
	wg.Add(2)
	sym.RaceDetect(true)
	go func() { checks[0] = a(); wg.Done() }()
	go func() { checks[1] = b(); wg.Done() }()
	wg.Wait()
	sym.RaceDetect(false)
	checks[0]()
	checks[1]()
	sym.Reach("done")
}
