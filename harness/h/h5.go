package h

import (
	"bytes"
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/constraint/lazy"
	"verif/harness/sym"
)

// lazyCirc is a circuit some of whose constraints are instances of a template:
// instance i is the template with all wires but the constant moved by
// shift[i], except for its first constraints, which are given.
type lazyCirc struct {
	circ     // the plain constraints
	template [][3][]term
	shift    []int
	inputs   [][][3][]term
}

const lazyKey = "poseidon-params-3"

// expand is the plain circuit meant by c.
func (c *lazyCirc) expand() *circ {
	r := c.circ
	r.cons = append([][3][]term{}, c.cons...)
	for i := range c.shift {
		for j := range c.template {
			if j < len(c.inputs[i]) {
				r.cons = append(r.cons, c.inputs[i][j])
				continue
			}
			var k [3][]term
			for x := range k {
				for _, t := range c.template[j][x] {
					if t.wire != 0 {
						t.wire += c.shift[i]
					}
					k[x] = append(k[x], t)
				}
			}
			r.cons = append(r.cons, k)
		}
	}
	return &r
}

func (c *lazyCirc) r1cs() *cs_bn254.R1CS {
	r := c.circ.r1cs(false)
	conv := func(k [3][]term) constraint.R1C {
		var e [3]constraint.LinearExpression
		for i := range k {
			for _, t := range k[i] {
				r.Coefficients = append(r.Coefficients, t.c)
				e[i] = append(e[i], constraint.Term{CID: uint32(len(r.Coefficients) - 1), VID: uint32(t.wire)})
			}
		}
		return constraint.R1C{L: e[0], R: e[1], O: e[2]}
	}
	var st []constraint.R1C
	for _, k := range c.template {
		st = append(st, conv(k))
	}
	r.StaticConstraints = map[string]constraint.StaticConstraints{lazyKey: {StaticR1CS: st, End: len(st)}}
	r.LazyConsMap = map[int]constraint.LazyIndexedInputs{}
	n := len(r.Constraints)
	for i, s := range c.shift {
		var in []constraint.R1C
		for _, k := range c.inputs[i] {
			in = append(in, conv(k))
		}
		r.LazyCons = append(r.LazyCons, &lazy.GeneralLazyInputs{Loc: n, Shift: s, ParamsNum: 3, InputConstraints: in, ConstraintsNum: len(st), Key: lazyKey})
		for j := range st {
			r.LazyConsMap[n] = constraint.LazyIndexedInputs{Index: j, LazyIndex: i}
			n++
		}
	}
	return r
}

// chooseLazy: up to two instances of a template of one or two constraints.
func chooseLazy() *lazyCirc { return chooseLazyOf(sym.Fr) }

func chooseLazyOf(coeff func(string) fr.Element) *lazyCirc {
	c := &lazyCirc{circ: *full(1+sym.Choose("pub", 2), 1, 3, sym.Choose("plain", 3), coeff)}
	base := c.pub + c.sec
	// the template is over the constant and the first two wires after the inputs
	for j := sym.Choose("template", 2); j >= 0; j-- {
		var k [3][]term
		for x := range k {
			k[x] = []term{{0, coeff("c")}, {base, coeff("c")}, {base + 1, coeff("c")}}
		}
		c.template = append(c.template, k)
	}
	for i := sym.Choose("instances", 2); i >= 0; i-- {
		c.shift = append(c.shift, i)
		var in [][3][]term
		for j := sym.Choose("inputs", len(c.template)+1); j > 0; j-- {
			in = append(in, [3][]term{{{1, coeff("c")}}, {{base + i, coeff("c")}}, {{0, coeff("c")}}})
		}
		c.inputs = append(c.inputs, in)
	}
	return c
}

// LazyInit: lazy constraints count like the plain ones they stand for.
func LazyInit() {
	c := chooseLazy()
	s := symSecrets()
	s.writeP1("in.ph1", 3)
	writeR1CS("c.r1cs", c.r1cs())
	sym.Assert(phase2.Initialize("in.ph1", "c.r1cs", "0.ph2") == nil, "Initialize failed on a valid circuit")
	rp, re := c.expand().refP2(s)
	checkInit("0.ph2", "evals", rp, re)
	sym.Reach("done")
}

func split(r *cs_bn254.R1CS, batch int) {
	must(r.SplitDumpBinary("s", batch))
}

// bothWays initializes from the whole and from the split constraint system.
func bothWays(mk func() *cs_bn254.R1CS, e *circ, power, n, batch int) {
	s := symSecrets()
	s.writeP1("in.ph1", byte(power))
	writeR1CS("c.r1cs", mk())
	split(mk(), batch)
	b := readFile("in.ph1")
	sym.Assert(phase2.InitializeFromPartedR1CS("in.ph1", "s", "p.ph2", len(e.cons), n, batch) == nil, "the parted Initialize failed on a valid circuit")
	sym.Assert(bytes.Equal(b, readFile("in.ph1")), "the parted Initialize changed its input file")
	rp, re := e.refP2(s)
	checkInit("p.ph2", "evals", rp, re)
	parted, ev := readFile("p.ph2"), readFile("evals")
	sym.Assert(phase2.Initialize("in.ph1", "c.r1cs", "w.ph2") == nil, "Initialize failed on a valid circuit")
	sym.Assert(bytes.Equal(parted, readFile("w.ph2")), "the parted and the whole circuit give different phase 2 files")
	sym.Assert(bytes.Equal(ev, readFile("evals")), "the parted and the whole circuit give different evaluations")
	sym.Reach("done")
}

// PartedInit: every circuit shape and batch size.
func PartedInit() {
	power := maxPower(3, 4)
	n := sym.Choose("cons", (1<<power)+1)
	c := dense(1+sym.Choose("pub", 2), sym.Choose("sec", 2), sym.Choose("int", 2), n)
	bothWays(func() *cs_bn254.R1CS { return c.r1cs(false) }, c, power, n, sym.Choose("batch", n+1)+1)
}

// PartedCommit: circuits with commitments.
func PartedCommit() {
	c := dense(1+sym.Choose("pub", 2), 1+sym.Choose("sec", 2), 1+sym.Choose("int", 2), 1)
	chooseCommitment(c)
	bothWays(func() *cs_bn254.R1CS { return c.r1cs(false) }, c, 1, 1, 1)
}

// PartedLazyInit: circuits with lazy constraints.
func PartedLazyInit() {
	c := chooseLazy()
	bothWays(c.r1cs, c.expand(), 3, len(c.cons), sym.Choose("batch", 2)+1)
}

// PartedSparse: every placement of one term.
func PartedSparse() {
	c := &circ{pub: 1, sec: 1, internal: 1}
	n := sym.Choose("cons", 4) + 1
	j, i, w := sym.Choose("at", n), sym.Choose("row", 3), sym.Choose("wire", 3)
	for k := 0; k < n; k++ {
		var x [3][]term
		if k == j {
			x[i] = []term{{w, sym.Fr("c")}}
		}
		c.cons = append(c.cons, x)
	}
	bothWays(func() *cs_bn254.R1CS { return c.r1cs(true) }, c, 3, n, 2)
}

// PartedSizes: coefficients at the limits of machine numbers, and negated.
func PartedSizes() {
	x := boundary(sym.Choose("size", 56))
	if sym.Choose("sign", 2) == 1 {
		x.Neg(&x)
	}
	c := &circ{pub: 1, sec: 1, internal: 1}
	c.cons = append(c.cons,
		[3][]term{{{0, x}}, {{1, num(3)}, {1, x}}, {{2, x}}},
		[3][]term{{{2, num(4)}}, {{0, x}}, {{0, num(5)}, {1, x}}})
	bothWays(func() *cs_bn254.R1CS { return c.r1cs(true) }, c, 1, 2, 1)
}

// PartedArgs: wrong numbers are errors, never panics or other parameters.
func PartedArgs() {
	n := 3
	c := full(1, 1, 1, n, func(string) (r fr.Element) { return num(7) })
	sec := secrets{num(5), num(6), num(7)}
	sec.writeP1("in.ph1", 2)
	split(c.r1cs(false), 2)
	vals := []int{3, 0, 1, 2, 4, 5, -1, 1 << 40, -1 << 62}
	nc := vals[sym.Choose("cons", len(vals))]
	nr := vals[sym.Choose("r1c", len(vals))]
	batch := []int{2, 0, 1, 3, -1, 1 << 40, 1<<63 - 1}[sym.Choose("batch", 7)]
	session := []string{"s", "t", "nodir/s"}[sym.Choose("session", 3)]
	err := phase2.InitializeFromPartedR1CS("in.ph1", session, "p.ph2", nc, nr, batch)
	if session == "s" && nc == n && nr == n && batch == 2 {
		sym.Assert(err == nil, "the parted Initialize failed on a valid circuit")
		sym.Reach("accepted")
		return
	}
	// the first two constraints happen to be a part of their own
	if session == "s" && nc == 2 && nr == 2 && batch >= 2 {
		return
	}
	if session == "s" && nc == 0 && nr == 0 && batch >= 1 {
		return
	}
	sym.Assert(err != nil, "the parted Initialize succeeded with wrong arguments")
	sym.Reach("rejected")
}

// PartedMissing: a missing part is an error.
func PartedMissing() {
	c := full(1, 1, 1, 3, func(string) (r fr.Element) { return num(7) })
	sec := secrets{num(5), num(6), num(7)}
	sec.writeP1("in.ph1", 2)
	split(c.r1cs(false), 2)
	gone := []string{"s.r1cs.E11.save", "s.r1cs.E1.save", "s.r1cs.E2.save", "s.r1cs.E3.save", "s.r1cs.E4.save", "s.r1cs.Cons.0.2.save", "s.r1cs.Cons.2.3.save", "in.ph1"}
	must(os.Remove(gone[sym.Choose("missing", len(gone))]))
	sym.Assert(phase2.InitializeFromPartedR1CS("in.ph1", "s", "p.ph2", 3, 3, 2) != nil, "the parted Initialize succeeded without an input")
	sym.Reach("rejected")
}

// PartedTooLarge: circuits beyond the capacity of phase 1 are errors.
func PartedTooLarge() {
	power := sym.Choose("power", 3) + 1
	n := sym.Choose("cons", 12)
	c := full(1, 1, 1, n, func(string) (r fr.Element) { return num(7) })
	sec := secrets{num(5), num(6), num(7)}
	sec.writeP1("in.ph1", byte(power))
	split(c.r1cs(false), 4)
	err := phase2.InitializeFromPartedR1CS("in.ph1", "s", "p.ph2", n, n, 4)
	if n > 1<<power {
		sym.Assert(err != nil, "a circuit beyond the capacity of phase 1 was accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(err == nil, "a circuit within the capacity of phase 1 was rejected")
	sym.Reach("accepted")
}

// PartedSame: the output never destroys the input.
func PartedSame() {
	c := full(1, 1, 1, 3, func(string) (r fr.Element) { return num(7) })
	sec := secrets{num(5), num(6), num(7)}
	sec.writeP1("in.ph1", 2)
	split(c.r1cs(false), 2)
	b := readFile("in.ph1")
	out := []string{"in.ph1", "./in.ph1"}[sym.Choose("path", 2)]
	err := phase2.InitializeFromPartedR1CS("in.ph1", "s", out, 3, 3, 2)
	sym.Assert(err != nil, "the parted Initialize overwrote its input")
	sym.Assert(bytes.Equal(b, readFile("in.ph1")), "the parted Initialize changed its input file")
	sym.Reach("refused")
}
