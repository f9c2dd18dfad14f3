package h

import (
	"bytes"
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"verif/harness/sym"
)

// alias makes the file at input reachable as output, in one of four ways, and
// returns the path under which the operation gets it as input.
func alias(input, output string) string {
	switch sym.Choose("way", 4) {
	case 0:
		must(os.Rename(input, output))
		return output
	case 1:
		must(os.Rename(input, output))
		return "./" + output
	case 2:
		must(os.Link(input, output))
	case 3:
		must(os.Symlink(input, output))
	}
	return input
}

// partNames are the files of a circuit of three constraints in parts of two.
var partNames = []string{"s.r1cs.E11.save", "s.r1cs.E1.save", "s.r1cs.E2.save", "s.r1cs.E3.save", "s.r1cs.E4.save", "s.r1cs.Cons.0.2.save", "s.r1cs.Cons.2.3.save"}

var splitNames = []string{"z.pk.E.save", "z.pk.A.save", "z.pk.B1.save", "z.pk.Z.save", "z.pk.K.save", "z.pk.B2.save", "z.pk.CommitmentKey.save", "z.vk.save"}

// keeps runs f and asserts that the given files do not change.
func keeps(paths []string, f func() error) error {
	var before [][]byte
	for _, p := range paths {
		before = append(before, readFile(p))
	}
	err := f()
	for i, p := range paths {
		after, e := os.ReadFile(p)
		sym.Assert(e == nil && bytes.Equal(before[i], after), "an operation changed one of its input files")
	}
	return err
}

// IOAlias: no operation destroys an input, even if the input is also the file
// that the operation writes.
func IOAlias() {
	all := ops()
	prepare := func(i int) { all[i].prepare() }
	var err error
	switch sym.Choose("case", 10) {
	case 0:
		prepare(1)
		in := alias("i.ph1", "o.ph1")
		err = keeps([]string{in}, func() error { return phase1.Contribute(in, "o.ph1") })
	case 1:
		prepare(2)
		in := alias("big", "o.ph1")
		err = keeps([]string{in}, func() error { return phase1.Transform(in, "o.ph1", 3, 2) })
	case 2:
		prepare(3)
		in := alias("i.ph1", []string{"o.ph2", "srs.lag", "evals"}[sym.Choose("output", 3)])
		err = keeps([]string{in, "c.r1cs"}, func() error { return phase2.Initialize(in, "c.r1cs", "o.ph2") })
	case 3:
		prepare(3)
		in := alias("c.r1cs", []string{"o.ph2", "srs.lag", "evals"}[sym.Choose("output", 3)])
		err = keeps([]string{"i.ph1", in}, func() error { return phase2.Initialize("i.ph1", in, "o.ph2") })
	case 4:
		prepare(4)
		in := alias("i.ph1", []string{"o.ph2", "srs.lag", "evals"}[sym.Choose("output", 3)])
		err = keeps(append(partNames, in), func() error { return phase2.InitializeFromPartedR1CS(in, "s", "o.ph2", 3, 3, 2) })
	case 5:
		prepare(4)
		part := partNames[sym.Choose("part", len(partNames))]
		out := []string{part, "./" + part, "l"}[sym.Choose("way", 3)]
		if out == "l" {
			must(os.Symlink(part, out))
		}
		err = keeps(append(partNames, "i.ph1"), func() error { return phase2.InitializeFromPartedR1CS("i.ph1", "s", out, 3, 3, 2) })
	case 6:
		prepare(5)
		in := alias("i.ph2", "o.ph2")
		err = keeps([]string{in}, func() error { return phase2.Contribute(in, "o.ph2") })
	case 7:
		prepare(6)
		in := alias("a.ph2", []string{"pk", "vk"}[sym.Choose("output", 2)])
		err = keeps([]string{in, "evals"}, func() error { return keys.ExtractKeys(in) })
	case 8:
		prepare(7)
		in := alias("a.ph2", splitNames[sym.Choose("output", 8)])
		err = keeps([]string{in, "evals"}, func() error { return keys.ExtractSplitKeys(in, "z") })
	case 9:
		prepare(8)
		if sym.Choose("way", 2) == 0 {
			must(os.Symlink("s.vk.save", "s.sol"))
		} else {
			must(os.Link("s.vk.save", "s.sol"))
		}
		err = keeps([]string{"s.vk.save"}, func() error { return keys.ExportSol("s") })
	}
	sym.Assert(err != nil, "success is reported although an output is the input")
	sym.Reach("refused")
}

// IOCollide: when two outputs of an operation are the same file, it fails.
func IOCollide() {
	i := 3 + sym.Choose("op", 2)
	ops()[i].prepare()
	out := []string{"srs.lag", "evals", "./evals", "l"}[sym.Choose("output", 4)]
	if out == "l" {
		must(os.Symlink("srs.lag", "l"))
	}
	var err error
	if i == 3 {
		err = phase2.Initialize("i.ph1", "c.r1cs", out)
	} else {
		err = phase2.InitializeFromPartedR1CS("i.ph1", "s", out, 3, 3, 2)
	}
	sym.Assert(err != nil, "success is reported although two outputs are the same file")
	sym.Reach("refused")
}

// IOMissing: an operation without one of its inputs, or with a directory
// instead, fails, creates no input and keeps the others.
func IOMissing() {
	all := ops()
	i := 1 + sym.Choose("op", len(all)-1)
	o := all[i]
	o.prepare()
	k := sym.Choose("input", len(o.inputs))
	gone := o.inputs[k]
	must(os.Remove(gone))
	dir := sym.Choose("directory", 2) == 1
	var rest []string
	for j, p := range o.inputs {
		if j != k {
			rest = append(rest, p)
		}
	}
	if dir {
		mkdir(gone)
		if o.name == "p2np" {
			return // gnark's loader panics on unreadable parts
		}
	}
	err := keeps(rest, o.run)
	sym.Assert(err != nil, "success is reported although an input is missing")
	if !dir {
		_, err = os.Stat(gone)
		sym.Assert(err != nil, "an operation created its missing input")
	}
	sym.Reach("failed")
}

// IOKeep: no operation changes its inputs, whether it succeeds or its outputs
// cannot be written.
func IOKeep() {
	all := ops()
	o := all[sym.Choose("op", len(all))]
	o.prepare()
	switch sym.Choose("fault", 3) {
	case 1:
		sym.FileLimit(int64(sym.Int("limit", 0, 20000)))
	case 2:
		if len(o.outputs) == 0 {
			return
		}
		sym.DevFull(o.outputs[sym.Choose("output", len(o.outputs))])
	}
	err := keeps(o.inputs, o.run)
	if err == nil {
		sym.Reach("done")
	} else {
		sym.Reach("failed")
	}
}
