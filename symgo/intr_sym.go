package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = "verif/harness/sym"

var _ = os.Getenv

func (p *Path) inputName(n string) string {
	k := p.nInput[n]
	p.nInput[n]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (p *Path) addInput(in input) { p.inputs = append(p.inputs, in) }

func init() {
	S := func(name string, f func(fr *Frame, a []Value) Value) { reg(symPkg+"."+name, f) }
	newFr := func(fr *Frame, name string, nz bool) *Poly {
		p := fr.it.path
		n := p.inputName(name)
		v := p.newPVar(n, false, nz)
		p.addInput(input{name: n, kind: "fr", v: v})
		return polyVar(v)
	}
	S("Fr", func(fr *Frame, a []Value) Value { return newFr(fr, fr.str(a[0]), false) })
	S("NzFr", func(fr *Frame, a []Value) Value {
		p := newFr(fr, fr.str(a[0]), true)
		return p
	})
	// a field element known to be independent of everything else
	S("RndFr", func(fr *Frame, a []Value) Value {
		p := fr.it.path
		n := p.inputName(fr.str(a[0]))
		v := p.newPVar(n, true, true)
		return polyVar(v)
	})
	newBV := func(fr *Frame, name string, w int) *Term {
		p := fr.it.path
		n := p.inputName(name)
		t := tVar(w, fmt.Sprintf("b%d_%s", len(p.inputs), sanitize(n)))
		p.addInput(input{name: n, kind: "bv", t: t})
		return t
	}
	S("Int", func(fr *Frame, a []Value) Value {
		lo, hi := fr.concInt(a[1]), fr.concInt(a[2])
		t := newBV(fr, fr.str(a[0]), 64)
		fr.it.path.addPC(tBV("bvsle", tConst(64, uint64(lo)), t))
		fr.it.path.addPC(tBV("bvsle", t, tConst(64, uint64(hi))))
		return t
	})
	S("Byte", func(fr *Frame, a []Value) Value { return newBV(fr, fr.str(a[0]), 8) })
	S("Bool", func(fr *Frame, a []Value) Value {
		p := fr.it.path
		n := p.inputName(fr.str(a[0]))
		t := tVar(0, fmt.Sprintf("b%d_%s", len(p.inputs), sanitize(n)))
		p.addInput(input{name: n, kind: "bool", t: t})
		return t
	})
	S("Choose", func(fr *Frame, a []Value) Value {
		n := fr.concInt(a[1])
		t := newBV(fr, fr.str(a[0]), 64)
		return int64(fr.it.path.choose(t, int(n)))
	})
	S("Conc", func(fr *Frame, a []Value) Value { return fr.concInt(a[0]) })
	S("Assume", func(fr *Frame, a []Value) Value {
		fr.it.path.assume(toBoolTerm(a[0]))
		return nil
	})
	S("Assert", func(fr *Frame, a []Value) Value {
		fr.it.path.assert(toBoolTerm(a[0]), fr.showStr(a[1]))
		return nil
	})
	S("Fail", func(fr *Frame, a []Value) Value {
		fr.it.path.assert(tFalse, fr.showStr(a[0]))
		return nil
	})
	S("Reach", func(fr *Frame, a []Value) Value {
		ex := fr.it.path.ex
		ex.mu.Lock()
		ex.Reached[fr.str(a[0])]++
		ex.mu.Unlock()
		return nil
	})
	S("And", func(fr *Frame, a []Value) Value {
		t := tAnd(toBoolTerm(a[0]), toBoolTerm(a[1]))
		if t == tTrue || t == tFalse {
			return t == tTrue
		}
		return t
	})
	S("B2I", func(fr *Frame, a []Value) Value {
		switch t := toBoolTerm(a[0]); t {
		case tTrue:
			return int64(1)
		case tFalse:
			return int64(0)
		default:
			return tIte(t, tConst(64, 1), tConst(64, 0))
		}
	})
	S("SetNumCPU", func(fr *Frame, a []Value) Value { fr.it.numCPU = a[0]; return nil })
	S("Interleave", func(fr *Frame, a []Value) Value {
		fr.it.sched.choices = int(fr.concInt(a[0]))
		fr.it.sched.explore = fr.it.sched.choices > 0
		return nil
	})
	S("Slow", func(fr *Frame, a []Value) Value {
		fr.it.sched.slow()
		return nil
	})
	S("Freedom", func(fr *Frame, a []Value) Value {
		out := fr.it.call(fr, a[0], nil).(Slice)
		return int64(freedom(fr, out))
	})
	S("RaceDetect", func(fr *Frame, a []Value) Value {
		if fr.concBool(a[0]) {
			fr.it.race = newRace()
		} else {
			fr.it.race = nil
		}
		return nil
	})
	S("FileLimit", func(fr *Frame, a []Value) Value {
		fr.it.fs.limit = toTerm(a[0], 64)
		return nil
	})
	S("RandFail", func(fr *Frame, a []Value) Value {
		n := int(fr.concInt(a[0]))
		fr.it.randFail = &n
		return nil
	})
	S("RandFailed", func(fr *Frame, a []Value) Value { return fr.it.randHit })
	S("DevFull", func(fr *Frame, a []Value) Value {
		fr.it.fs.files[cleanPath(fr.str(a[0]))] = &File{dev: true}
		return nil
	})
	S("Thorough", func(fr *Frame, a []Value) Value { return fr.it.path.ex.thorough })
	S("OtherByte", func(fr *Frame, a []Value) Value {
		switch x := a[0].(type) {
		case BB:
			return BB{&Blob{kind: "other", n: 1}, 0}
		case int64:
			return int64(byte(^x))
		}
		unsupported("OtherByte of %T", a[0])
		return nil
	})
	S("Symbolic", func(fr *Frame, a []Value) Value { return true })
	S("Watch", func(fr *Frame, a []Value) Value {
		fr.it.touched = map[string]bool{}
		return nil
	})
	S("Touched", func(fr *Frame, a []Value) Value {
		var names []string
		for n := range fr.it.touched {
			names = append(names, n)
		}
		fr.it.touched = nil
		if len(names) == 0 {
			return ""
		}
		sort.Strings(names)
		p := fr.it.path
		n := p.inputName("touched")
		s := names[p.choose(newBV(fr, "touched-index", 64), len(names))]
		p.addInput(input{name: n, kind: "str", s: s})
		return s
	})
	S("FileLen", func(fr *Frame, a []Value) Value {
		f := fr.it.fs.files[fr.it.fs.res(fr.str(a[0]))]
		if f == nil {
			return int64(-1)
		}
		return f.data.size()
	})
	// OffCurve returns an encoding of the right length that is not a point.
	S("OffCurve", func(fr *Frame, a []Value) Value {
		g, c := fr.concInt(a[0]), fr.concBool(a[1])
		b := fr.it.ptBlob(&Pt{g: int(g), d: polyZero}, c)
		b.tag = "offcurve"
		return Slice(b.cells())
	})
	// BadSubgroup returns an encoding of a G2 point outside the subgroup.
	S("BadSubgroup", func(fr *Frame, a []Value) Value {
		c := fr.concBool(a[0])
		return Slice(fr.it.ptBlob(&Pt{g: 2, d: polyZero, badSG: true}, c).cells())
	})
	S("StdoutHasHex", func(fr *Frame, a []Value) Value {
		want := hexCells(a[0].(Slice))
		out := fr.it.stdout
		var alts []*Term
		for i := 0; i+len(want) <= len(out); i++ {
			if t := fr.it.eqCells(out[i:i+len(want)], want); t != tFalse {
				alts = append(alts, t)
			}
		}
		return boolVal(tOr(alts...))
	})
	S("StdoutReset", func(fr *Frame, a []Value) Value { fr.it.stdout = nil; return nil })
	S("RunCLI", func(fr *Frame, a []Value) Value {
		var args []string
		args = append(args, "setup")
		fr.it.cliArgs = a[0].(Slice)
		fr.it.args = args
		mp := fr.it.ld.pkg(modPath)
		fr.it.ld.build(mp)
		var res Value = nilErr
		func() {
			defer func() {
				if r := recover(); r != nil {
					if x, ok := r.(targetExit); ok {
						if x.code != 0 {
							res = fr.errf("exit status %d", x.code)
						}
						return
					}
					panic(r)
				}
			}()
			fr.it.callSSA(fr, mp.Func("main"), nil, nil)
		}()
		return res
	})

	// ---- urfave/cli
	C := "github.com/urfave/cli/v2"
	field := func(st *types.Struct, name string) int {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return i
			}
		}
		unsupported("cli field %s", name)
		return -1
	}
	run := func(fr *Frame, a []Value) Value {
		it := fr.it
		p := it.ld.pkg(C)
		appT := p.Type("App").Type().Underlying().(*types.Struct)
		cmdT := p.Type("Command").Type().Underlying().(*types.Struct)
		app := fr.ldv(a[0]).(Struct)
		if len(it.cliArgs) == 0 {
			return nilErr
		}
		cmds := app[field(appT, "Commands")].(Slice)
		name := fr.str(it.cliArgs[0])
		for _, c := range cmds {
			cmd := fr.ldv(c).(Struct)
			if cmd[field(cmdT, "Name")].(string) != name {
				continue
			}
			ctxT := p.Type("Context").Type()
			ctx := newCell(zero(ctxT))
			it.side[ctx] = Slice(it.cliArgs[1:])
			before := cmd[field(cmdT, "Before")]
			if f, ok := before.(*ssa.Function); !ok || f != nil {
				r := it.call(fr, before, []Value{ctx})
				if isErr(r) {
					return r
				}
			}
			return it.call(fr, cmd[field(cmdT, "Action")], []Value{ctx})
		}
		return fr.errf("No help topic for '%s'", name)
	}
	reg("(*"+C+".App).Run", run)
	reg("(*"+C+".App).RunContext", func(fr *Frame, a []Value) Value { return run(fr, []Value{a[0]}) })
	reg("(*"+C+".Context).Args", func(fr *Frame, a []Value) Value {
		t := fr.it.ld.pkg(C).Type("args")
		s, _ := fr.it.side[fr.deref(a[0])].(Slice)
		return Iface{t: types.NewPointer(t.Type()), v: newCell(s)}
	})
	reg("(*"+C+".Context).NArg", func(fr *Frame, a []Value) Value {
		s, _ := fr.it.side[fr.deref(a[0])].(Slice)
		return int64(len(s))
	})
	reg(C+".Exit", func(fr *Frame, a []Value) Value { return fr.errf("exit") })
}

func (fr *Frame) showStr(v Value) string {
	if s, ok := v.(string); ok {
		return s
	}
	return cellsShow(strCells(v))
}

// freedom is the number of encoded points that can be matched with distinct
// full-size random draws of the code under test they depend on.
func freedom(fr *Frame, out Slice) int {
	deps := make([][]int, len(out))
	for i, x := range out {
		b, ok := x.(Slice)
		if !ok || len(b) == 0 || !sameBlob(b) || b[0].(BB).b.pt == nil {
			if _, ok := concreteBytes(b); ok {
				continue
			}
			unsupported("degrees of freedom of bytes that are not a point")
		}
		seen := map[int]bool{}
		for _, t := range b[0].(BB).b.pt.d.t {
			for _, e := range t.m {
				if e.v.indet && strings.Contains(e.v.name, "_rnd") && !seen[e.v.id] {
					seen[e.v.id] = true
					deps[i] = append(deps[i], e.v.id)
				}
			}
		}
	}
	match := map[int]int{}
	var try func(i int, seen map[int]bool) bool
	try = func(i int, seen map[int]bool) bool {
		for _, v := range deps[i] {
			if seen[v] {
				continue
			}
			seen[v] = true
			if j, ok := match[v]; !ok || try(j, seen) {
				match[v] = i
				return true
			}
		}
		return false
	}
	n := 0
	for i := range deps {
		if try(i, map[int]bool{}) {
			n++
		}
	}
	return n
}
