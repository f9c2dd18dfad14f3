package main

import (
	"errors"
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"
	"text/template"

	"golang.org/x/tools/go/ssa"
)

// The export of the Solidity verifier. gnark's own template, as it is in the
// source that is loaded, is executed on a copy of the key whose coordinates are
// marks, which then become the coordinates of the (symbolic) points.

const pGroth = "github.com/consensys/gnark/internal/backend/bn254/groth16"

type solStr string

func (s solStr) String() string { return string(s) }

type solE2 struct{ A0, A1 solStr }
type solP1 struct{ X, Y solStr }
type solP2 struct{ X, Y solE2 }
type solKey struct {
	G1 struct {
		Alpha, Beta, Delta solP1
		K                  []solP1
	}
	G2 struct{ Beta, Delta, Gamma solP2 }
}

type solWriter func(p []byte) (int, error)

func (w solWriter) Write(p []byte) (int, error) { return w(p) }

func init() {
	reg("(*"+pGroth+".VerifyingKey).ExportSolidity", func(fr *Frame, a []Value) Value {
		pkg := fr.it.ld.pkg(pGroth)
		c, ok := pkg.Members["solidityTemplate"].(*ssa.NamedConst)
		if !ok {
			unsupported("ExportSolidity without a template")
		}
		vk := fr.ldv(a[0]).(Struct)
		vt := pkg.Type("VerifyingKey").Type().Underlying().(*types.Struct)
		field := func(v Struct, t *types.Struct, name string) (Value, types.Type) {
			for i := 0; i < t.NumFields(); i++ {
				if t.Field(i).Name() == name {
					return v[i], t.Field(i).Type()
				}
			}
			unsupported("ExportSolidity of a key without %s", name)
			return nil, nil
		}
		var toks []CoordTok
		mark := func(t CoordTok) solStr {
			toks = append(toks, t)
			return solStr(fmt.Sprintf("\x01%d\x02", len(toks)-1))
		}
		p1 := func(v Value) solP1 {
			p := v.(*Pt)
			return solP1{mark(CoordTok{p, 0, 0}), mark(CoordTok{p, 1, 0})}
		}
		p2 := func(v Value) solP2 {
			p := v.(*Pt)
			return solP2{solE2{mark(CoordTok{p, 0, 1}), mark(CoordTok{p, 0, 2})}, solE2{mark(CoordTok{p, 1, 1}), mark(CoordTok{p, 1, 2})}}
		}
		var k solKey
		g1, t1 := field(vk, vt, "G1")
		g2, t2 := field(vk, vt, "G2")
		f1 := func(n string) Value { v, _ := field(g1.(Struct), t1.Underlying().(*types.Struct), n); return v }
		f2 := func(n string) Value { v, _ := field(g2.(Struct), t2.Underlying().(*types.Struct), n); return v }
		k.G1.Alpha, k.G1.Beta, k.G1.Delta = p1(f1("Alpha")), p1(f1("Beta")), p1(f1("Delta"))
		for _, x := range f1("K").(Slice) {
			k.G1.K = append(k.G1.K, p1(x))
		}
		k.G2.Beta, k.G2.Delta, k.G2.Gamma = p2(f2("Beta")), p2(f2("Delta")), p2(f2("Gamma"))
		tmpl, err := template.New("").Funcs(template.FuncMap{"sub": func(a, b int) int { return a - b }}).Parse(constant.StringVal(c.Value.Value))
		if err != nil {
			return fr.it.mkError(err.Error())
		}
		w := a[1].(Iface)
		if w.t == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		var werr Value
		stop := errors.New("write")
		err = tmpl.Execute(solWriter(func(p []byte) (int, error) {
			var cells []Value
			for s := string(p); s != ""; {
				i := strings.IndexByte(s, 1)
				if i < 0 {
					cells = append(cells, strCells(s)...)
					break
				}
				cells = append(cells, strCells(s[:i])...)
				j := strings.IndexByte(s, 2)
				n, _ := strconv.Atoi(s[i+1 : j])
				cells = append(cells, toks[n])
				s = s[j+1:]
			}
			r := fr.it.call(fr, fr.it.method(w.t, nil, "Write"), []Value{w.v, Slice(cells)}).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				werr = e
				return 0, stop
			}
			return len(p), nil
		}), &k)
		if werr != nil {
			return werr
		}
		if err != nil {
			return fr.it.mkError(err.Error())
		}
		return nilErr
	})
}
