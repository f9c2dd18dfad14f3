package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

const tokADD = token.ADD

var intrinsics = map[string]func(fr *Frame, a []Value) Value{}
var nativeMethods = map[string]*Native{}

func reg(name string, f func(fr *Frame, a []Value) Value) { intrinsics[name] = f }

func (fr *Frame) deref(p Value) *Value {
	c, ok := p.(*Value)
	if !ok {
		unsupported("pointer expected, got %T in %s", p, fr.where())
	}
	if c == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	return c
}

func (fr *Frame) ldv(p Value) Value {
	c := fr.deref(p)
	if fr.it.race != nil {
		fr.it.race.read(fr, c)
	}
	return *c
}

func (fr *Frame) stv(p Value, v Value) {
	c := fr.deref(p)
	if fr.it.race != nil {
		fr.it.race.write(fr, c)
	}
	*c = v
}

func (fr *Frame) poly(p Value) *Poly {
	v, ok := fr.ldv(p).(*Poly)
	if !ok {
		unsupported("field element expected in %s", fr.where())
	}
	return v
}

func (fr *Frame) pt(p Value) *Pt {
	v, ok := fr.ldv(p).(*Pt)
	if !ok {
		unsupported("curve point expected in %s", fr.where())
	}
	if v.badSG {
		return v
	}
	return v
}

// bigv reads a *big.Int.
func (fr *Frame) bigv(p Value) *Big {
	v, ok := fr.ldv(p).(*Big)
	if !ok {
		unsupported("big.Int expected in %s", fr.where())
	}
	return v
}

func (b *Big) poly() *Poly {
	if b.p != nil {
		return b.p
	}
	return polyBig(b.c)
}

func newCell(v Value) *Value {
	c := new(Value)
	*c = v
	return c
}

func (it *Interp) mkErr(msg string) Value { return it.mkError(msg) }

// mkError builds an error value of type *errors.errorString.
func (it *Interp) mkError(msg string) Value {
	p := it.ld.pkg("errors")
	t := p.Type("errorString")
	return Iface{t: types.NewPointer(t.Type()), v: newCell(Struct{msg})}
}

func (it *Interp) mkErrorV(msg Value) Value {
	p := it.ld.pkg("errors")
	t := p.Type("errorString")
	return Iface{t: types.NewPointer(t.Type()), v: newCell(Struct{msg})}
}

var nilErr = Iface{}

// inverse of a field element
func (fr *Frame) inv(x *Poly) *Poly {
	if c, ok := x.isConst(); ok {
		c.Inverse(&c)
		return polyConst(c)
	}
	if fr.it.path.branch(ffZero(x)) {
		return polyZero
	}
	if r, ok := x.monoInverse(); ok {
		return r
	}
	// a fresh variable constrained to be the inverse
	for _, t := range x.t {
		for _, e := range t.m {
			if e.v.indet {
				unsupported("inverse of a compound random expression in %s", fr.where())
			}
		}
	}
	y := fr.it.path.newPVar("inv", false, true)
	fr.it.path.addPC(ffZero(x.mul(polyVar(y)).sub(polyInt(1))))
	return polyVar(y)
}

func (it *Interp) random(what string) *Poly {
	it.nrand++
	return polyVar(it.path.newPVar(fmt.Sprintf("rnd%d_%s", it.nrand, what), true, true))
}

// weak is a value that is not known to be random.
func (it *Interp) weak(what string) *Poly {
	it.nrand++
	return polyVar(it.path.newPVar(fmt.Sprintf("weak%d_%s", it.nrand, what), false, false))
}

const weakPrefix = "weak!"

func weakTerm(t *Term) bool {
	vars := map[string]int{}
	ff := false
	t.collect(vars, map[*PVar]bool{}, &ff)
	for n := range vars {
		if strings.HasPrefix(n, weakPrefix) {
			return true
		}
	}
	return false
}

func (it *Interp) weakOf(t *Term) *Poly {
	k := t.smt()
	if it.weaks == nil {
		it.weaks = map[string]*Poly{}
	}
	if it.weaks[k] == nil {
		it.weaks[k] = it.weak("word")
	}
	return it.weaks[k]
}

// fromRandom interprets bytes read from a random source as a number: random
// when there are enough of them from the system, anything otherwise.
func (it *Interp) fromRandom(b []Value) *Poly {
	k := ""
	strong := 0
	for _, c := range b {
		switch c := c.(type) {
		case BB:
			if c.b.kind != "rnd" && c.b.kind != "weak" {
				return nil
			}
			k += fmt.Sprintf("%d.%d ", c.b.id, c.i)
			if c.b.kind == "rnd" {
				strong++
			}
		case int64:
			k += fmt.Sprintf("=%d ", c)
		default:
			return nil
		}
	}
	if it.weaks == nil {
		it.weaks = map[string]*Poly{}
	}
	if it.weaks[k] == nil {
		again := false
		for _, c := range b {
			if c, ok := c.(BB); ok && c.b.kind == "rnd" {
				if it.rndUsed == nil {
					it.rndUsed = map[string]bool{}
				}
				u := fmt.Sprint(c.b.id, ".", c.i)
				again = again || it.rndUsed[u]
				it.rndUsed[u] = true
			}
		}
		if strong >= 24 && !again {
			it.weaks[k] = it.random("bytes")
		} else {
			it.weaks[k] = it.weak("bytes")
		}
	}
	return it.weaks[k]
}

func (fr *Frame) frFromInt(v Value, w int, signed bool) *Poly {
	switch v := v.(type) {
	case int64:
		if signed {
			return polyInt(v)
		}
		return polyBig(new(big.Int).SetUint64(uint64(v)))
	case *Term:
		if weakTerm(v) {
			return fr.it.weakOf(v)
		}
		n := normInt(w, signed, fr.it.path.concretize(v))
		if signed {
			return polyInt(n)
		}
		return polyBig(new(big.Int).SetUint64(uint64(n)))
	}
	unsupported("integer to field element of %T", v)
	return nil
}

func init() {
	E := "(*" + pFR + ".Element)."
	set := func(name string, f func(fr *Frame, a []Value) *Poly) {
		reg(E+name, func(fr *Frame, a []Value) Value {
			fr.stv(a[0], f(fr, a))
			return a[0]
		})
	}
	set("SetZero", func(fr *Frame, a []Value) *Poly { return polyZero })
	set("SetOne", func(fr *Frame, a []Value) *Poly { return polyInt(1) })
	set("SetUint64", func(fr *Frame, a []Value) *Poly { return fr.frFromInt(a[1], 64, false) })
	set("SetInt64", func(fr *Frame, a []Value) *Poly { return fr.frFromInt(a[1], 64, true) })
	set("Set", func(fr *Frame, a []Value) *Poly { return fr.poly(a[1]) })
	set("Add", func(fr *Frame, a []Value) *Poly { return fr.poly(a[1]).add(fr.poly(a[2])) })
	set("Sub", func(fr *Frame, a []Value) *Poly { return fr.poly(a[1]).sub(fr.poly(a[2])) })
	set("Mul", func(fr *Frame, a []Value) *Poly { return fr.poly(a[1]).mul(fr.poly(a[2])) })
	set("Square", func(fr *Frame, a []Value) *Poly { x := fr.poly(a[1]); return x.mul(x) })
	set("Double", func(fr *Frame, a []Value) *Poly { x := fr.poly(a[1]); return x.add(x) })
	set("Neg", func(fr *Frame, a []Value) *Poly { return fr.poly(a[1]).neg() })
	set("Inverse", func(fr *Frame, a []Value) *Poly { return fr.inv(fr.poly(a[1])) })
	set("Div", func(fr *Frame, a []Value) *Poly { return fr.poly(a[1]).mul(fr.inv(fr.poly(a[2]))) })
	set("SetBigInt", func(fr *Frame, a []Value) *Poly { return fr.bigv(a[1]).poly() })
	set("Exp", func(f *Frame, a []Value) *Poly {
		x := f.poly(a[1])
		e := f.bigv(a[2])
		if e.p != nil {
			unsupported("symbolic exponent")
		}
		if c, ok := x.isConst(); ok {
			var r fr.Element
			r.Exp(c, e.c)
			return polyConst(r)
		}
		if e.c.Sign() < 0 {
			x = f.inv(x)
		}
		n := new(big.Int).Abs(e.c)
		if n.BitLen() > 12 {
			unsupported("large symbolic exponentiation")
		}
		r := polyInt(1)
		for i := int64(0); i < n.Int64(); i++ {
			r = r.mul(x)
		}
		return r
	})
	// Exp takes its base by value
	reg(E+"Exp", func(f *Frame, a []Value) Value {
		x := a[1].(*Poly)
		e := f.bigv(a[2])
		if e.p != nil {
			unsupported("symbolic exponent")
		}
		if c, ok := x.isConst(); ok {
			var r fr.Element
			r.Exp(c, e.c)
			f.stv(a[0], polyConst(r))
			return a[0]
		}
		if e.c.Sign() < 0 {
			x = f.inv(x)
		}
		n := new(big.Int).Abs(e.c)
		if n.BitLen() > 12 {
			unsupported("large symbolic exponentiation")
		}
		r := polyInt(1)
		for i := int64(0); i < n.Int64(); i++ {
			r = r.mul(x)
		}
		f.stv(a[0], r)
		return a[0]
	})
	reg(E+"SetRandom", func(fr *Frame, a []Value) Value {
		if !fr.it.draw() {
			return Tuple{(*Value)(nil), fr.it.randErr()}
		}
		fr.stv(a[0], fr.it.random("fr"))
		return Tuple{a[0], nilErr}
	})
	reg(E+"Equal", func(fr *Frame, a []Value) Value {
		return boolVal(ffZero(fr.poly(a[0]).sub(fr.poly(a[1]))))
	})
	reg(E+"NotEqual", func(fr *Frame, a []Value) Value {
		t := ffZero(fr.poly(a[0]).sub(fr.poly(a[1])))
		return intVal(tIte(t, tConst(64, 0), tConst(64, 1)), 64, false)
	})
	reg(E+"IsZero", func(fr *Frame, a []Value) Value { return boolVal(ffZero(fr.poly(a[0]))) })
	reg(E+"IsOne", func(fr *Frame, a []Value) Value { return boolVal(ffZero(fr.poly(a[0]).sub(polyInt(1)))) })
	reg(E+"BigInt", func(fr *Frame, a []Value) Value {
		p := fr.poly(a[0])
		fr.stv(a[1], polyToBig(p))
		return a[1]
	})
	reg("("+pFR+".Element).BigInt", func(fr *Frame, a []Value) Value {
		fr.stv(a[1], polyToBig(a[0].(*Poly)))
		return a[1]
	})
	reg("("+pFR+".Element).ToBigIntRegular", func(fr *Frame, a []Value) Value {
		fr.stv(a[1], polyToBig(a[0].(*Poly)))
		return a[1]
	})
	frBytes := func(fr *Frame, p *Poly) []Value {
		if c, ok := p.isConst(); ok {
			b := c.Bytes()
			return bytesToCells(b[:])
		}
		b := fr.it.newBlob("fr", 32)
		b.fr = p
		return b.cells()
	}
	reg(E+"Bytes", func(fr *Frame, a []Value) Value { return Array(frBytes(fr, fr.poly(a[0]))) })
	reg(E+"Marshal", func(fr *Frame, a []Value) Value { return Slice(frBytes(fr, fr.poly(a[0]))) })
	setBytes := func(f *Frame, dst Value, b Slice) bool {
		if bs, ok := concreteBytes(b); ok {
			var e fr.Element
			e.SetBytes(bs)
			f.stv(dst, polyConst(e))
			return true
		}
		if len(b) == 32 {
			if bb, ok := b[0].(BB); ok && bb.i == 0 && bb.b.kind == "fr" && sameBlob(b) {
				f.stv(dst, bb.b.fr)
				return true
			}
		}
		if x := f.it.fromRandom(b); x != nil {
			f.stv(dst, x)
			return true
		}
		return false
	}
	reg(E+"SetBytes", func(fr *Frame, a []Value) Value {
		if !setBytes(fr, a[0], a[1].(Slice)) {
			unsupported("SetBytes of symbolic bytes")
		}
		return a[0]
	})
	reg(E+"SetBytesCanonical", func(f *Frame, a []Value) Value {
		b := a[1].(Slice)
		if bs, ok := concreteBytes(b); ok {
			var e fr.Element
			if err := e.SetBytesCanonical(bs); err != nil {
				return f.it.mkError(err.Error())
			}
			f.stv(a[0], polyConst(e))
			return nilErr
		}
		if !setBytes(f, a[0], b) {
			return f.it.mkError("invalid fr.Element encoding")
		}
		return nilErr
	})
	reg(E+"SetString", func(f *Frame, a []Value) Value {
		var e fr.Element
		if _, err := e.SetString(f.str(a[1])); err != nil {
			return Tuple{(*Value)(nil), f.it.mkError(err.Error())}
		}
		f.stv(a[0], polyConst(e))
		return Tuple{a[0], nilErr}
	})
	reg(E+"String", func(fr *Frame, a []Value) Value {
		if c, ok := fr.poly(a[0]).isConst(); ok {
			return c.String()
		}
		return "<fr>"
	})
	reg(pFR+".One", func(fr *Frame, a []Value) Value { return polyInt(1) })
	reg(pFR+".NewElement", func(fr *Frame, a []Value) Value { return fr.frFromInt(a[0], 64, false) })
	reg(pFR+".Modulus", func(f *Frame, a []Value) Value { return newCell(&Big{c: fr.Modulus()}) })
	reg(pFR+".Butterfly", func(fr *Frame, a []Value) Value {
		x, y := fr.poly(a[0]), fr.poly(a[1])
		fr.stv(a[0], x.add(y))
		fr.stv(a[1], x.sub(y))
		return nil
	})
	reg(pFR+".BatchInvert", func(fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		out := make(Slice, len(s))
		for i := range s {
			out[i] = fr.inv(s[i].(*Poly))
		}
		return out
	})

	// ---- big.Int
	B := "(*math/big.Int)."
	conc := func(fr *Frame, p Value) *big.Int {
		b := fr.bigv(p)
		if b.p != nil {
			unsupported("big.Int arithmetic on a symbolic value in %s", fr.where())
		}
		return b.c
	}
	bin := func(name string, f func(z, x, y *big.Int) *big.Int) {
		reg(B+name, func(fr *Frame, a []Value) Value {
			fr.stv(a[0], &Big{c: f(new(big.Int), conc(fr, a[1]), conc(fr, a[2]))})
			return a[0]
		})
	}
	symbin := func(name string, f func(z, x, y *big.Int) *big.Int, g func(x, y *Poly) *Poly) {
		reg(B+name, func(fr *Frame, a []Value) Value {
			x, y := fr.bigv(a[1]), fr.bigv(a[2])
			if x.p != nil || y.p != nil {
				fr.stv(a[0], polyToBig(g(x.poly(), y.poly())))
				return a[0]
			}
			fr.stv(a[0], &Big{c: f(new(big.Int), x.c, y.c)})
			return a[0]
		})
	}
	symbin("Add", (*big.Int).Add, func(x, y *Poly) *Poly { return x.add(y) })
	symbin("Sub", (*big.Int).Sub, func(x, y *Poly) *Poly { return x.sub(y) })
	symbin("Mul", (*big.Int).Mul, func(x, y *Poly) *Poly { return x.mul(y) })
	bin("Div", func(z, x, y *big.Int) *big.Int { return z.Div(x, y) })
	bin("Quo", func(z, x, y *big.Int) *big.Int { return z.Quo(x, y) })
	bin("Rem", func(z, x, y *big.Int) *big.Int { return z.Rem(x, y) })
	reg(B+"Mod", func(fr *Frame, a []Value) Value {
		x, y := fr.bigv(a[1]), conc(fr, a[2])
		if x.p != nil {
			if y.String() == frModulus {
				fr.stv(a[0], x)
				return a[0]
			}
			unsupported("big.Int.Mod of a symbolic value")
		}
		fr.stv(a[0], &Big{c: new(big.Int).Mod(x.c, y)})
		return a[0]
	})
	reg(B+"ModInverse", func(fr *Frame, a []Value) Value {
		x, y := fr.bigv(a[1]), conc(fr, a[2])
		if x.p != nil {
			if y.String() == frModulus {
				fr.stv(a[0], polyToBig(fr.inv(x.p)))
				return a[0]
			}
			unsupported("big.Int.ModInverse of a symbolic value")
		}
		r := new(big.Int).ModInverse(x.c, y)
		if r == nil {
			return (*Value)(nil)
		}
		fr.stv(a[0], &Big{c: r})
		return a[0]
	})
	reg(B+"Neg", func(fr *Frame, a []Value) Value {
		x := fr.bigv(a[1])
		if x.p != nil {
			fr.stv(a[0], polyToBig(x.p.neg()))
			return a[0]
		}
		fr.stv(a[0], &Big{c: new(big.Int).Neg(x.c)})
		return a[0]
	})
	reg(B+"Set", func(fr *Frame, a []Value) Value { fr.stv(a[0], fr.bigv(a[1])); return a[0] })
	reg(B+"SetInt64", func(fr *Frame, a []Value) Value {
		fr.stv(a[0], &Big{c: big.NewInt(fr.concInt(a[1]))})
		return a[0]
	})
	reg(B+"SetUint64", func(fr *Frame, a []Value) Value {
		fr.stv(a[0], &Big{c: new(big.Int).SetUint64(uint64(fr.concInt(a[1])))})
		return a[0]
	})
	reg("math/big.NewInt", func(fr *Frame, a []Value) Value { return newCell(&Big{c: big.NewInt(fr.concInt(a[0]))}) })
	reg(B+"SetString", func(fr *Frame, a []Value) Value {
		r, ok := new(big.Int).SetString(a[1].(string), int(fr.concInt(a[2])))
		if !ok {
			return Tuple{(*Value)(nil), false}
		}
		fr.stv(a[0], &Big{c: r})
		return Tuple{a[0], true}
	})
	reg(B+"SetBytes", func(fr *Frame, a []Value) Value {
		s := a[1].(Slice)
		if bs, ok := concreteBytes(s); ok {
			fr.stv(a[0], &Big{c: new(big.Int).SetBytes(bs)})
			return a[0]
		}
		if bb, ok := s[0].(BB); ok && len(s) == 32 && bb.i == 0 && bb.b.kind == "fr" && sameBlob(s) {
			fr.stv(a[0], polyToBig(bb.b.fr))
			return a[0]
		}
		if x := fr.it.fromRandom(s); x != nil {
			fr.stv(a[0], &Big{p: x})
			return a[0]
		}
		unsupported("big.Int.SetBytes of symbolic bytes")
		return nil
	})
	reg(B+"Sign", func(fr *Frame, a []Value) Value {
		x := fr.bigv(a[0])
		if x.p != nil {
			return intVal(tIte(ffZero(x.p), tConst(64, 0), tConst(64, 1)), 64, true)
		}
		return int64(x.c.Sign())
	})
	reg(B+"Cmp", func(fr *Frame, a []Value) Value {
		x, y := fr.bigv(a[0]), fr.bigv(a[1])
		if x.p != nil || y.p != nil {
			unsupported("big.Int.Cmp on symbolic values")
		}
		return int64(x.c.Cmp(y.c))
	})
	reg(B+"BitLen", func(fr *Frame, a []Value) Value { return int64(conc(fr, a[0]).BitLen()) })
	reg(B+"Bit", func(fr *Frame, a []Value) Value { return int64(conc(fr, a[0]).Bit(int(fr.concInt(a[1])))) })
	reg(B+"IsUint64", func(fr *Frame, a []Value) Value { return conc(fr, a[0]).IsUint64() })
	reg(B+"IsInt64", func(fr *Frame, a []Value) Value { return conc(fr, a[0]).IsInt64() })
	reg(B+"Uint64", func(fr *Frame, a []Value) Value { return int64(conc(fr, a[0]).Uint64()) })
	reg(B+"Int64", func(fr *Frame, a []Value) Value { return conc(fr, a[0]).Int64() })
	reg(B+"Lsh", func(fr *Frame, a []Value) Value {
		fr.stv(a[0], &Big{c: new(big.Int).Lsh(conc(fr, a[1]), uint(fr.concInt(a[2])))})
		return a[0]
	})
	reg(B+"Exp", func(fr *Frame, a []Value) Value {
		var m *big.Int
		if c, _ := a[3].(*Value); c != nil {
			m = conc(fr, a[3])
		}
		fr.stv(a[0], &Big{c: new(big.Int).Exp(conc(fr, a[1]), conc(fr, a[2]), m)})
		return a[0]
	})
	reg(B+"String", func(fr *Frame, a []Value) Value {
		b := fr.bigv(a[0])
		if b.p != nil {
			return "<big>"
		}
		return b.c.String()
	})
	reg(B+"Text", func(fr *Frame, a []Value) Value {
		return conc(fr, a[0]).Text(int(fr.concInt(a[1])))
	})
	rm1 := new(big.Int).Sub(fr.Modulus(), big.NewInt(1))
	reg("crypto/rand.Int", func(fr *Frame, a []Value) Value {
		m := conc(fr, a[1])
		if m.Sign() <= 0 {
			panic(&targetPanic{v: fr.it.mkError("crypto/rand: argument to Int is <= 0"), s: "panic: crypto/rand: argument to Int is <= 0"})
		}
		if r, ok := a[0].(Iface); m.BitLen() < 200 || !ok || r.t == nil || r.t.String() != "*os.File" {
			// few values, or not from the system: anything
			if ok && r.t != nil && r.t.String() == "*os.File" && !fr.it.draw() {
				return Tuple{(*Value)(nil), fr.it.randErr()}
			}
			return Tuple{newCell(&Big{p: fr.it.weak("int")}), nilErr}
		}
		if !fr.it.draw() {
			return Tuple{(*Value)(nil), fr.it.randErr()}
		}
		x := fr.it.random("big")
		if m.Cmp(rm1) == 0 {
			// uniform in 0..r-2: a non-zero element minus one
			return Tuple{newCell(&Big{p: x.sub(polyInt(1))}), nilErr}
		}
		return Tuple{newCell(&Big{p: x}), nilErr}
	})

	// ---- points
	for _, g := range []int{1, 2} {
		regPoints(g)
	}
	regPairing()
}

func polyToBig(p *Poly) *Big {
	if c, ok := p.isConst(); ok {
		var b big.Int
		c.BigInt(&b)
		return &Big{c: &b}
	}
	return &Big{p: p}
}

func sameBlob(cells []Value) bool {
	var b *Blob
	for i, c := range cells {
		bb, ok := c.(BB)
		if !ok || bb.i != i || (b != nil && bb.b != b) {
			return false
		}
		b = bb.b
	}
	return b != nil
}

func (it *Interp) ptBlob(p *Pt, compressed bool) *Blob {
	k := fmt.Sprintf("g%d", p.g)
	n := 32 * p.g
	if compressed {
		k += "c"
	} else {
		k += "r"
		n *= 2
	}
	b := it.newBlob(k, n)
	b.pt = p
	return b
}

func (it *Interp) ptCells(p *Pt, compressed bool) []Value {
	if p.pend != nil {
		// an abscissa with the wrong ordinate
		b := it.ptBlob(&Pt{g: p.g, d: polyZero}, compressed)
		b.tag = "offcurve"
		return b.cells()
	}
	// canonical concrete encodings
	if !p.badSG {
		if c, ok := p.d.isConst(); ok && c.IsZero() {
			n := 32 * p.g
			if !compressed {
				n *= 2
			}
			b := make([]byte, n)
			if compressed {
				b[0] = 0x40
			}
			if compressed {
				return bytesToCells(b)
			}
			return bytesToCells(b)
		}
	}
	return it.ptBlob(p, compressed).cells()
}

func (fr *Frame) ptOrBad(p *Pt) *Pt { return p }

func badOp(ps ...*Pt) {
	for _, p := range ps {
		if p.badSG {
			unsupported("arithmetic on a point outside the subgroup")
		}
		if p.pend != nil {
			unsupported("arithmetic on a half-decoded point")
		}
	}
}

func regPoints(g int) {
	G := fmt.Sprintf("G%d", g)
	A := "(*" + pBN + "." + G + "Affine)."
	J := "(*" + pBN + "." + G + "Jac)."
	AV := "(" + pBN + "." + G + "Affine)."
	mk := func(d *Poly) *Pt { return &Pt{g: g, d: d} }
	both := func(name string, f func(fr *Frame, a []Value) *Pt) {
		h := func(fr *Frame, a []Value) Value {
			fr.stv(a[0], f(fr, a))
			return a[0]
		}
		reg(A+name, h)
		reg(J+name, h)
	}
	both("Set", func(fr *Frame, a []Value) *Pt { return fr.pt(a[1]) })
	both("SetInfinity", func(fr *Frame, a []Value) *Pt { return mk(polyZero) })
	both("Neg", func(fr *Frame, a []Value) *Pt { p := fr.pt(a[1]); badOp(p); return mk(p.d.neg()) })
	both("FromJacobian", func(fr *Frame, a []Value) *Pt { return fr.pt(a[1]) })
	both("FromAffine", func(fr *Frame, a []Value) *Pt { return fr.pt(a[1]) })
	both("fromJacExtended", func(fr *Frame, a []Value) *Pt { return fr.pt(a[1]) })
	both("Double", func(fr *Frame, a []Value) *Pt { p := fr.pt(a[1]); badOp(p); return mk(p.d.add(p.d)) })
	both("DoubleAssign", func(fr *Frame, a []Value) *Pt { p := fr.pt(a[0]); badOp(p); return mk(p.d.add(p.d)) })
	both("AddAssign", func(fr *Frame, a []Value) *Pt {
		p, q := fr.pt(a[0]), fr.pt(a[1])
		badOp(p, q)
		return mk(p.d.add(q.d))
	})
	both("AddMixed", func(fr *Frame, a []Value) *Pt {
		p, q := fr.pt(a[0]), fr.pt(a[1])
		badOp(p, q)
		return mk(p.d.add(q.d))
	})
	both("SubAssign", func(fr *Frame, a []Value) *Pt {
		p, q := fr.pt(a[0]), fr.pt(a[1])
		badOp(p, q)
		return mk(p.d.sub(q.d))
	})
	both("Add", func(fr *Frame, a []Value) *Pt {
		p, q := fr.pt(a[1]), fr.pt(a[2])
		badOp(p, q)
		return mk(p.d.add(q.d))
	})
	both("Sub", func(fr *Frame, a []Value) *Pt {
		p, q := fr.pt(a[1]), fr.pt(a[2])
		badOp(p, q)
		return mk(p.d.sub(q.d))
	})
	smul := func(fr *Frame, a []Value) *Pt {
		p := fr.pt(a[1])
		badOp(p)
		return mk(p.d.mul(fr.bigv(a[2]).poly()))
	}
	for _, n := range []string{"ScalarMultiplication", "ScalarMultiplicationAffine", "mulGLV", "mulWindowed"} {
		both(n, smul)
	}
	both("ScalarMultiplicationBase", func(fr *Frame, a []Value) *Pt { return mk(fr.bigv(a[1]).poly()) })
	for _, p := range []string{A, J} {
		reg(p+"Equal", func(fr *Frame, a []Value) Value {
			return boolVal(fr.it.ptEq(fr.pt(a[0]), fr.pt(a[1])))
		})
		reg(p+"IsInfinity", func(fr *Frame, a []Value) Value {
			p := fr.pt(a[0])
			if p.badSG {
				return false
			}
			return boolVal(ffZero(p.d))
		})
		reg(p+"IsOnCurve", func(fr *Frame, a []Value) Value { fr.pt(a[0]); return true })
		reg(p+"IsInSubGroup", func(fr *Frame, a []Value) Value { return !fr.pt(a[0]).badSG })
		reg(p+"String", func(fr *Frame, a []Value) Value { return "<point>" })
		reg(p+"MultiExp", func(fr *Frame, a []Value) Value {
			ps, ss := a[1].(Slice), a[2].(Slice)
			if len(ps) != len(ss) {
				return Tuple{(*Value)(nil), fr.it.mkError("len(points) != len(scalars)")}
			}
			if cfg, ok := a[3].(Struct); ok && len(cfg) > 0 {
				if n, ok := cfg[0].(int64); ok && n > 1024 {
					return Tuple{(*Value)(nil), fr.it.mkError("invalid config: config.NbTasks > 1024")}
				}
			}
			d := &Poly{t: map[string]*pterm{}}
			for i := range ps {
				if fr.it.race != nil {
					fr.it.race.read(fr, &ps[i])
					fr.it.race.read(fr, &ss[i])
				}
				p := ps[i].(*Pt)
				badOp(p)
				d.addTo(p.d.mul(ss[i].(*Poly)))
			}
			fr.stv(a[0], mk(d))
			return Tuple{a[0], nilErr}
		})
	}
	reg(A+"Bytes", func(fr *Frame, a []Value) Value { return Array(fr.it.ptCells(fr.pt(a[0]), true)) })
	reg(A+"RawBytes", func(fr *Frame, a []Value) Value { return Array(fr.it.ptCells(fr.pt(a[0]), false)) })
	reg(A+"Marshal", func(fr *Frame, a []Value) Value { return Slice(fr.it.ptCells(fr.pt(a[0]), false)) })
	_ = AV
	setBytes := func(fr *Frame, dst Value, buf Slice, check bool) (int64, Value) {
		n := 32 * g
		if len(buf) < n {
			return 0, fr.it.mkError("short buffer")
		}
		k := fmt.Sprintf("g%d", g)
		if bb, ok := buf[0].(BB); ok && bb.i == 0 && strings.HasPrefix(bb.b.kind, k) {
			sz := bb.b.n
			if len(buf) < sz {
				return 0, fr.it.mkError("short buffer")
			}
			if !sameBlob(buf[:sz]) {
				return 0, fr.it.mkError("invalid point encoding (mixed bytes)")
			}
			if bb.b.tag == "offcurve" {
				return 0, fr.it.mkError("invalid compressed coordinate: square root doesn't exist")
			}
			if bb.b.pt.badSG && check {
				return 0, fr.it.mkError("invalid point: subgroup check failed")
			}
			fr.stv(dst, bb.b.pt)
			return int64(sz), nilErr
		}
		if bs, ok := concreteBytes(buf); ok {
			if g == 1 {
				var p bn254.G1Affine
				m, err := p.SetBytes(bs)
				if err != nil {
					return 0, fr.it.mkError(err.Error())
				}
				fr.stv(dst, fr.it.nativePt1(&p))
				return int64(m), nilErr
			}
			var p bn254.G2Affine
			m, err := p.SetBytes(bs)
			if err != nil {
				return 0, fr.it.mkError(err.Error())
			}
			fr.stv(dst, fr.it.nativePt2(&p))
			return int64(m), nilErr
		}
		return 0, fr.it.mkError("invalid point encoding (misaligned or mixed bytes)")
	}
	reg(A+"setBytes", func(fr *Frame, a []Value) Value {
		n, e := setBytes(fr, a[0], a[1].(Slice), fr.concBool(a[2]))
		return Tuple{n, e}
	})
	reg(A+"SetBytes", func(fr *Frame, a []Value) Value {
		n, e := setBytes(fr, a[0], a[1].(Slice), true)
		return Tuple{n, e}
	})
	reg(A+"Unmarshal", func(fr *Frame, a []Value) Value {
		_, e := setBytes(fr, a[0], a[1].(Slice), true)
		return e
	})
	reg(A+"unsafeSetCompressedBytes", func(fr *Frame, a []Value) Value {
		// the decoder calls unsafeComputeY next, which does the checks; here a
		// decoded point is stored at once and marked when it must be rejected
		buf := a[1].(Slice)
		if bb, ok := buf[0].(BB); ok && bb.i == 0 && bb.b.kind == fmt.Sprintf("g%dc", g) && sameBlob(buf) {
			if bb.b.tag == "offcurve" {
				fr.stv(a[0], &Pt{g: g, d: polyZero, pend: bb.b})
				return Tuple{false, nilErr}
			}
			fr.stv(a[0], bb.b.pt)
			return Tuple{false, nilErr}
		}
		_, e := setBytes(fr, a[0], buf, true)
		if e.(Iface).t != nil {
			fr.stv(a[0], &Pt{g: g, d: polyZero, pend: &Blob{tag: "offcurve"}})
			return Tuple{false, nilErr}
		}
		return Tuple{false, nilErr}
	})
	reg(A+"unsafeComputeY", func(fr *Frame, a []Value) Value {
		p := fr.pt(a[0])
		if p.pend != nil {
			return fr.it.mkError("invalid compressed coordinate: square root doesn't exist")
		}
		if p.badSG && fr.concBool(a[1]) {
			return fr.it.mkError("invalid point: subgroup check failed")
		}
		fr.stv(a[0], p)
		return nilErr
	})
	reg(fmt.Sprintf("%s.BatchJacobianToAffineG%d", pBN, g), func(fr *Frame, a []Value) Value {
		s := a[0].(Slice)
		out := make(Slice, len(s))
		copy(out, s)
		return out
	})
	reg(fmt.Sprintf("%s.BatchScalarMultiplicationG%d", pBN, g), func(fr *Frame, a []Value) Value {
		b := fr.pt(a[0])
		s := a[1].(Slice)
		out := make(Slice, len(s))
		for i := range s {
			out[i] = mk(b.d.mul(s[i].(*Poly)))
		}
		return out
	})
	h := func(fr *Frame, a []Value) Value {
		msg := append(append([]Value{}, a[0].(Slice)...), int64(-1))
		msg = append(msg, a[1].(Slice)...)
		return Tuple{fr.it.oracleAt(g, msg), nilErr}
	}
	for _, n := range []string{"HashTo", "EncodeTo"} {
		reg(pBN+"."+n+G, h)
	}
}

func (fr *Frame) concBool(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return fr.it.path.branch(v)
	}
	unsupported("boolean expected, got %T", v)
	return false
}

type oracleEntry struct {
	g   int
	msg []Value
	pt  *Pt
}

// oracleAt models hash-to-curve as a random oracle: equal inputs give equal
// outputs, different inputs independent outputs.
func (it *Interp) oracleAt(g int, msg []Value) *Pt {
	for _, e := range it.oracle {
		if e.g == g && it.path.branch(it.eqCells(e.msg, msg)) {
			return e.pt
		}
	}
	v := it.path.newPVar(fmt.Sprintf("H%d", len(it.oracle)), true, true)
	p := &Pt{g: g, d: polyVar(v)}
	it.oracle = append(it.oracle, oracleEntry{g, msg, p})
	return p
}

func (it *Interp) nativePt1(p *bn254.G1Affine) *Pt {
	if p.IsInfinity() {
		return &Pt{g: 1, d: polyZero}
	}
	_, _, g1, _ := bn254.Generators()
	if p.Equal(&g1) {
		return &Pt{g: 1, d: polyInt(1)}
	}
	var n bn254.G1Affine
	n.Neg(&g1)
	if p.Equal(&n) {
		return &Pt{g: 1, d: polyInt(-1)}
	}
	unsupported("concrete point with unknown discrete logarithm")
	return nil
}

func (it *Interp) nativePt2(p *bn254.G2Affine) *Pt {
	if p.IsInfinity() {
		return &Pt{g: 2, d: polyZero}
	}
	_, _, _, g2 := bn254.Generators()
	if p.Equal(&g2) {
		return &Pt{g: 2, d: polyInt(1)}
	}
	unsupported("concrete point with unknown discrete logarithm")
	return nil
}

func regPairing() {
	reg(pBN+".Generators", func(fr *Frame, a []Value) Value {
		one := polyInt(1)
		return Tuple{&Pt{g: 1, d: one}, &Pt{g: 2, d: one}, &Pt{g: 1, d: one}, &Pt{g: 2, d: one}}
	})
	pair := func(fr *Frame, a []Value) (*Poly, Value) {
		ps, qs := a[0].(Slice), a[1].(Slice)
		if len(ps) != len(qs) || len(ps) == 0 {
			return nil, fr.it.mkError("invalid inputs sizes")
		}
		d := polyZero
		for i := range ps {
			p, q := ps[i].(*Pt), qs[i].(*Pt)
			badOp(p, q)
			d = d.add(p.d.mul(q.d))
		}
		return d, nilErr
	}
	for _, n := range []string{"Pair", "MillerLoop"} {
		reg(pBN+"."+n, func(fr *Frame, a []Value) Value {
			d, e := pair(fr, a)
			if d == nil {
				return Tuple{&GT{d: polyZero}, e}
			}
			return Tuple{&GT{d: d}, nilErr}
		})
	}
	reg(pBN+".FinalExponentiation", func(fr *Frame, a []Value) Value {
		d := fr.ldv(a[0]).(*GT).d
		if rest, ok := a[1].(Slice); ok {
			for _, p := range rest {
				d = d.add(fr.ldv(p).(*GT).d)
			}
		}
		return &GT{d: d}
	})
	reg(pBN+".PairingCheck", func(fr *Frame, a []Value) Value {
		d, e := pair(fr, a)
		if d == nil {
			return Tuple{false, e}
		}
		return Tuple{boolVal(ffZero(d)), nilErr}
	})
	for _, T := range []string{"(*" + pBN + "/internal/fptower.E12)."} {
		reg(T+"Equal", func(fr *Frame, a []Value) Value {
			return boolVal(ffZero(fr.ldv(a[0]).(*GT).d.sub(fr.ldv(a[1]).(*GT).d)))
		})
		reg(T+"IsOne", func(fr *Frame, a []Value) Value { return boolVal(ffZero(fr.ldv(a[0]).(*GT).d)) })
		reg(T+"SetOne", func(fr *Frame, a []Value) Value { fr.stv(a[0], &GT{d: polyZero}); return a[0] })
		reg(T+"Set", func(fr *Frame, a []Value) Value { fr.stv(a[0], fr.ldv(a[1])); return a[0] })
		reg(T+"Mul", func(fr *Frame, a []Value) Value {
			fr.stv(a[0], &GT{d: fr.ldv(a[1]).(*GT).d.add(fr.ldv(a[2]).(*GT).d)})
			return a[0]
		})
		inv := func(fr *Frame, a []Value) Value {
			fr.stv(a[0], &GT{d: fr.ldv(a[1]).(*GT).d.neg()})
			return a[0]
		}
		reg(T+"Inverse", inv)
		reg(T+"Conjugate", inv)
	}
	reg(pBN+".isCompressed", func(fr *Frame, a []Value) Value {
		switch c := a[0].(type) {
		case int64:
			return c&0xc0 != 0
		case BB:
			if c.i == 0 && (strings.HasSuffix(c.b.kind, "c") || strings.HasSuffix(c.b.kind, "r")) {
				return strings.HasSuffix(c.b.kind, "c")
			}
			return true // misaligned data: decoded (and rejected) as a compressed point
		case *Term:
			return boolVal(tNot(tEq(tBV("bvand", c, tConst(8, 0xc0)), tConst(8, 0))))
		}
		unsupported("isCompressed(%T)", a[0])
		return nil
	})
	// coordinates
	FP := "(*" + pFP + ".Element)."
	reg(FP+"IsZero", func(fr *Frame, a []Value) Value {
		switch c := a[0].(type) {
		case *Coord:
			p := c.load()
			if p.badSG {
				return false
			}
			return boolVal(ffZero(p.d))
		case *Value:
			if f, ok := fr.ldv(c).(*Fp); ok {
				return f.c.Sign() == 0
			}
		}
		unsupported("fp.Element.IsZero on %T", a[0])
		return nil
	})
	reg("(*"+pBN+"/internal/fptower.E2).IsZero", intrinsics[FP+"IsZero"])
	reg(FP+"String", func(fr *Frame, a []Value) Value {
		c, ok := a[0].(*Coord)
		if !ok {
			unsupported("fp.Element.String on %T", a[0])
		}
		return cellsToStr([]Value{CoordTok{c.load(), c.idx, c.sub}})
	})
	eq := func(fr *Frame, a []Value) Value {
		x, ok := a[0].(*Coord)
		y, ok2 := a[1].(*Coord)
		if ok && ok2 {
			return boolVal(fr.it.coordEq(x, y))
		}
		unsupported("coordinate comparison in %s", fr.where())
		return nil
	}
	reg(FP+"Equal", eq)
	reg("(*"+pBN+"/internal/fptower.E2).Equal", eq)
}
