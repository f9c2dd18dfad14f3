package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one of:
//
//	bool | *Term (Bool)            booleans
//	int64 | *Term (BV)             integers (concrete ones normalised to type)
//	BB                             one byte of an opaque encoding (Blob)
//	float64                        floats
//	string | *SymStr               strings
//	*Value                         pointers (nil pointer = (*Value)(nil))
//	Struct, Array, Slice           aggregates
//	*Map, *Chan                    reference types
//	Iface                          interfaces
//	*ssa.Function, *Closure, *ssa.Builtin, *Native   functions
//	Tuple
//	*Poly                          fr.Element
//	*Pt                            curve point (G1/G2, affine/jacobian)
//	*GT                            target group element
//	*Big                           big.Int
//	*Fp                            base-field element (opaque)
//	*Coord                         coordinate of a point (as pointer or value)
//	*RV                            reflect.Value
type Value interface{}

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

type Native struct {
	name string
	f    func(fr *Frame, args []Value) Value
}

type SymStr struct{ cells []Value }

// DecTok is a cell of a symbolic string: the decimal rendering of an integer.
type DecTok struct{ t *Term } // 64-bit signed

// HexTok stands for the two hex digits of a byte cell.
type HexTok struct {
	c  Value
	up bool
}

type Pt struct {
	g     int // 1 or 2
	d     *Poly
	badSG bool  // a point of the curve outside the prime-order subgroup
	pend  *Blob // compressed point read but not yet decompressed
}

type GT struct{ d *Poly }
type Big struct {
	c *big.Int
	p *Poly // value known modulo r only
}
type Fp struct{ c *big.Int }

type Coord struct {
	cell *Value // pointer to the cell holding a *Pt (pointer form)
	pt   *Pt    // value form
	idx  int
	sub  int // of a coordinate in the quadratic extension: 1 for A0, 2 for A1
}

// CoordTok stands for the decimal digits of a coordinate of a point.
type CoordTok struct {
	pt       *Pt
	idx, sub int
}

type RV struct {
	i    Iface
	addr *Value
	t    types.Type
}

type Blob struct {
	kind string
	n    int
	pt   *Pt
	fr   *Poly
	val  Value
	typ  types.Type
	msg  []Value // hash preimage
	id   int
	eqs  map[*Blob]*Term
	big  *Big
	tag  string
}

type BB struct {
	b *Blob
	i int
}

func (b *Blob) cells() []Value {
	out := make([]Value, b.n)
	for i := range out {
		out[i] = BB{b, i}
	}
	return out
}

type mapEntry struct {
	k, v Value
	cell *Value
}

type Map struct {
	m     map[string]*mapEntry
	order []string
}

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	recvq  int
	vc     VC // happens-before transfer (coarse)
	sent   int
	taken  int
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i, x := range v {
			r[i] = copyVal(x)
		}
		return r
	case Array:
		r := make(Array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
				for i, x := range v {
					r[i] = copyVal(x)
				}
			default:
				copy(r, v)
			}
		}
		return r
	}
	return v
}

const (
	pBN = "github.com/consensys/gnark-crypto/ecc/bn254"
	pFR = pBN + "/fr"
	pFP = pBN + "/fp"
)

var typeNameCache = map[*types.Named]string{}

func namedPath(t types.Type) string {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return ""
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return o.Name()
	}
	return o.Pkg().Path() + "." + o.Name()
}

func specialZero(t types.Type) (Value, bool) {
	switch namedPath(t) {
	case pFR + ".Element":
		return polyZero, true
	case pFP + ".Element":
		return &Fp{c: new(big.Int)}, true
	case pBN + ".G1Affine", pBN + ".G1Jac", pBN + ".g1JacExtended", pBN + ".g1Proj":
		return &Pt{g: 1, d: polyZero}, true
	case pBN + ".G2Affine", pBN + ".G2Jac", pBN + ".g2JacExtended", pBN + ".g2Proj":
		return &Pt{g: 2, d: polyZero}, true
	case pBN + ".GT", pBN + "/internal/fptower.E12":
		return &GT{d: polyZero}, true // additive notation: 0 = one
	case "math/big.Int":
		return &Big{c: new(big.Int)}, true
	}
	return nil, false
}

func zero(t types.Type) Value {
	if v, ok := specialZero(t); ok {
		return v
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		if t.Len() > 0 {
			z := zero(t.Elem())
			a[0] = z
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = copyVal(z)
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		r := make(Tuple, t.Len())
		for i := range r {
			r[i] = zero(t.At(i).Type())
		}
		return r
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("zero value of %s", t)})
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func normInt(w int, signed bool, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	v &= mask(w)
	if signed {
		return sx(w, v)
	}
	return int64(v)
}

// toTerm lifts an integer value to a term of width w.
func toTerm(v Value, w int) *Term {
	switch v := v.(type) {
	case int64:
		return tConst(w, uint64(v))
	case *Term:
		return v
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("integer operation on %T", v)})
}

func toBoolTerm(v Value) *Term {
	switch v := v.(type) {
	case bool:
		return tBool(v)
	case *Term:
		return v
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("boolean operation on %T", v)})
}

func boolVal(t *Term) Value {
	if t == tTrue {
		return true
	}
	if t == tFalse {
		return false
	}
	return t
}

func intVal(t *Term, w int, signed bool) Value {
	if t.isConst() {
		return normInt(w, signed, t.c)
	}
	return t
}

func strCells(v Value) []Value {
	switch v := v.(type) {
	case string:
		out := make([]Value, len(v))
		for i := 0; i < len(v); i++ {
			out[i] = int64(v[i])
		}
		return out
	case *SymStr:
		return v.cells
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("string operation on %T", v)})
}

func cellsToStr(cells []Value) Value {
	b := make([]byte, len(cells))
	for i, c := range cells {
		n, ok := c.(int64)
		if !ok {
			return &SymStr{cells: append([]Value{}, cells...)}
		}
		b[i] = byte(n)
	}
	return string(b)
}

func concreteBytes(cells []Value) ([]byte, bool) {
	b := make([]byte, len(cells))
	for i, c := range cells {
		n, ok := c.(int64)
		if !ok {
			return nil, false
		}
		b[i] = byte(n)
	}
	return b, true
}

func bytesToCells(b []byte) []Value {
	out := make([]Value, len(b))
	for i, x := range b {
		out[i] = int64(x)
	}
	return out
}

func (it *Interp) blobEq(a, b *Blob) *Term {
	if a == b {
		return tTrue
	}
	if a.kind != b.kind || a.n != b.n {
		return tFalse
	}
	if t, ok := a.eqs[b]; ok {
		return t
	}
	t := it.blobEq1(a, b)
	if a.eqs == nil {
		a.eqs = map[*Blob]*Term{}
	}
	if b.eqs == nil {
		b.eqs = map[*Blob]*Term{}
	}
	a.eqs[b] = t
	b.eqs[a] = t
	return t
}

func (it *Interp) blobEq1(a, b *Blob) *Term {
	switch a.kind {
	case "g1c", "g1r", "g2c", "g2r":
		if a.pt == nil || b.pt == nil || a.pt.badSG || b.pt.badSG {
			return tFalse
		}
		return ffZero(a.pt.d.sub(b.pt.d))
	case "fr":
		return ffZero(a.fr.sub(b.fr))
	case "hash":
		return it.eqCells(a.msg, b.msg)
	case "gob":
		if !types.Identical(a.typ, b.typ) {
			return tFalse
		}
		return it.eqVals(a.typ, a.val, b.val)
	}
	return tFalse
}

// eqShort is eqCells for a comparison that the code under test makes. When just
// one of the bytes is opaque, as the first byte of a hash is, then it can be
// equal by chance, which is explored once on a path.
func (it *Interp) eqShort(a, b []Value) *Term {
	if len(a) == len(b) && !it.chance {
		n, k := 0, 0
		for i := range a {
			x, ok1 := a[i].(BB)
			y, ok2 := b[i].(BB)
			if (ok1 || ok2) && x != y {
				n, k = n+1, i
			}
		}
		if n == 1 {
			t := it.eqByte(a[k], b[k])
			if t != tTrue {
				for i := range a {
					if i != k && it.eqByte(a[i], b[i]) == tFalse {
						return tFalse
					}
				}
				it.nchance++
				if it.path.choose(tVar(64, fmt.Sprintf("chance!%d", it.nchance)), 2) == 1 {
					it.chance = true
					it.path.chance = true
					t = tTrue
				}
				for i := range a {
					if i != k {
						t = tAnd(t, it.eqByte(a[i], b[i]))
					}
				}
				return t
			}
		}
	}
	return it.eqCells(a, b)
}

// eqCells compares two byte sequences.
func (it *Interp) eqCells(a, b []Value) *Term {
	if len(a) != len(b) {
		return tFalse
	}
	var cs []*Term
	seen := map[*Term]bool{}
	for i := range a {
		t := it.eqByte(a[i], b[i])
		if t == tFalse {
			return tFalse
		}
		if !seen[t] {
			seen[t] = true
			cs = append(cs, t)
		}
	}
	return tAnd(cs...)
}

func (it *Interp) eqByte(x, y Value) *Term {
	switch x := x.(type) {
	case int64:
		switch y := y.(type) {
		case int64:
			return tBool(x == y)
		case *Term:
			return tEq(y, tConst(y.w, uint64(x)))
		}
		return tFalse
	case *Term:
		switch y := y.(type) {
		case int64:
			return tEq(x, tConst(x.w, uint64(y)))
		case *Term:
			return tEq(x, y)
		}
		return tFalse
	case BB:
		if y, ok := y.(BB); ok && x.i == y.i {
			return it.blobEq(x.b, y.b)
		}
		return tFalse
	case DecTok:
		if y, ok := y.(DecTok); ok {
			return tEq(x.t, y.t)
		}
		return tFalse
	case CoordTok:
		if y, ok := y.(CoordTok); ok && x.idx == y.idx && x.sub == y.sub && x.pt.g == y.pt.g {
			if x.pt.badSG || y.pt.badSG {
				return tBool(x.pt == y.pt)
			}
			return it.coordEq(&Coord{pt: x.pt, idx: x.idx}, &Coord{pt: y.pt, idx: y.idx})
		}
		return tFalse
	case HexTok:
		if y, ok := y.(HexTok); ok && x.up == y.up {
			return it.eqByte(x.c, y.c)
		}
		return tFalse
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("byte comparison of %T", x)})
}

// eqVals is Go == on values of type t.
func (it *Interp) eqVals(t types.Type, x, y Value) *Term {
	switch x := x.(type) {
	case bool:
		return tEq(tBool(x), toBoolTerm(y))
	case int64:
		switch y := y.(type) {
		case int64:
			return tBool(x == y)
		case *Term:
			return tEq(y, tConst(y.w, uint64(x)))
		case BB:
			return it.eqShort([]Value{x}, []Value{y})
		}
	case *Term:
		switch y := y.(type) {
		case int64:
			return tEq(x, tConst(x.w, uint64(y)))
		case BB:
			return it.eqShort([]Value{x}, []Value{y})
		case bool:
			return tEq(x, tBool(y))
		case *Term:
			return tEq(x, y)
		}
		return tFalse
	case BB:
		return it.eqShort([]Value{x}, []Value{y})
	case DecTok, HexTok, CoordTok:
		return it.eqByte(x, y)
	case float64:
		return tBool(x == y.(float64))
	case string:
		if y, ok := y.(string); ok {
			return tBool(x == y)
		}
		return it.eqShort(strCells(x), strCells(y))
	case *SymStr:
		return it.eqShort(x.cells, strCells(y))
	case *Value:
		yy, ok := y.(*Value)
		return tBool(ok && x == yy)
	case *Map:
		return tBool(x == y.(*Map))
	case *Chan:
		return tBool(x == y.(*Chan))
	case *Poly:
		return ffZero(x.sub(y.(*Poly)))
	case *Pt:
		return it.ptEq(x, y.(*Pt))
	case *GT:
		return ffZero(x.d.sub(y.(*GT).d))
	case *Fp:
		return tBool(x.c.Cmp(y.(*Fp).c) == 0)
	case Iface:
		yy, ok := y.(Iface)
		if !ok {
			break
		}
		if x.t == nil || yy.t == nil {
			return tBool(x.t == nil && yy.t == nil)
		}
		if !types.Identical(x.t, yy.t) {
			return tFalse
		}
		return it.eqVals(x.t, x.v, yy.v)
	case Struct:
		yy := y.(Struct)
		st := t.Underlying().(*types.Struct)
		var cs []*Term
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, it.eqVals(st.Field(i).Type(), x[i], yy[i]))
		}
		return tAnd(cs...)
	case Array:
		yy := y.(Array)
		if isByte(t.Underlying().(*types.Array).Elem()) {
			return it.eqShort(x, yy)
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, it.eqVals(t.Underlying().(*types.Array).Elem(), x[i], yy[i]))
		}
		return tAnd(cs...)
	case *Coord:
		return it.coordEq(x, y)
	case Slice:
		if yy, ok := y.(Slice); ok && (x == nil || yy == nil) {
			return tBool(x == nil && yy == nil)
		}
		// only reachable for gob values
		yy := y.(Slice)
		if len(x) != len(yy) {
			return tFalse
		}
		if isByte(t.Underlying().(*types.Slice).Elem()) {
			return it.eqCells(x, yy)
		}
		var cs []*Term
		for i := range x {
			cs = append(cs, it.eqVals(t.Underlying().(*types.Slice).Elem(), x[i], yy[i]))
		}
		return tAnd(cs...)
	case *Native:
		yy, ok := y.(*Native)
		return tBool(ok && x == yy)
	case *ssa.Function:
		yy, ok := y.(*ssa.Function)
		return tBool(ok && x == yy || (!ok && x == nil && y == nil))
	case *Closure:
		return tFalse
	case nil:
		return tBool(y == nil)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("comparison of %T and %T", x, y)})
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (it *Interp) ptEq(a, b *Pt) *Term {
	if a.badSG || b.badSG {
		return tBool(a == b)
	}
	return ffZero(a.d.sub(b.d))
}

func (it *Interp) coordEq(x *Coord, y Value) *Term {
	p := x.load()
	switch y := y.(type) {
	case *Coord:
		q := y.load()
		if x.idx == y.idx {
			if x.idx == 0 { // equal abscissae: P = ±Q
				return tOr(ffZero(p.d.sub(q.d)), ffZero(p.d.add(q.d)))
			}
			if x.idx == 1 {
				return ffZero(p.d.sub(q.d))
			}
		}
	case *Fp:
		if y.c.Sign() == 0 {
			return ffZero(p.d)
		}
	}
	panic(pathEnd{"unsupported", "comparison of point coordinates"})
}

func (c *Coord) load() *Pt {
	if c.pt != nil {
		return c.pt
	}
	return (*c.cell).(*Pt)
}

// mapKey canonicalises a concrete key.
func (it *Interp) mapKey(v Value) string {
	switch v := v.(type) {
	case bool:
		return fmt.Sprint("b", v)
	case int64:
		return fmt.Sprint("i", v)
	case string:
		return "s" + v
	case *Term:
		if v.w == 0 {
			return fmt.Sprint("b", it.path.branch(v))
		}
		// note: sign normalisation is not needed for identity
		return fmt.Sprint("i", int64(it.path.concretize(v)))
	case *Value:
		return fmt.Sprintf("p%p", v)
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return "I" + v.t.String() + ":" + it.mapKey(v.v)
	case Struct:
		var sb strings.Builder
		sb.WriteString("S")
		for _, x := range v {
			sb.WriteString(it.mapKey(x) + ",")
		}
		return sb.String()
	case Array:
		var sb strings.Builder
		sb.WriteString("A")
		for _, x := range v {
			sb.WriteString(it.mapKey(x) + ",")
		}
		return sb.String()
	case float64:
		return fmt.Sprint("f", v)
	case *Chan:
		return fmt.Sprintf("c%p", v)
	case BB:
		return fmt.Sprintf("B%p.%d", v.b, v.i)
	case *SymStr:
		var sb strings.Builder
		sb.WriteString("Y")
		for _, x := range v.cells {
			sb.WriteString(it.mapKey(x) + ",")
		}
		return sb.String()
	case *Poly:
		return "P" + v.String()
	case HexTok:
		return fmt.Sprint("h", v.up) + it.mapKey(v.c)
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("map key %T", v)})
}

var hasher = typeutil.MakeHasher()

func show(v Value) string {
	switch v := v.(type) {
	case *Pt:
		return fmt.Sprintf("G%d[%s]", v.g, v.d)
	case *Poly:
		return v.String()
	case *Term:
		return v.String()
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return v.t.String() + "(" + show(v.v) + ")"
	case Struct:
		var ss []string
		for _, x := range v {
			ss = append(ss, show(x))
		}
		return "{" + strings.Join(ss, " ") + "}"
	}
	return fmt.Sprintf("%v", v)
}
