package main

import (
	"encoding/base64"
	"go/types"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Models of library functions that the code under test does not use now but may
// come to use.

type syncMap struct {
	keys, vals []Value
	vc         VC
}
type condState struct {
	seq   int // waiters so far
	woken int
	vc    VC
}

func (m *syncMap) find(fr *Frame, k Value) int {
	for i := range m.keys {
		if fr.it.path.branch(fr.it.eqVals(nil, m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func ifaceEq(fr *Frame, a, b Value) bool {
	return fr.it.path.branch(fr.it.eqVals(nil, a, b))
}

// comparable as the run time sees it
func hasEq(t types.Type) bool { return t != nil && types.Comparable(t) }

func init() {
	// ---- sync/atomic.Value
	av := func(fr *Frame, a []Value) *syncMap {
		m := sideOf[syncMap](fr, a[0])
		fr.it.acquire(m.vc)
		fr.it.release(&m.vc)
		fr.it.progress++
		if m.vals == nil {
			m.vals = []Value{Iface{}}
		}
		return m
	}
	reg("(*sync/atomic.Value).Load", func(fr *Frame, a []Value) Value { return av(fr, a).vals[0] })
	chk := func(fr *Frame, m *syncMap, v Value) {
		n, o := v.(Iface), m.vals[0].(Iface)
		if n.t == nil {
			panic(&targetPanic{v: fr.it.mkError("sync/atomic: store of nil value into Value"), s: "panic: sync/atomic: store of nil value into Value"})
		}
		if o.t != nil && !types.Identical(n.t, o.t) {
			panic(&targetPanic{v: fr.it.mkError("sync/atomic: store of inconsistently typed value into Value"), s: "panic: sync/atomic: store of inconsistently typed value into Value"})
		}
	}
	reg("(*sync/atomic.Value).Store", func(fr *Frame, a []Value) Value {
		m := av(fr, a)
		chk(fr, m, a[1])
		m.vals[0] = a[1]
		return nil
	})
	reg("(*sync/atomic.Value).Swap", func(fr *Frame, a []Value) Value {
		m := av(fr, a)
		chk(fr, m, a[1])
		o := m.vals[0]
		m.vals[0] = a[1]
		return o
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(fr *Frame, a []Value) Value {
		m := av(fr, a)
		chk(fr, m, a[2])
		if o, ok := m.vals[0].(Iface), true; !ok || o.t == nil != (a[1].(Iface).t == nil) {
			return false
		}
		if m.vals[0].(Iface).t != nil && !ifaceEq(fr, m.vals[0], a[1]) {
			return false
		}
		m.vals[0] = a[2]
		return true
	})

	// ---- sync.Map
	sm := func(fr *Frame, a []Value) *syncMap {
		m := sideOf[syncMap](fr, a[0])
		fr.it.acquire(m.vc)
		fr.it.release(&m.vc)
		fr.it.progress++
		return m
	}
	del := func(m *syncMap, i int) {
		m.keys = append(append([]Value{}, m.keys[:i]...), m.keys[i+1:]...)
		m.vals = append(append([]Value{}, m.vals[:i]...), m.vals[i+1:]...)
	}
	set := func(fr *Frame, m *syncMap, k, v Value) {
		if i := m.find(fr, k); i >= 0 {
			m.vals[i] = v
			return
		}
		m.keys, m.vals = append(m.keys, k), append(m.vals, v)
	}
	reg("(*sync.Map).Load", func(fr *Frame, a []Value) Value {
		m := sm(fr, a)
		if i := m.find(fr, a[1]); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Store", func(fr *Frame, a []Value) Value { set(fr, sm(fr, a), a[1], a[2]); return nil })
	reg("(*sync.Map).LoadOrStore", func(fr *Frame, a []Value) Value {
		m := sm(fr, a)
		if i := m.find(fr, a[1]); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		set(fr, m, a[1], a[2])
		return Tuple{a[2], false}
	})
	reg("(*sync.Map).LoadAndDelete", func(fr *Frame, a []Value) Value {
		m := sm(fr, a)
		if i := m.find(fr, a[1]); i >= 0 {
			v := m.vals[i]
			del(m, i)
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Delete", func(fr *Frame, a []Value) Value {
		m := sm(fr, a)
		if i := m.find(fr, a[1]); i >= 0 {
			del(m, i)
		}
		return nil
	})
	reg("(*sync.Map).Swap", func(fr *Frame, a []Value) Value {
		m := sm(fr, a)
		if i := m.find(fr, a[1]); i >= 0 {
			v := m.vals[i]
			m.vals[i] = a[2]
			return Tuple{v, true}
		}
		set(fr, m, a[1], a[2])
		return Tuple{Iface{}, false}
	})
	reg("(*sync.Map).Range", func(fr *Frame, a []Value) Value {
		m := sm(fr, a)
		ks, vs := append([]Value{}, m.keys...), append([]Value{}, m.vals...)
		for i := range ks {
			if !fr.concBool(fr.it.call(fr, a[1], []Value{ks[i], vs[i]})) {
				break
			}
		}
		return nil
	})
	reg("(*sync.Map).Clear", func(fr *Frame, a []Value) Value { m := sm(fr, a); m.keys, m.vals = nil, nil; return nil })

	// ---- sync.Cond
	locker := func(fr *Frame, c Value) Iface {
		// struct { noCopy; L Locker; ... }
		for _, f := range (*c.(*Value)).(Struct) {
			if i, ok := f.(Iface); ok {
				return i
			}
		}
		unsupported("sync.Cond without a lock")
		return Iface{}
	}
	reg("(*sync.Cond).Wait", func(fr *Frame, a []Value) Value {
		c := sideOf[condState](fr, a[0])
		l := locker(fr, a[0])
		my := c.seq
		c.seq++
		fr.it.call(fr, fr.it.method(l.t, nil, "Unlock"), []Value{l.v})
		fr.it.sched.block(func() bool { return c.woken > my }, "Cond.Wait")
		fr.it.acquire(c.vc)
		fr.it.call(fr, fr.it.method(l.t, nil, "Lock"), []Value{l.v})
		return nil
	})
	reg("(*sync.Cond).Signal", func(fr *Frame, a []Value) Value {
		c := sideOf[condState](fr, a[0])
		fr.it.release(&c.vc)
		if c.woken < c.seq {
			c.woken++
			fr.it.progress++
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(fr *Frame, a []Value) Value {
		c := sideOf[condState](fr, a[0])
		fr.it.release(&c.vc)
		c.woken = c.seq
		fr.it.progress++
		return nil
	})

	// ---- errors
	reg("errors.Is", func(fr *Frame, a []Value) Value { return fr.it.errorsIs(fr, a[0].(Iface), a[1].(Iface)) })
	reg("errors.As", func(fr *Frame, a []Value) Value {
		target := a[1].(Iface)
		if target.t == nil {
			panic(&targetPanic{v: fr.it.mkError("errors: target cannot be nil"), s: "panic: errors: target cannot be nil"})
		}
		pt, ok := target.t.Underlying().(*types.Pointer)
		cell, _ := target.v.(*Value)
		if !ok || cell == nil {
			panic(&targetPanic{v: fr.it.mkError("errors: target must be a non-nil pointer"), s: "panic: errors: target must be a non-nil pointer"})
		}
		return fr.it.errorsAs(fr, a[0].(Iface), target, pt.Elem(), cell)
	})

	// ---- bytealg
	reg("internal/bytealg.MakeNoZero", func(fr *Frame, a []Value) Value {
		s := make(Slice, fr.concInt(a[0]))
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})
	conc2 := func(fr *Frame, v Value) (string, bool) {
		switch v := v.(type) {
		case string:
			return v, true
		case Slice:
			b, ok := concreteBytes(v)
			return string(b), ok
		}
		return "", false
	}
	two := func(name string, f func(x, y string) Value) {
		reg("internal/bytealg."+name, func(fr *Frame, a []Value) Value {
			x, ok1 := conc2(fr, a[0])
			y, ok2 := conc2(fr, a[1])
			if !ok1 || !ok2 {
				unsupported("%s of symbolic bytes", name)
			}
			return f(x, y)
		})
	}
	two("Index", func(x, y string) Value { return int64(strings.Index(x, y)) })
	two("IndexString", func(x, y string) Value { return int64(strings.Index(x, y)) })
	two("CompareString", func(x, y string) Value { return int64(strings.Compare(x, y)) })
	cnt := func(fr *Frame, a []Value) Value {
		x, ok := conc2(fr, a[0])
		if !ok {
			unsupported("Count of symbolic bytes")
		}
		return int64(strings.Count(x, string([]byte{byte(fr.concInt(a[1]))})))
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	reg("internal/stringslite.Clone", func(fr *Frame, a []Value) Value { return a[0] })
	reg("strings.Clone", func(fr *Frame, a []Value) Value { return a[0] })

	// ---- text
	reg("(*encoding/base64.Encoding).EncodeToString", func(fr *Frame, a []Value) Value {
		b, ok := concreteBytes(a[1].(Slice))
		if !ok {
			return "<base64>"
		}
		return base64.StdEncoding.EncodeToString(b)
	})
	reg("encoding/hex.Encode", func(fr *Frame, a []Value) Value {
		d, s := a[0].(Slice), a[1].(Slice)
		h := hexCells(s)
		if len(d) < len(h) {
			fr.rtPanic("index out of range [%d] with length %d", len(h)-1, len(d))
		}
		copy(d, h)
		return int64(len(h))
	})
	reg("encoding/hex.AppendEncode", func(fr *Frame, a []Value) Value {
		return append(a[0].(Slice)[:len(a[0].(Slice)):len(a[0].(Slice))], hexCells(a[1].(Slice))...)
	})
	reg("(time.Time).Format", func(fr *Frame, a []Value) Value { return "2000-01-01" })
	reg("(time.Time).String", func(fr *Frame, a []Value) Value { return "2000-01-01" })
	for _, n := range []string{"Round", "Truncate"} {
		reg("(time.Duration)."+n, func(fr *Frame, a []Value) Value { return a[0] })
	}
	for _, n := range []string{"Minutes", "Hours"} {
		reg("(time.Duration)."+n, func(fr *Frame, a []Value) Value { return float64(0) })
	}
	// a timer never fires (the executor has no clock)
	never := func(fr *Frame, a []Value) Value { return &Chan{cap: 0} }
	reg("time.After", never)
	reg("time.Tick", never)
	reg("runtime.NumGoroutine", func(fr *Frame, a []Value) Value { return int64(1) })
	reg("runtime/debug.SetMemoryLimit", func(fr *Frame, a []Value) Value { return int64(1) << 62 })
	reg("runtime/debug.PrintStack", func(fr *Frame, a []Value) Value { return nil })
	reg("runtime/debug.Stack", func(fr *Frame, a []Value) Value { return Slice(nil) })
	reg("os.Getpid", func(fr *Frame, a []Value) Value { return int64(42) })
	reg("os.Hostname", func(fr *Frame, a []Value) Value { return Tuple{"host", nilErr} })

	// ---- big.Int
	B := "(*math/big.Int)."
	conc := func(fr *Frame, p Value) *big.Int {
		b := fr.bigv(p)
		if b.p != nil {
			unsupported("big.Int arithmetic on a symbolic value in %s", fr.where())
		}
		return b.c
	}
	for n, f := range map[string]func(z, x, y *big.Int) *big.Int{
		"And": (*big.Int).And, "Or": (*big.Int).Or, "Xor": (*big.Int).Xor, "AndNot": (*big.Int).AndNot,
	} {
		f := f
		reg(B+n, func(fr *Frame, a []Value) Value {
			fr.stv(a[0], &Big{c: f(new(big.Int), conc(fr, a[1]), conc(fr, a[2]))})
			return a[0]
		})
	}
	reg(B+"Rsh", func(fr *Frame, a []Value) Value {
		fr.stv(a[0], &Big{c: new(big.Int).Rsh(conc(fr, a[1]), uint(fr.concInt(a[2])))})
		return a[0]
	})
	for n, f := range map[string]func(z, x *big.Int) *big.Int{"Abs": (*big.Int).Abs, "Not": (*big.Int).Not, "Sqrt": (*big.Int).Sqrt} {
		f := f
		reg(B+n, func(fr *Frame, a []Value) Value {
			fr.stv(a[0], &Big{c: f(new(big.Int), conc(fr, a[1]))})
			return a[0]
		})
	}
	for n, f := range map[string]func(z, x, y, m *big.Int) (*big.Int, *big.Int){"DivMod": (*big.Int).DivMod, "QuoRem": (*big.Int).QuoRem} {
		f := f
		reg(B+n, func(fr *Frame, a []Value) Value {
			z, m := f(new(big.Int), conc(fr, a[1]), conc(fr, a[2]), new(big.Int))
			fr.stv(a[0], &Big{c: z})
			fr.stv(a[3], &Big{c: m})
			return Tuple{a[0], a[3]}
		})
	}
	reg(B+"CmpAbs", func(fr *Frame, a []Value) Value { return int64(conc(fr, a[0]).CmpAbs(conc(fr, a[1]))) })
	reg(B+"TrailingZeroBits", func(fr *Frame, a []Value) Value { return int64(conc(fr, a[0]).TrailingZeroBits()) })
	reg(B+"ProbablyPrime", func(fr *Frame, a []Value) Value { return conc(fr, a[0]).ProbablyPrime(int(fr.concInt(a[1]))) })
	reg(B+"SetBit", func(fr *Frame, a []Value) Value {
		fr.stv(a[0], &Big{c: new(big.Int).SetBit(conc(fr, a[1]), int(fr.concInt(a[2])), uint(fr.concInt(a[3])))})
		return a[0]
	})
	bigBlob := func(fr *Frame, b *Big) []Value {
		x := fr.it.newBlob("fr", 32)
		x.fr = b.p
		return x.cells()
	}
	reg(B+"Bytes", func(fr *Frame, a []Value) Value {
		b := fr.bigv(a[0])
		if b.p != nil {
			// the length of the result depends on the value; the leading
			// zeros of the usual one in 256 are not modelled
			unsupported("big.Int.Bytes of a symbolic value")
		}
		return Slice(bytesToCells(b.c.Bytes()))
	})
	reg(B+"FillBytes", func(fr *Frame, a []Value) Value {
		b, s := fr.bigv(a[0]), a[1].(Slice)
		if b.p != nil {
			if len(s) < 32 {
				unsupported("big.Int.FillBytes of a symbolic value")
			}
			for i := range s[:len(s)-32] {
				s[i] = int64(0)
			}
			copy(s[len(s)-32:], bigBlob(fr, b))
			return s
		}
		if (b.c.BitLen()+7)/8 > len(s) {
			panic(&targetPanic{v: fr.it.mkError("math/big: buffer too small to fit value"), s: "panic: math/big: buffer too small to fit value"})
		}
		bs := make([]byte, len(s))
		b.c.FillBytes(bs)
		copy(s, bytesToCells(bs))
		return s
	})

	// ---- field elements
	E := "(*" + pFR + ".Element)."
	half := func() *Poly {
		var h fr.Element
		h.SetUint64(2)
		h.Inverse(&h)
		return polyConst(h)
	}()
	reg(E+"Halve", func(fr *Frame, a []Value) Value { fr.stv(a[0], fr.poly(a[0]).mul(half)); return nil })
	for n, k := range map[string]int64{"MulBy3": 3, "MulBy5": 5, "MulBy13": 13} {
		k := k
		reg(pFR+"."+n, func(fr *Frame, a []Value) Value { fr.stv(a[0], fr.poly(a[0]).mul(polyInt(k))); return nil })
	}
	concFr := func(f *Frame, v Value, what string) fr.Element {
		var p *Poly
		if x, ok := v.(*Poly); ok {
			p = x
		} else {
			p = f.poly(v)
		}
		c, ok := p.isConst()
		if !ok {
			unsupported("%s of a symbolic field element", what)
		}
		return c
	}
	reg(E+"Uint64", func(f *Frame, a []Value) Value { c := concFr(f, a[0], "Uint64"); return int64(c.Uint64()) })
	reg(E+"IsUint64", func(f *Frame, a []Value) Value { c := concFr(f, a[0], "IsUint64"); return c.IsUint64() })
	reg(E+"FitsOnOneWord", func(f *Frame, a []Value) Value { c := concFr(f, a[0], "FitsOnOneWord"); return c.FitsOnOneWord() })
	reg(E+"BitLen", func(f *Frame, a []Value) Value { c := concFr(f, a[0], "BitLen"); return int64(c.BitLen()) })
	reg(E+"Text", func(f *Frame, a []Value) Value {
		if c, ok := f.poly(a[0]).isConst(); ok {
			return c.Text(int(f.concInt(a[1])))
		}
		return "<fr>"
	})
	reg(E+"Cmp", func(f *Frame, a []Value) Value {
		x, y := concFr(f, a[0], "Cmp"), concFr(f, a[1], "Cmp")
		return int64(x.Cmp(&y))
	})
	reg(E+"Select", func(f *Frame, a []Value) Value {
		if f.concInt(a[1]) == 0 {
			f.stv(a[0], f.poly(a[2]))
		} else {
			f.stv(a[0], f.poly(a[3]))
		}
		return a[0]
	})
	reg(E+"SetInterface", func(f *Frame, a []Value) Value {
		i := a[1].(Iface)
		if i.t == nil {
			return Tuple{(*Value)(nil), f.it.mkError("can't set fr.Element with <nil>")}
		}
		ok := func(p *Poly) Value { f.stv(a[0], p); return Tuple{a[0], nilErr} }
		switch v := i.v.(type) {
		case *Poly:
			return ok(v)
		case int64, *Term:
			if _, signed, _ := intInfo(i.t); signed {
				return ok(f.frFromInt(v, 64, true))
			}
			return ok(f.frFromInt(v, 64, false))
		case *Big:
			return ok(v.poly())
		case string:
			var e fr.Element
			if _, err := e.SetString(v); err != nil {
				return Tuple{(*Value)(nil), f.it.mkError(err.Error())}
			}
			return ok(polyConst(e))
		case *Value:
			if v != nil {
				switch w := (*v).(type) {
				case *Poly:
					return ok(w)
				case *Big:
					return ok(w.poly())
				}
			}
		}
		unsupported("SetInterface of %s", i.t)
		return nil
	})
}

// errorsIs is errors.Is.
func (it *Interp) errorsIs(fr *Frame, err, target Iface) bool {
	if err.t == nil || target.t == nil {
		return err.t == nil && target.t == nil
	}
	for {
		if hasEq(target.t) && types.Identical(err.t, target.t) && ifaceEq(fr, err, target) {
			return true
		}
		if f := it.methodSig(err.t, "Is", "func(error) bool"); f != nil {
			if fr.concBool(it.call(fr, f, []Value{copyVal(err.v), target})) {
				return true
			}
		}
		if f := it.methodSig(err.t, "Unwrap", "func() error"); f != nil {
			err = it.call(fr, f, []Value{copyVal(err.v)}).(Iface)
			if err.t == nil {
				return false
			}
			continue
		}
		if f := it.methodSig(err.t, "Unwrap", "func() []error"); f != nil {
			for _, e := range it.call(fr, f, []Value{copyVal(err.v)}).(Slice) {
				if e := e.(Iface); e.t != nil && it.errorsIs(fr, e, target) {
					return true
				}
			}
		}
		return false
	}
}

func (it *Interp) errorsAs(fr *Frame, err, target Iface, want types.Type, cell *Value) bool {
	iface, isI := want.Underlying().(*types.Interface)
	for err.t != nil {
		if isI && fr.implements(err.t, iface) {
			*cell = err
			return true
		}
		if !isI && types.Identical(err.t, want) {
			*cell = copyVal(err.v)
			return true
		}
		if f := it.methodSig(err.t, "As", "func(any) bool"); f != nil {
			if fr.concBool(it.call(fr, f, []Value{copyVal(err.v), target})) {
				return true
			}
		}
		if f := it.methodSig(err.t, "Unwrap", "func() error"); f != nil {
			err = it.call(fr, f, []Value{copyVal(err.v)}).(Iface)
			continue
		}
		if f := it.methodSig(err.t, "Unwrap", "func() []error"); f != nil {
			for _, e := range it.call(fr, f, []Value{copyVal(err.v)}).(Slice) {
				if e := e.(Iface); e.t != nil && it.errorsAs(fr, e, target, want, cell) {
					return true
				}
			}
		}
		return false
	}
	return false
}

// methodSig returns a method by name if it has the signature.
func (it *Interp) methodSig(t types.Type, name, sig string) Value {
	if n, ok := nativeMethods[typeKey(t)+"."+name]; ok {
		return n
	}
	it.ld.mu.Lock()
	sel := it.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	it.ld.mu.Unlock()
	if sel == nil {
		return nil
	}
	s := sel.Type().(*types.Signature)
	str := func(tp *types.Tuple) string {
		var r []string
		for i := 0; i < tp.Len(); i++ {
			x := types.TypeString(tp.At(i).Type(), nil)
			if x == "interface{}" {
				x = "any"
			}
			r = append(r, x)
		}
		return strings.Join(r, ", ")
	}
	got := "func(" + str(s.Params()) + ")"
	if s.Results().Len() > 0 {
		got += " " + str(s.Results())
	}
	if got != sig {
		return nil
	}
	return it.method(t, nil, name)
}

// rtError is a run-time error.
func (it *Interp) rtError(msg string) Value {
	if p := it.ld.pkg("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			return Iface{t: t.Type(), v: msg}
		}
	}
	return it.mkError("runtime error: " + msg)
}
