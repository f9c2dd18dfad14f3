package main

import (
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (fr *Frame) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.ARROW:
		v, ok := fr.chanRecv(x, in.X.Type().Underlying().(*types.Chan).Elem())
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	case token.MUL:
		return fr.load(x)
	case token.NOT:
		return boolVal(tNot(toBoolTerm(x)))
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		w, s, _ := intInfo(in.X.Type())
		if i, ok := x.(int64); ok {
			return normInt(w, s, uint64(-i))
		}
		return tBV("bvsub", tConst(w, 0), toTerm(x, w))
	case token.XOR:
		w, s, _ := intInfo(in.X.Type())
		if i, ok := x.(int64); ok {
			return normInt(w, s, ^uint64(i))
		}
		return tBV("bvxor", tConst(w, ^uint64(0)), toTerm(x, w))
	}
	unsupported("unary %s", in.Op)
	return nil
}

var bvOp = map[token.Token]string{
	token.ADD: "bvadd", token.SUB: "bvsub", token.MUL: "bvmul",
	token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor",
}

func (fr *Frame) binop(op token.Token, t, ty types.Type, x, y Value) Value {
	switch op {
	case token.EQL:
		return boolVal(fr.it.eqVals(t, x, y))
	case token.NEQ:
		return boolVal(tNot(fr.it.eqVals(t, x, y)))
	}
	switch a := x.(type) {
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return fround(t, a+b)
		case token.SUB:
			return fround(t, a-b)
		case token.MUL:
			return fround(t, a*b)
		case token.QUO:
			return fround(t, a/b)
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case string, *SymStr:
		sa, ok1 := x.(string)
		sb, ok2 := y.(string)
		if op == token.ADD {
			if ok1 && ok2 {
				return sa + sb
			}
			return cellsToStr(append(append([]Value{}, strCells(x)...), strCells(y)...))
		}
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return sa < sb
			case token.LEQ:
				return sa <= sb
			case token.GTR:
				return sa > sb
			case token.GEQ:
				return sa >= sb
			}
		}
		unsupported("string operator %s on symbolic strings", op)
	case bool:
		if b, ok := y.(bool); ok {
			switch op {
			case token.AND, token.LAND:
				return a && b
			case token.OR, token.LOR:
				return a || b
			}
		}
	}
	w, signed, ok := intInfo(t)
	if !ok {
		unsupported("operator %s on %s (%T) in %s", op, t, x, fr.where())
	}
	// xor/or of opaque bytes (constant-time comparison loops)
	if bx, ok := x.(BB); ok {
		return fr.bbOp(op, bx, y)
	}
	if by, ok := y.(BB); ok {
		return fr.bbOp(op, by, x)
	}
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	switch op {
	case token.SHL, token.SHR:
		wy, sy, _ := intInfo(ty)
		if ok2 && sy && b < 0 {
			fr.rtPanic("negative shift amount")
		}
		if ok1 && ok2 {
			sh := uint64(b)
			if op == token.SHL {
				if sh >= 64 {
					return int64(0)
				}
				return normInt(w, signed, uint64(a)<<sh)
			}
			if signed {
				if sh >= 64 {
					sh = 63
				}
				return normInt(w, signed, uint64(a>>sh))
			}
			if sh >= 64 {
				return int64(0)
			}
			return normInt(w, signed, uint64(a)>>sh)
		}
		tx := toTerm(x, w)
		tyv := toTerm(y, wy)
		if !ok2 && sy {
			if fr.it.path.branch(tBV("bvslt", tyv, tConst(wy, 0))) {
				fr.rtPanic("negative shift amount")
			}
		}
		// bring the shift amount to width w, saturating
		var sh *Term
		if wy > w {
			sh = tIte(tBV("bvult", tyv, tConst(wy, uint64(w))), tTrunc(tyv, w), tConst(w, uint64(w)))
		} else {
			sh = tExtend(tyv, w, false)
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if signed {
				return intVal(mk("bvashr", w, tx, sh), w, signed)
			}
		}
		return intVal(tBV(o, tx, sh), w, signed)
	}
	if ok1 && ok2 {
		ua, ub := uint64(a), uint64(b)
		switch op {
		case token.ADD:
			return normInt(w, signed, ua+ub)
		case token.SUB:
			return normInt(w, signed, ua-ub)
		case token.MUL:
			return normInt(w, signed, ua*ub)
		case token.QUO:
			if b == 0 {
				fr.rtPanic("integer divide by zero")
			}
			if signed {
				if b == -1 {
					return normInt(w, signed, -ua)
				}
				return normInt(w, signed, uint64(a/b))
			}
			return normInt(w, signed, ua/ub)
		case token.REM:
			if b == 0 {
				fr.rtPanic("integer divide by zero")
			}
			if signed {
				if b == -1 {
					return int64(0)
				}
				return normInt(w, signed, uint64(a%b))
			}
			return normInt(w, signed, ua%ub)
		case token.AND:
			return normInt(w, signed, ua&ub)
		case token.OR:
			return normInt(w, signed, ua|ub)
		case token.XOR:
			return normInt(w, signed, ua^ub)
		case token.AND_NOT:
			return normInt(w, signed, ua&^ub)
		}
		if signed {
			switch op {
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			}
		}
		switch op {
		case token.LSS:
			return ua < ub
		case token.LEQ:
			return ua <= ub
		case token.GTR:
			return ua > ub
		case token.GEQ:
			return ua >= ub
		}
		unsupported("integer operator %s", op)
	}
	tx, tyv := toTerm(x, w), toTerm(y, w)
	if o, ok := bvOp[op]; ok {
		return intVal(tBV(o, tx, tyv), w, signed)
	}
	switch op {
	case token.AND_NOT:
		return intVal(tBV("bvand", tx, tBV("bvxor", tyv, tConst(w, ^uint64(0)))), w, signed)
	case token.QUO, token.REM:
		if fr.it.path.branch(tEq(tyv, tConst(w, 0))) {
			fr.rtPanic("integer divide by zero")
		}
		o := map[token.Token]string{token.QUO: "div", token.REM: "rem"}[op]
		if signed {
			return intVal(tBV("bvs"+o, tx, tyv), w, signed)
		}
		return intVal(tBV("bvu"+o, tx, tyv), w, signed)
	}
	p := "bvu"
	if signed {
		p = "bvs"
	}
	switch op {
	case token.LSS:
		return boolVal(tBV(p+"lt", tx, tyv))
	case token.LEQ:
		return boolVal(tBV(p+"le", tx, tyv))
	case token.GTR:
		return boolVal(tBV(p+"lt", tyv, tx))
	case token.GEQ:
		return boolVal(tBV(p+"le", tyv, tx))
	}
	unsupported("integer operator %s", op)
	return nil
}

// bbOp: the few byte operations that make sense on opaque bytes.
func (fr *Frame) bbOp(op token.Token, x BB, y Value) Value {
	if op == token.XOR {
		// zero iff equal; any other value otherwise
		eq := fr.it.eqByte(x, y)
		return intVal(tIte(eq, tConst(8, 0), tConst(8, 0x5a)), 8, false)
	}
	if op == token.AND || op == token.OR || op == token.SHR || op == token.SHL {
		unsupported("bit operation %s on an opaque encoded byte in %s", op, fr.where())
	}
	unsupported("operation %s on an opaque encoded byte in %s", op, fr.where())
	return nil
}

func fround(t types.Type, f float64) Value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return float64(float32(f))
	}
	return f
}

func (fr *Frame) conv(dst, src types.Type, x Value) Value {
	du, su := dst.Underlying(), src.Underlying()
	if wd, sd, ok := intInfo(dst); ok {
		switch v := x.(type) {
		case int64:
			return normInt(wd, sd, uint64(v))
		case *Term:
			_, ss, _ := intInfo(src)
			if wd <= v.w {
				return intVal(tTrunc(v, wd), wd, sd)
			}
			return intVal(tExtend(v, wd, ss), wd, sd)
		case BB:
			return v // arithmetic on it is rejected where it happens
		case *symFloat:
			// float64(int) -> int round trip
			return fr.conv(dst, types.Typ[types.Int64], v.i)
		case float64:
			if !sd && wd == 64 && v >= 1<<63 {
				return int64(uint64(v))
			}
			if math.IsNaN(v) || v >= 9.3e18 || v <= -9.3e18 {
				// implementation-defined on amd64: 0x8000000000000000
				return normInt(wd, sd, 1<<63)
			}
			return normInt(wd, sd, uint64(int64(v)))
		}
	}
	if b, ok := du.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsFloat != 0:
			switch v := x.(type) {
			case float64:
				return fround(dst, v)
			case int64:
				_, ss, _ := intInfo(src)
				if ss {
					return fround(dst, float64(v))
				}
				return fround(dst, float64(uint64(v)))
			case *Term:
				return fround(dst, float64(fr.concInt2(v, src)))
			}
		case b.Info()&types.IsString != 0:
			switch v := x.(type) {
			case string, *SymStr:
				return v
			case Slice:
				if isByte(su.(*types.Slice).Elem()) {
					return cellsToStr(v)
				}
				rs := make([]rune, len(v))
				for i := range v {
					rs[i] = rune(fr.concInt(v[i]))
				}
				return string(rs)
			case int64:
				return string(rune(v))
			}
		case b.Kind() == types.UnsafePointer:
			return x
		}
	}
	if s, ok := du.(*types.Slice); ok {
		switch v := x.(type) {
		case string, *SymStr:
			if isByte(s.Elem()) {
				return Slice(append([]Value{}, strCells(v)...))
			}
			if c, ok := v.(string); ok {
				var out Slice
				for _, r := range c {
					out = append(out, int64(r))
				}
				return out
			}
		case Slice:
			return v
		}
	}
	if _, ok := du.(*types.Array); ok {
		if v, ok := x.(Slice); ok {
			n := int(du.(*types.Array).Len())
			if len(v) < n {
				fr.rtPanic("cannot convert slice with length %d to array with length %d", len(v), n)
			}
			return copyVal(Array(v[:n]))
		}
	}
	if _, ok := du.(*types.Pointer); ok {
		return x
	}
	if types.Identical(du, su) {
		return x
	}
	unsupported("conversion %s -> %s (%T) in %s", src, dst, x, fr.where())
	return nil
}

type symFloat struct{ i Value }

func (fr *Frame) concInt2(t *Term, src types.Type) float64 {
	w, s, _ := intInfo(src)
	v := fr.it.path.concretize(t)
	n := normInt(w, s, v)
	if !s {
		return float64(uint64(n))
	}
	return float64(n)
}

func (it *Interp) callBuiltin(fr *Frame, fn *ssa.Builtin, args []Value) Value {
	switch fn.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a := args[0].(Slice)
		var b []Value
		switch y := args[1].(type) {
		case Slice:
			b = y
		case string, *SymStr:
			b = strCells(y)
		}
		if it.race != nil {
			for i := range b {
				it.race.read(fr, &b[i])
			}
		}
		nb := make([]Value, len(b))
		for i := range b {
			nb[i] = copyVal(b[i])
		}
		if len(b) == 0 {
			return a
		}
		r := append(a, nb...)
		if it.race != nil {
			for i := len(a); i < len(r); i++ {
				it.race.write(fr, &r[i])
			}
		}
		// elements beyond len must be properly typed zero values
		if cap(r) > len(r) && r[:cap(r)][cap(r)-1] == nil {
			ext := r[len(r):cap(r)]
			var z Value
			for i := range ext {
				if ext[i] == nil {
					if z == nil {
						if st, ok := fn.Type().(*types.Signature); ok {
							if sl, ok := st.Params().At(0).Type().Underlying().(*types.Slice); ok {
								z = zero(sl.Elem())
							}
						}
						if z == nil {
							break
						}
					}
					ext[i] = copyVal(z)
				}
			}
		}
		return r
	case "copy":
		dst := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			src = strCells(y)
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		if it.race != nil {
			for i := 0; i < n; i++ {
				it.race.read(fr, &src[i])
				it.race.write(fr, &dst[i])
			}
		}
		if n > 0 {
			switch src[0].(type) {
			case Struct, Array:
				tmp := make([]Value, n)
				for i := range tmp {
					tmp[i] = copyVal(src[i])
				}
				copy(dst, tmp)
			default:
				copy(dst[:n], src[:n])
			}
		}
		return int64(n)
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *SymStr:
			for _, c := range x.cells {
				if _, ok := c.(DecTok); ok {
					unsupported("length of a symbolic decimal string")
				}
			}
			return int64(len(x.cells))
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.m))
		case *Chan:
			if x == nil {
				return int64(0)
			}
			return int64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		case *Value:
			return int64(len((*x).(Array)))
		case *Chan:
			return int64(x.cap)
		}
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			k := it.mapKey(args[1])
			if _, ok := m.m[k]; ok {
				delete(m.m, k)
				for i, o := range m.order {
					if o == k {
						m.order = append(append([]string{}, m.order[:i]...), m.order[i+1:]...)
						break
					}
				}
			}
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			x.m = map[string]*mapEntry{}
			x.order = nil
		case Slice:
			if st, ok := fn.Type().(*types.Signature); ok {
				el := st.Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := range x {
					x[i] = zero(el)
				}
			}
		}
		return nil
	case "close":
		fr.chanClose(args[0])
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], s: "panic: " + it.panicString(fr, args[0])})
	case "recover":
		// the caller of recover is the deferred function; the panicking frame
		// is its caller
		if fr.caller != nil && fr.caller.panicing {
			fr.caller.panicing = false
			v := fr.caller.panic.v
			fr.caller.panic = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		st := fn.Type().(*types.Signature)
		t := st.Params().At(0).Type()
		r := args[0]
		for _, a := range args[1:] {
			var less bool
			c := fr.binop(token.LSS, t, t, a, r)
			if ct, ok := c.(*Term); ok {
				less = it.path.branch(ct)
			} else {
				less = c.(bool)
			}
			if (fn.Name() == "min") == less {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			fr.rtPanic("value method called using nil pointer")
		}
		return args[0]
	}
	unsupported("builtin %s on %T", fn.Name(), args[0])
	return nil
}
