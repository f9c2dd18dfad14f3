package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- gob

type gobEnc struct {
	w    Iface
	sent map[string]bool
}
type gobDec struct {
	r Iface
}

func reflType(t types.Type) (reflect.Type, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return reflect.TypeOf(false), true
		case u.Info()&types.IsUnsigned != 0:
			return reflect.TypeOf(uint64(0)), true
		case u.Info()&types.IsInteger != 0:
			return reflect.TypeOf(int64(0)), true
		case u.Info()&types.IsFloat != 0:
			return reflect.TypeOf(float64(0)), true
		case u.Info()&types.IsString != 0:
			return reflect.TypeOf(""), true
		}
	case *types.Slice:
		if isByte(u.Elem()) {
			return reflect.TypeOf([]byte(nil)), true
		}
		e, ok := reflType(u.Elem())
		if !ok {
			return nil, false
		}
		return reflect.SliceOf(e), true
	case *types.Struct:
		var fs []reflect.StructField
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if !f.Exported() {
				continue
			}
			e, ok := reflType(f.Type())
			if !ok {
				return nil, false
			}
			fs = append(fs, reflect.StructField{Name: f.Name(), Type: e})
		}
		return reflect.StructOf(fs), true
	}
	return nil, false
}

func reflFill(dst reflect.Value, t types.Type, v Value) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch v := v.(type) {
		case bool:
			dst.SetBool(v)
		case int64:
			if dst.Kind() == reflect.Uint64 {
				dst.SetUint(uint64(v))
			} else {
				dst.SetInt(v)
			}
		case float64:
			dst.SetFloat(v)
		case string:
			dst.SetString(v)
		case *Term:
			if v.w == 0 {
				dst.SetBool(true)
			} else if dst.Kind() == reflect.Uint64 {
				dst.SetUint(1)
			} else {
				dst.SetInt(1)
			}
		}
	case *types.Slice:
		s := v.(Slice)
		dst.Set(reflect.MakeSlice(dst.Type(), len(s), len(s)))
		for i := range s {
			if dst.Type().Elem().Kind() == reflect.Uint8 {
				if c, ok := s[i].(int64); ok {
					dst.Index(i).SetUint(uint64(byte(c)))
				}
				continue
			}
			reflFill(dst.Index(i), u.Elem(), s[i])
		}
	case *types.Struct:
		s := v.(Struct)
		j := 0
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Exported() {
				reflFill(dst.Field(j), u.Field(i).Type(), s[i])
				j++
			}
		}
	}
}

// gobLen computes the length of the native encoding.
func gobLen(t types.Type, v Value) int {
	rt, ok := reflType(t)
	if !ok {
		unsupported("gob encoding of %s", t)
	}
	rv := reflect.New(rt).Elem()
	reflFill(rv, t, v)
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).EncodeValue(rv); err != nil {
		unsupported("gob: %v", err)
	}
	n := b.Len()
	if nm, ok := types.Unalias(t).(*types.Named); ok {
		if _, ok := t.Underlying().(*types.Struct); ok {
			old := int(b.Bytes()[0])
			n += 2 + len(nm.Obj().Name())
			if old < 128 && old+2+len(nm.Obj().Name()) >= 128 {
				n++
			}
		}
	}
	return n
}

func deepCopyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = deepCopyVal(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = deepCopyVal(v[i])
		}
		return r
	case Slice:
		if v == nil {
			return v
		}
		r := make(Slice, len(v))
		for i := range v {
			r[i] = deepCopyVal(v[i])
		}
		return r
	case *Map:
		if v == nil {
			return v
		}
		m := &Map{m: map[string]*mapEntry{}}
		for _, k := range v.order {
			e := v.m[k]
			m.set(k, deepCopyVal(e.k), deepCopyVal(e.v))
		}
		return m
	case *Value:
		if v == nil {
			return v
		}
		return newCell(deepCopyVal(*v))
	case Iface:
		return Iface{v.t, deepCopyVal(v.v)}
	}
	return v
}

func isZeroVal(fr *Frame, t types.Type, v Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return tBool(len(v.(Slice)) == 0)
	case *types.Struct:
		return tFalse
	case *types.Basic:
		_ = u
		return fr.it.eqVals(t, v, zero(t))
	}
	return tFalse
}

func gobCompat(a, b types.Type) bool {
	ra, ok1 := reflType(a)
	rb, ok2 := reflType(b)
	if !ok1 || !ok2 {
		return false
	}
	if ra.Kind() == reflect.Struct && rb.Kind() == reflect.Struct {
		return true
	}
	if ra.Kind() == reflect.Slice && rb.Kind() == reflect.Slice {
		return ra.Elem().Kind() == rb.Elem().Kind()
	}
	return ra.Kind() == rb.Kind()
}

// gobAssign decodes src (of type st) into *dst (of type dt).
func (fr *Frame) gobAssign(dt types.Type, dst *Value, st types.Type, src Value) string {
	ds, ok1 := dt.Underlying().(*types.Struct)
	ss, ok2 := st.Underlying().(*types.Struct)
	if ok1 != ok2 || !gobCompat(dt, st) {
		return "type mismatch in decoder: want " + dt.String()
	}
	if !ok1 {
		*dst = deepCopyVal(src)
		return ""
	}
	d := (*dst).(Struct)
	s := src.(Struct)
	match := 0
	for i := 0; i < ss.NumFields(); i++ {
		if !ss.Field(i).Exported() {
			continue
		}
		for j := 0; j < ds.NumFields(); j++ {
			if ds.Field(j).Name() != ss.Field(i).Name() || !ds.Field(j).Exported() {
				continue
			}
			match++
			if !gobCompat(ds.Field(j).Type(), ss.Field(i).Type()) {
				return "wrong type for received field " + ss.Field(i).Name()
			}
			if _, isS := ss.Field(i).Type().Underlying().(*types.Struct); isS {
				if e := fr.gobAssign(ds.Field(j).Type(), &d[j], ss.Field(i).Type(), s[i]); e != "" {
					return e
				}
				continue
			}
			z := isZeroVal(fr, ss.Field(i).Type(), s[i])
			switch {
			case z == tTrue:
			case z == tFalse:
				d[j] = deepCopyVal(s[i])
			default:
				// zero fields are not transmitted: keep the old value
				if fr.it.eqVals(ds.Field(j).Type(), d[j], zero(ds.Field(j).Type())) == tTrue {
					d[j] = s[i]
				} else if fr.it.path.branch(z) {
				} else {
					d[j] = s[i]
				}
			}
		}
	}
	if match == 0 {
		return "type mismatch: no fields matched"
	}
	return ""
}

// readExact reads n bytes via io.ReadFull on the interface.
func (fr *Frame) readExact(r Iface, n int) (Slice, Value) {
	buf := make(Slice, n)
	for i := range buf {
		buf[i] = int64(0)
	}
	rf := fr.it.ld.pkg("io").Func("ReadFull")
	t := fr.it.callSSA(fr, rf, []Value{r, buf}, nil).(Tuple)
	return buf, t[1]
}

func (fr *Frame) write(w Iface, cells []Value) Value {
	r := fr.it.call(fr, fr.it.method(w.t, nil, "Write"), []Value{w.v, Slice(cells)}).(Tuple)
	return r[1]
}

func (it *Interp) hasMethod(t types.Type, name string) bool {
	it.ld.mu.Lock()
	defer it.ld.mu.Unlock()
	return it.prog.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

func init() {
	reg("encoding/gob.NewEncoder", func(fr *Frame, a []Value) Value {
		return newCell(&gobEnc{w: a[0].(Iface), sent: map[string]bool{}})
	})
	reg("encoding/gob.NewDecoder", func(fr *Frame, a []Value) Value {
		r := a[0].(Iface)
		if !fr.it.hasMethod(r.t, "ReadByte") {
			nr := fr.it.ld.pkg("bufio").Func("NewReader")
			b := fr.it.callSSA(fr, nr, []Value{r}, nil)
			bt := fr.it.ld.pkg("bufio").Type("Reader")
			r = Iface{t: types.NewPointer(bt.Type()), v: b}
		}
		return newCell(&gobDec{r: r})
	})
	reg("encoding/gob.Register", func(fr *Frame, a []Value) Value { return nil })
	reg("(*encoding/gob.Encoder).Encode", func(fr *Frame, a []Value) Value {
		e := fr.ldv(a[0]).(*gobEnc)
		d := a[1].(Iface)
		if d.t == nil {
			return fr.errf("gob: cannot encode nil")
		}
		t, v := d.t, d.v
		for {
			p, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			c := v.(*Value)
			if c == nil {
				return fr.errf("gob: cannot encode nil pointer of type %s", t)
			}
			t, v = p.Elem(), *c
		}
		b := fr.it.newBlob("gob", gobLen(t, v))
		b.val = deepCopyVal(v)
		b.typ = t
		return fr.write(e.w, b.cells())
	})
	reg("(*encoding/gob.Decoder).Decode", func(fr *Frame, a []Value) Value {
		d := fr.ldv(a[0]).(*gobDec)
		dst := a[1].(Iface)
		first, e := fr.readExact(d.r, 1)
		if isErr(e) {
			return e
		}
		bb, ok := first[0].(BB)
		if !ok || bb.b.kind != "gob" || bb.i != 0 {
			return fr.errf("gob: bad data: undefined type or corrupted message")
		}
		rest, e := fr.readExact(d.r, bb.b.n-1)
		if isErr(e) {
			return fr.it.globalByName("io", "ErrUnexpectedEOF")
		}
		if !sameBlob(append(append(Slice{}, first...), rest...)) {
			return fr.errf("gob: corrupted message")
		}
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok {
			return fr.errf("gob: attempt to decode into a non-pointer")
		}
		c := dst.v.(*Value)
		if c == nil {
			return fr.errf("gob: attempt to decode into nil")
		}
		if msg := fr.gobAssign(pt.Elem(), c, bb.b.typ, bb.b.val); msg != "" {
			return fr.errf("gob: %s", msg)
		}
		return nilErr
	})

	// ---- serialized constraint systems
	cs := "(*github.com/consensys/gnark/constraint/bn254.R1CS)."
	reg(cs+"WriteTo", func(fr *Frame, a []Value) Value {
		b := fr.it.newBlob("r1cs", 64)
		b.val = deepCopyVal(fr.ldv(a[0]))
		e := fr.write(a[1].(Iface), b.cells())
		if isErr(e) {
			return Tuple{int64(0), e}
		}
		return Tuple{int64(64), nilErr}
	})
	reg(cs+"ReadFrom", func(fr *Frame, a []Value) Value {
		buf, e := fr.readExact(a[1].(Iface), 64)
		if isErr(e) {
			return Tuple{int64(0), e}
		}
		if !sameBlob(buf) || buf[0].(BB).b.kind != "r1cs" {
			return Tuple{int64(0), fr.errf("cbor: invalid constraint system")}
		}
		c := fr.deref(a[0])
		*c = deepCopyVal(buf[0].(BB).b.val)
		return Tuple{int64(64), nilErr}
	})
	splitFiles := func(session string, n, batch int64) (names []string) {
		for _, s := range []string{"E11", "E1", "E2", "E3", "E4"} {
			names = append(names, session+".r1cs."+s+".save")
		}
		if batch > 0 {
			for i := int64(0); i < n; i += batch {
				hi := i + batch
				if hi > n {
					hi = n
				}
				names = append(names, fmt.Sprintf("%s.r1cs.Cons.%d.%d.save", session, i, hi))
			}
		}
		return
	}
	consLen := func(fr *Frame, v Value) (int64, *Value) {
		s := v.(Struct)
		core := s[0].(Struct)
		return int64(len(core[1].(Slice))), &core[1]
	}
	reg(cs+"SplitDumpBinary", func(fr *Frame, a []Value) Value {
		session, batch := fr.str(a[1]), fr.concInt(a[2])
		v := deepCopyVal(fr.ldv(a[0]))
		n, _ := consLen(fr, v)
		for i, name := range splitFiles(session, n, batch) {
			b := fr.it.newBlob("r1cspart", 16)
			b.val = v
			b.tag = fmt.Sprint(i)
			f, e := fr.it.openFile(name, 2|0x40|0x200)
			if isErr(e) {
				return e
			}
			if _, e := fr.it.fileWrite(fr.file(f), 0, b.cells()); isErr(e) {
				return e
			}
		}
		return nilErr
	})
	reg(cs+"LoadFromSplitBinaryConcurrent", func(fr *Frame, a []Value) Value {
		session, n, batch := fr.str(a[1]), fr.concInt(a[2]), fr.concInt(a[3])
		bad := func(s string) {
			panic(&targetPanic{v: fr.it.mkError(s), s: "panic: " + s})
		}
		if batch <= 0 && n > 0 {
			fr.rtPanic("integer divide by zero (LoadFromSplitBinaryConcurrent)")
		}
		if cores := fr.concInt(a[4]); cores < 0 {
			fr.rtPanic("makechan: size out of range (LoadFromSplitBinaryConcurrent)")
		} else if cores == 0 {
			fr.it.sched.block(func() bool { return false }, "LoadFromSplitBinaryConcurrent")
		}
		var whole Value
		for i, name := range splitFiles(session, n, batch) {
			f := fr.it.fs.files[fr.it.fs.res(name)]
			if f == nil {
				bad("open " + name + ": no such file or directory")
			}
			var d Slice
			if f.data.size() == 16 {
				d = f.data.all()
			}
			if len(d) != 16 || !sameBlob(d) || d[0].(BB).b.kind != "r1cspart" || d[0].(BB).b.tag != fmt.Sprint(i) {
				bad("corrupted " + name)
			}
			if whole == nil {
				whole = d[0].(BB).b.val
			}
		}
		v := deepCopyVal(whole)
		_, cp := consLen(fr, v)
		c := (*cp).(Slice)
		if int64(len(c)) > n {
			*cp = c[:n]
		}
		*fr.deref(a[0]) = v
		return nil
	})

	// ---- fmt
	reg("fmt.Errorf", func(fr *Frame, a []Value) Value {
		args := a[1].(Slice)
		cells := fr.it.fmtCells(fr, a[0], args)
		s := cellsToStr(cells)
		if f, ok := a[0].(string); ok && strings.Contains(f, "%w") {
			for _, x := range args {
				if e, ok := x.(Iface); ok && e.t != nil && fr.it.hasMethod(e.t, "Error") {
					t := fr.it.ld.pkg("fmt").Type("wrapError")
					return Iface{t: types.NewPointer(t.Type()), v: newCell(Struct{s, e})}
				}
			}
		}
		return fr.it.mkErrorV(s)
	})
	reg("fmt.Sprintf", func(fr *Frame, a []Value) Value {
		return cellsToStr(fr.it.fmtCells(fr, a[0], a[1].(Slice)))
	})
	reg("fmt.Sprint", func(fr *Frame, a []Value) Value {
		return cellsToStr(fr.it.fmtPlain(fr, a[0].(Slice), false))
	})
	reg("fmt.Sprintln", func(fr *Frame, a []Value) Value {
		return cellsToStr(append(fr.it.fmtPlain(fr, a[0].(Slice), true), int64('\n')))
	})
	outp := func(fr *Frame, c []Value) Value {
		fr.it.stdout = append(fr.it.stdout, c...)
		return Tuple{int64(len(c)), nilErr}
	}
	reg("fmt.Printf", func(fr *Frame, a []Value) Value { return outp(fr, fr.it.fmtCells(fr, a[0], a[1].(Slice))) })
	reg("fmt.Print", func(fr *Frame, a []Value) Value { return outp(fr, fr.it.fmtPlain(fr, a[0].(Slice), false)) })
	reg("fmt.Println", func(fr *Frame, a []Value) Value {
		return outp(fr, append(fr.it.fmtPlain(fr, a[0].(Slice), true), int64('\n')))
	})
	fp := func(fr *Frame, w Iface, c []Value) Value {
		if w.t == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return fr.it.call(fr, fr.it.method(w.t, nil, "Write"), []Value{w.v, Slice(c)})
	}
	reg("fmt.Fprintf", func(fr *Frame, a []Value) Value {
		return fp(fr, a[0].(Iface), fr.it.fmtCells(fr, a[1], a[2].(Slice)))
	})
	reg("fmt.Fprint", func(fr *Frame, a []Value) Value {
		return fp(fr, a[0].(Iface), fr.it.fmtPlain(fr, a[1].(Slice), false))
	})
	reg("fmt.Fprintln", func(fr *Frame, a []Value) Value {
		return fp(fr, a[0].(Iface), append(fr.it.fmtPlain(fr, a[1].(Slice), true), int64('\n')))
	})
}

func (it *Interp) fmtPlain(fr *Frame, args Slice, ln bool) []Value {
	var out []Value
	for i, x := range args {
		e := x.(Iface)
		if i > 0 {
			isStr := func(v Value) bool {
				if w, ok := v.(Iface); ok && w.t != nil {
					b, ok := w.t.Underlying().(*types.Basic)
					return ok && b.Info()&types.IsString != 0
				}
				return false
			}
			if ln || !isStr(args[i-1]) && !isStr(x) {
				out = append(out, int64(' '))
			}
		}
		out = append(out, it.fmtAny(fr, e, 'v', "")...)
	}
	return out
}

func (it *Interp) fmtCells(fr *Frame, format Value, args Slice) []Value {
	f := fr.str(format)
	var out []Value
	n := 0
	used := 0
	jumped := false
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, int64(f[i]))
			continue
		}
		i++
		flags := ""
		star := func() {
			if n < len(args) {
				flags += decStr(fr.concInt(args[n].(Iface).v))
				n++
				return
			}
			flags += "0"
		}
		for ; i < len(f) && strings.IndexByte("+-# 0123456789.[*", f[i]) >= 0; i++ {
			switch f[i] {
			case '[':
				j := strings.IndexByte(f[i:], ']')
				k := -1
				if j > 0 {
					if v, err := strconv.Atoi(f[i+1 : i+j]); err == nil {
						k = v - 1
					}
				}
				if k < 0 || k >= len(args) {
					unsupported("argument index in the format %q", f)
				}
				n, jumped = k, true
				i += j
			case '*':
				star()
			default:
				flags += string(f[i])
			}
		}
		if n > used {
			used = n
		}
		if i >= len(f) {
			out = append(out, strCells("%!(NOVERB)")...)
			break
		}
		if f[i] == '%' {
			out = append(out, int64('%'))
			continue
		}
		if n >= len(args) {
			out = append(out, strCells("%!"+string(f[i])+"(MISSING)")...)
			continue
		}
		out = append(out, it.fmtAny(fr, args[n].(Iface), f[i], flags)...)
		n++
		if n > used {
			used = n
		}
	}
	if !jumped && n < len(args) {
		out = append(out, strCells("%!(EXTRA ")...)
		for k, x := range args[n:] {
			if k > 0 {
				out = append(out, strCells(", ")...)
			}
			e := x.(Iface)
			if e.t != nil {
				out = append(append(out, it.fmtVal(fr, e.t, nil, 'T', "")...), int64('='))
			}
			out = append(out, it.fmtAny(fr, e, 'v', "")...)
		}
		out = append(out, int64(')'))
	}
	return out
}

// pad applies a width, given in the flags, to rendered text.
func pad(c []Value, flags string) []Value {
	if flags == "" {
		return c
	}
	fill, left := int64(' '), false
	for flags != "" && strings.IndexByte("+-# 0", flags[0]) >= 0 {
		switch flags[0] {
		case '-':
			left = true
		case '0':
			fill = '0'
		}
		flags = flags[1:]
	}
	w := flags
	if k := strings.IndexByte(flags, '.'); k >= 0 {
		w = flags[:k]
		if p, err := strconv.Atoi(flags[k+1:]); err == nil && p < len(c) {
			c = c[:p]
		}
	}
	n, _ := strconv.Atoi(w)
	var sp []Value
	for i := len(c); i < n; i++ {
		sp = append(sp, fill)
	}
	if left {
		for i := range sp {
			sp[i] = int64(' ')
		}
		return append(append([]Value{}, c...), sp...)
	}
	return append(sp, c...)
}

// fmtAny renders one argument.
func (it *Interp) fmtAny(fr *Frame, a Iface, verb byte, flags string) []Value {
	if a.t == nil {
		switch verb {
		case 'v', 'T':
			return pad(strCells("<nil>"), flags)
		}
		return strCells("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return pad(it.fmtVal(fr, a.t, a.v, verb, ""), flags)
	}
	if strings.IndexByte("vswqxX", verb) >= 0 && !(verb == 'v' && strings.Contains(flags, "#")) {
		for _, m := range []string{"Error", "String"} {
			if it.hasMethod(a.t, m) {
				if p, ok := a.v.(*Value); ok && p == nil {
					return pad(strCells("<nil>"), flags)
				}
				r := it.call(fr, it.method(a.t, nil, m), []Value{copyVal(a.v)})
				if s, ok := r.(string); ok {
					return it.fmtVal(fr, types.Typ[types.String], s, verb, flags)
				}
				return pad(strCells(r), flags)
			}
		}
	}
	return it.fmtVal(fr, a.t, a.v, verb, flags)
}

// typeName is what %T prints.
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// basicVal is a concrete value of a basic type as Go holds it.
func basicVal(t types.Type, v Value) any {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	n, isInt := v.(int64)
	if !isInt {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int8(n)
	case types.Int16:
		return int16(n)
	case types.Int32:
		return int32(n)
	case types.Int64:
		return n
	case types.Uint8:
		return uint8(n)
	case types.Uint16:
		return uint16(n)
	case types.Uint32:
		return uint32(n)
	case types.Uint64:
		return uint64(n)
	case types.Uint:
		return uint(n)
	case types.Uintptr:
		return uintptr(n)
	}
	return int(n)
}

func (it *Interp) fmtVal(fr *Frame, t types.Type, v Value, verb byte, flags string) []Value {
	if verb == 'w' {
		verb = 'v'
	}
	switch verb {
	case 'T':
		return strCells(typeName(t))
	case 'p':
		return strCells("0xc000000000")
	}
	switch v := v.(type) {
	case bool, int64, float64, string:
		return strCells(fmt.Sprintf("%"+flags+string(verb), basicVal(t, v)))
	case *SymStr:
		switch verb {
		case 'x', 'X':
			return pad(hexCase(v.cells, verb == 'X'), flags)
		case 'q':
			return pad(append(append([]Value{int64('"')}, v.cells...), int64('"')), flags)
		}
		return pad(v.cells, flags)
	case *Term:
		if v.w == 0 {
			return strCells("<bool>")
		}
		_, signed, _ := intInfo(t)
		if verb == 'd' || verb == 'v' {
			return []Value{DecTok{tExtend(v, 64, signed)}}
		}
		return strCells("<int>")
	case BB:
		return []Value{HexTok{v, verb == 'X'}}
	case Slice, Array:
		var el types.Type
		var s []Value
		if sl, ok := v.(Slice); ok {
			s = sl
			el = t.Underlying().(*types.Slice).Elem()
		} else {
			s = v.(Array)
			el = t.Underlying().(*types.Array).Elem()
		}
		if isByte(el) && (verb == 'x' || verb == 's' || verb == 'X') {
			if verb == 's' {
				return pad(s, flags)
			}
			var out []Value
			if strings.Contains(flags, "#") {
				out = strCells("0" + string(verb))
			}
			return pad(append(out, hexCase(s, verb == 'X')...), strings.Replace(flags, "#", "", 1))
		}
		out := []Value{int64('[')}
		for i, x := range s {
			if i > 0 {
				out = append(out, int64(' '))
			}
			if e, ok := x.(Iface); ok {
				out = append(out, it.fmtAny(fr, e, verb, flags)...)
			} else {
				out = append(out, it.fmtAny(fr, Iface{el, x}, verb, flags)...)
			}
		}
		return append(out, int64(']'))
	case Struct:
		st, ok := t.Underlying().(*types.Struct)
		out := []Value{int64('{')}
		if ok {
			for i, x := range v {
				if i > 0 {
					out = append(out, int64(' '))
				}
				if strings.Contains(flags, "+") {
					out = append(out, strCells(st.Field(i).Name()+":")...)
				}
				if e, ok := x.(Iface); ok {
					out = append(out, it.fmtAny(fr, e, verb, flags)...)
				} else if st.Field(i).Exported() {
					out = append(out, it.fmtAny(fr, Iface{st.Field(i).Type(), x}, verb, flags)...)
				} else {
					out = append(out, it.fmtVal(fr, st.Field(i).Type(), x, verb, flags)...)
				}
			}
		}
		return append(out, int64('}'))
	case *Value:
		if v == nil {
			return strCells("<nil>")
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			if _, ok := (*v).(Struct); ok {
				return append([]Value{int64('&')}, it.fmtVal(fr, p.Elem(), *v, verb, flags)...)
			}
		}
		return strCells("0xc000000000")
	case Iface:
		return it.fmtAny(fr, v, verb, flags)
	case *ssa.Function:
		return strCells("0x0")
	}
	return strCells(fmt.Sprintf("<%T>", v))
}
