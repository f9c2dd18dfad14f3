package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// targetPanic is a Go panic raised by the code under execution.
type targetPanic struct {
	v Value // Iface
	s string
}

type deferred struct {
	fn   Value
	args []Value
	inst ssa.Instruction
}

type Frame struct {
	it       *Interp
	g        *G
	caller   *Frame
	fn       *ssa.Function
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	env      map[ssa.Value]Value
	locals   []Value
	defers   []*deferred
	result   Value
	panicing bool
	panic    *targetPanic
	callpos  token.Pos
}

type Interp struct {
	ld       *Loaded
	path     *Path
	prog     *ssa.Program
	globals  map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	steps    int64
	maxStep  int64
	funcs    map[string]bool
	sched    *Sched
	fs       *FS
	oracle   []oracleEntry
	blobs    int
	chance   bool // bytes of a hash are equal by chance on this path
	nchance  int
	nmap     int // orders of maps chosen
	nrand    int
	randFail *int    // draws until the source of randomness fails
	randHit  bool    // it failed
	stdout   []Value // cells printed
	// touched are the names of files that may have been changed, or nil
	environ  map[string]Tuple // environment variables that were read
	touched  map[string]bool
	side     map[*Value]interface{}
	race     *Race
	depth    int
	args     []string
	numCPU   Value
	clock    int64
	exiting  bool
	progress int64
	cliArgs  Slice
	weaks    map[string]*Poly
	rndUsed  map[string]bool
}

func (it *Interp) newBlob(kind string, n int) *Blob {
	it.blobs++
	return &Blob{kind: kind, n: n, id: it.blobs}
}

func unsupported(f string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

func (fr *Frame) rtPanic(f string, a ...any) {
	msg := fmt.Sprintf(f, a...)
	panic(&targetPanic{v: fr.it.rtError(msg), s: "runtime error: " + msg + " at " + fr.where()})
}

func (fr *Frame) where() string {
	var sb []string
	for f := fr; f != nil && f.fn != nil && len(sb) < 6; f = f.caller {
		sb = append(sb, f.fn.String())
	}
	return strings.Join(sb, " < ")
}

func (fr *Frame) get(key ssa.Value) Value {
	switch key := key.(type) {
	case nil:
		return nil
	case *ssa.Function:
		return key
	case *ssa.Builtin:
		return key
	case *ssa.Const:
		return fr.it.constValue(key)
	case *ssa.Global:
		return fr.it.global(key)
	}
	if r, ok := fr.env[key]; ok {
		return r
	}
	panic(fmt.Sprintf("get: no value for %T: %v in %s", key, key.Name(), fr.fn))
}

func (it *Interp) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		if v, ok := specialZero(c.Type()); ok {
			return v
		}
		if tp, ok := c.Type().(*types.TypeParam); ok {
			unsupported("type param const %s", tp)
		}
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		unsupported("constant of type %s", c.Type())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, s, _ := intInfo(b)
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return normInt(w, s, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return normInt(w, s, u)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		return constant.StringVal(c.Value)
	}
	unsupported("constant of type %s", c.Type())
	return nil
}

func (it *Interp) global(g *ssa.Global) *Value {
	if c, ok := it.globals[g]; ok {
		return c
	}
	if v, ok := it.globalOverride(g); ok {
		c := new(Value)
		*c = v
		it.globals[g] = c
		return c
	}
	it.initPkg(g.Pkg)
	if c, ok := it.globals[g]; ok {
		return c
	}
	c := new(Value)
	*c = zero(g.Type().(*types.Pointer).Elem())
	it.globals[g] = c
	return c
}

// initPkg runs a package's initialiser on first use of one of its globals.
func (it *Interp) initPkg(p *ssa.Package) {
	if p == nil || it.inited[p] {
		return
	}
	it.inited[p] = true
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, done := it.globals[g]; !done {
				c := new(Value)
				if v, ok := it.globalOverride(g); ok {
					*c = v
				} else {
					*c = zero(g.Type().(*types.Pointer).Elem())
				}
				it.globals[g] = c
			}
		}
	}
	if noInit[p.Pkg.Path()] {
		return
	}
	it.ld.build(p)
	if f := p.Func("init"); f != nil && f.Blocks != nil {
		save := it.sched.cur
		fr := &Frame{it: it, g: save}
		it.callSSA(fr, f, nil, nil)
	}
}

func (it *Interp) call(caller *Frame, fn Value, args []Value) Value {
	switch fn := fn.(type) {
	case *ssa.Function:
		if fn == nil {
			caller.rtPanic("invalid memory address or nil pointer dereference (call of nil function)")
		}
		return it.callSSA(caller, fn, args, nil)
	case *Closure:
		return it.callSSA(caller, fn.fn, args, fn.env)
	case *ssa.Builtin:
		return it.callBuiltin(caller, fn, args)
	case *Native:
		return fn.f(caller, args)
	case nil:
		caller.rtPanic("invalid memory address or nil pointer dereference (call of nil function)")
	}
	panic(fmt.Sprintf("cannot call %T", fn))
}

func (it *Interp) callSSA(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if f := intrinsics[name]; f != nil {
		return f(caller, args)
	}
	if fn.Pkg != nil {
		it.ld.build(fn.Pkg)
		if fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Synthetic != "" && caller != nil && caller.fn != nil && caller.fn.Name() == "init" {
			return nil // imported packages are initialised on demand
		}
	}
	if fn.Parent() == nil && fn.Blocks == nil && fn.Synthetic != "" && fn.Pkg == nil {
		// wrappers are built by the program
	}
	if fn.Blocks == nil {
		unsupported("no body and no model for %s", name)
	}
	it.funcs[name] = true
	depth := 0
	for f := caller; f != nil; f = f.caller {
		depth++
	}
	if depth > 2000 {
		panic(pathEnd{"limit", "call depth"})
	}
	fr := &Frame{it: it, caller: caller, fn: fn, env: make(map[ssa.Value]Value, 16)}
	if caller != nil {
		fr.g = caller.g
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fv] = env[i]
	}
	for _, l := range fn.Locals {
		c := new(Value)
		*c = zero(l.Type().(*types.Pointer).Elem())
		fr.env[l] = c
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		fr.run()
	}
	return fr.result
}

// run executes until return or recovered panic, running defers as needed.
func (fr *Frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		switch r := r.(type) {
		case *targetPanic:
			fr.panicing = true
			fr.panic = r
			fr.runDefers()
			// recovered
			if fr.fn.Recover != nil {
				fr.block = fr.fn.Recover
				fr.prev = nil
			} else {
				fr.block = nil
				if fr.result == nil {
					fr.result = zeroResults(fr.fn)
				}
			}
		default:
			if _, ok := r.(pathEnd); !ok && debug {
				debugf("internal panic in %s: %v", fr.where(), r)
			}
			panic(r)
		}
	}()
	it := fr.it
	for {
		for _, instr := range fr.block.Instrs {
			it.steps++
			if it.steps > it.maxStep {
				panic(pathEnd{"limit", "step limit in " + fr.where()})
			}
			switch fr.visit(instr) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				goto next
			}
		}
	next:
	}
}

func zeroResults(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (fr *Frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicing {
		panic(fr.panic)
	}
}

func (fr *Frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if tp, is := r.(*targetPanic); is {
				fr.panicing = true
				fr.panic = tp
			} else if r != nil {
				panic(r)
			}
		}
	}()
	fr.it.call(fr, d.fn, d.args)
	ok = true
}

type cont int

const (
	kNext cont = iota
	kReturn
	kJump
)

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (fr *Frame) load(p Value) Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		if fr.it.race != nil {
			fr.it.race.read(fr, p)
		}
		return copyVal(*p)
	case *Coord:
		return &Coord{pt: p.load(), idx: p.idx, sub: p.sub}
	}
	unsupported("load through %T in %s", p, fr.where())
	return nil
}

func (fr *Frame) store(p Value, v Value) {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		if fr.it.race != nil {
			fr.it.race.write(fr, p)
		}
		v = copyVal(v)
		// keep the identity of element cells of aggregates
		switch nv := v.(type) {
		case Struct:
			if ov, ok := (*p).(Struct); ok && len(ov) == len(nv) {
				fr.assignAgg(ov, nv)
				return
			}
		case Array:
			if ov, ok := (*p).(Array); ok && len(ov) == len(nv) {
				fr.assignAgg(ov, nv)
				return
			}
		}
		*p = v
		return
	}
	unsupported("store through %T in %s", p, fr.where())
}

func (fr *Frame) assignAgg(dst, src []Value) {
	for i := range src {
		switch s := src[i].(type) {
		case Struct:
			if d, ok := dst[i].(Struct); ok && len(d) == len(s) {
				fr.assignAgg(d, s)
				continue
			}
		case Array:
			if d, ok := dst[i].(Array); ok && len(d) == len(s) {
				fr.assignAgg(d, s)
				continue
			}
		}
		dst[i] = src[i]
	}
}

func (fr *Frame) visit(instr ssa.Instruction) cont {
	it := fr.it
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.env[in] = fr.unop(in, fr.get(in.X))
	case *ssa.BinOp:
		fr.env[in] = fr.binop(in.Op, in.X.Type(), in.Y.Type(), fr.get(in.X), fr.get(in.Y))
	case *ssa.Call:
		fn, args := fr.prepareCall(&in.Call)
		fr.callpos = in.Pos()
		fr.env[in] = it.call(fr, fn, args)
	case *ssa.ChangeInterface:
		fr.env[in] = fr.get(in.X)
	case *ssa.ChangeType:
		fr.env[in] = fr.get(in.X)
	case *ssa.Convert:
		fr.env[in] = fr.conv(in.Type(), in.X.Type(), fr.get(in.X))
	case *ssa.MultiConvert:
		fr.env[in] = fr.conv(in.Type(), in.X.Type(), fr.get(in.X))
	case *ssa.SliceToArrayPointer:
		s := fr.get(in.X).(Slice)
		at := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if int64(len(s)) < at.Len() {
			fr.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", len(s), at.Len())
		}
		c := new(Value)
		*c = Array(s[:at.Len():at.Len()])
		fr.env[in] = c
	case *ssa.MakeInterface:
		fr.env[in] = Iface{t: in.X.Type(), v: fr.get(in.X)}
	case *ssa.Extract:
		fr.env[in] = fr.get(in.Tuple).(Tuple)[in.Index]
	case *ssa.Slice:
		fr.env[in] = fr.slice(in)
	case *ssa.Return:
		switch len(in.Results) {
		case 0:
		case 1:
			fr.result = copyVal(fr.get(in.Results[0]))
		default:
			var res Tuple
			for _, r := range in.Results {
				res = append(res, copyVal(fr.get(r)))
			}
			fr.result = res
		}
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.get(in.X)
		panic(&targetPanic{v: v, s: "panic: " + it.panicString(fr, v) + " at " + fr.where()})
	case *ssa.Send:
		fr.chanSend(fr.get(in.Chan), copyVal(fr.get(in.X)))
	case *ssa.Store:
		fr.store(fr.get(in.Addr), fr.get(in.Val))
	case *ssa.If:
		c := fr.get(in.Cond)
		var b bool
		switch c := c.(type) {
		case bool:
			b = c
		case *Term:
			b = it.path.branch(c)
		default:
			unsupported("branch on %T", c)
		}
		succ := 1
		if b {
			succ = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		fr.phis()
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		fr.phis()
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepareCall(&in.Call)
		fr.defers = append(fr.defers, &deferred{fn: fn, args: args, inst: in})
	case *ssa.Go:
		fn, args := fr.prepareCall(&in.Call)
		it.sched.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := fr.concInt(fr.get(in.Size))
		fr.env[in] = &Chan{cap: int(n)}
	case *ssa.Alloc:
		if in.Heap {
			c := new(Value)
			*c = zero(in.Type().(*types.Pointer).Elem())
			fr.env[in] = c
		} else {
			c := fr.env[in].(*Value)
			*c = zero(in.Type().(*types.Pointer).Elem())
			// a fresh cell per execution keeps loop iterations independent
			nc := new(Value)
			*nc = *c
			fr.env[in] = nc
		}
	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		n := fr.makeLen(fr.get(in.Len), "len", el)
		c := n
		if in.Cap != in.Len {
			c = fr.makeLen(fr.get(in.Cap), "cap", el)
		}
		if n > c {
			fr.rtPanic("makeslice: cap out of range")
		}
		s := make(Slice, c)
		if c > 0 {
			z := zero(el)
			switch z.(type) {
			case Struct, Array:
				for i := range s {
					s[i] = copyVal(z)
				}
			default:
				for i := range s {
					s[i] = z
				}
			}
		}
		fr.env[in] = s[:n]
	case *ssa.MakeMap:
		fr.env[in] = &Map{m: map[string]*mapEntry{}}
	case *ssa.Range:
		fr.env[in] = fr.rangeIter(fr.get(in.X))
	case *ssa.Next:
		fr.env[in] = fr.get(in.Iter).(func() Value)()
	case *ssa.FieldAddr:
		fr.env[in] = fr.fieldAddr(fr.get(in.X), in.Field)
	case *ssa.Field:
		switch x := fr.get(in.X).(type) {
		case Struct:
			fr.env[in] = x[in.Field]
		case *Pt:
			fr.env[in] = &Coord{pt: x, idx: in.Field}
		default:
			unsupported("field of %T in %s", x, fr.where())
		}
	case *ssa.IndexAddr:
		fr.env[in] = fr.indexAddr(fr.get(in.X), fr.get(in.Index), in.Index.Type())
	case *ssa.Index:
		x := fr.get(in.X)
		switch x := x.(type) {
		case Array:
			i := fr.index(fr.get(in.Index), in.Index.Type(), len(x))
			fr.env[in] = x[i]
		case string, *SymStr:
			cells := strCells(x)
			i := fr.index(fr.get(in.Index), in.Index.Type(), len(cells))
			fr.env[in] = cells[i]
		default:
			unsupported("index of %T in %s", x, fr.where())
		}
	case *ssa.Lookup:
		fr.env[in] = fr.lookup(in)
	case *ssa.MapUpdate:
		m := fr.get(in.Map).(*Map)
		if m == nil {
			panic(&targetPanic{v: it.mkError("assignment to entry in nil map"), s: "assignment to entry in nil map"})
		}
		k := fr.get(in.Key)
		m.set(it.mapKey(k), copyVal(k), copyVal(fr.get(in.Value)))
	case *ssa.TypeAssert:
		fr.env[in] = fr.typeAssert(in, fr.get(in.X).(Iface))
	case *ssa.MakeClosure:
		var b []Value
		for _, x := range in.Bindings {
			b = append(b, fr.get(x))
		}
		fr.env[in] = &Closure{fn: in.Fn.(*ssa.Function), env: b}
	case *ssa.Phi:
		// handled at block entry
	case *ssa.Select:
		fr.env[in] = fr.doSelect(in)
	default:
		unsupported("instruction %T", instr)
	}
	return kNext
}

func (fr *Frame) phis() {
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range fr.block.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pred := range fr.block.Preds {
			if pred == fr.prev {
				vals = append(vals, fr.get(phi.Edges[i]))
				phis = append(phis, phi)
				break
			}
		}
	}
	for i, p := range phis {
		fr.env[p] = vals[i]
	}
}

func (m *Map) set(k string, key, v Value) {
	if e, ok := m.m[k]; ok {
		e.v = v
		return
	}
	m.m[k] = &mapEntry{k: key, v: v}
	m.order = append(m.order, k)
}

func (fr *Frame) prepareCall(c *ssa.CallCommon) (Value, []Value) {
	v := fr.get(c.Value)
	if c.Method == nil {
		args := make([]Value, 0, len(c.Args))
		for _, a := range c.Args {
			args = append(args, copyVal(fr.get(a)))
		}
		return v, args
	}
	recv := v.(Iface)
	if recv.t == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference (method %s on nil interface)", c.Method.Name())
	}
	args := []Value{copyVal(recv.v)}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fr.it.method(recv.t, c.Method.Pkg(), c.Method.Name()), args
}

func (it *Interp) method(t types.Type, pkg *types.Package, name string) Value {
	if n, ok := nativeMethods[typeKey(t)+"."+name]; ok {
		return n
	}
	it.ld.mu.Lock()
	defer it.ld.mu.Unlock()
	sel := it.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		panic(pathEnd{"unsupported", fmt.Sprintf("no method %s on %s", name, t)})
	}
	return it.prog.MethodValue(sel)
}

func typeKey(t types.Type) string { return types.TypeString(t, nil) }

func (fr *Frame) fieldAddr(x Value, idx int) Value {
	switch p := x.(type) {
	case *Coord:
		if p.sub == 0 && p.load().g == 2 {
			return &Coord{cell: p.cell, pt: p.pt, idx: p.idx, sub: idx + 1}
		}
	case *Value:
		if p == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		switch s := (*p).(type) {
		case Struct:
			return &s[idx]
		case *Pt:
			return &Coord{cell: p, idx: idx}
		}
		unsupported("field address in %T in %s", *p, fr.where())
	}
	unsupported("field address of %T in %s", x, fr.where())
	return nil
}

func (fr *Frame) concInt(v Value) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case *Term:
		return sx(v.w, fr.it.path.concretize(v))
	}
	unsupported("concrete integer expected, got %T in %s", v, fr.where())
	return 0
}

// makeLen evaluates a slice length; absurd sizes panic as the runtime would.
func (fr *Frame) makeLen(v Value, what string, elem types.Type) int64 {
	maxAlloc := uint64(1 << 40)
	if s := sizes.Sizeof(elem); s > 0 {
		maxAlloc = maxBytes / uint64(s)
	}
	if t, ok := v.(*Term); ok {
		if t.w < 64 {
			t = tExtend(t, 64, false)
		}
		lim := tConst(64, maxAlloc)
		big := tOr(tBV("bvslt", t, tConst(64, 0)), tBV("bvslt", lim, t))
		if fr.it.path.branch(big) {
			fr.rtPanic("makeslice: %s out of range", what)
		}
		small := tBV("bvslt", t, tConst(64, 1<<26))
		if !fr.it.path.branch(small) {
			unsupported("allocation of more than 2^26 elements in %s", fr.where())
		}
		return int64(fr.it.path.concretize(t))
	}
	n := fr.concInt(v)
	if n < 0 || uint64(n) > maxAlloc {
		fr.rtPanic("makeslice: %s out of range", what)
	}
	if n > 1<<26 {
		unsupported("allocation of %d elements in %s", n, fr.where())
	}
	return n
}

// allocations above this many bytes are treated as "out of range" or
// out-of-memory crashes
const maxBytes = 1 << 36

var sizes = types.SizesFor("gc", "amd64")

func (fr *Frame) index(v Value, t types.Type, n int) int64 {
	switch i := v.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			fr.rtPanic("index out of range [%d] with length %d", i, n)
		}
		return i
	case *Term:
		w, signed, _ := intInfo(t)
		i64 := tExtend(i, 64, signed)
		_ = w
		if !fr.it.path.branch(tBV("bvult", i64, tConst(64, uint64(n)))) {
			fr.rtPanic("index out of range with length %d", n)
		}
		return int64(fr.it.path.concretize(i64))
	}
	unsupported("index by %T in %s", v, fr.where())
	return 0
}

func (fr *Frame) indexAddr(x, idx Value, t types.Type) Value {
	switch x := x.(type) {
	case Slice:
		return &x[fr.index(idx, t, len(x))]
	case *Value:
		if x == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(Array)
		if !ok {
			unsupported("index into %T in %s", *x, fr.where())
		}
		return &a[fr.index(idx, t, len(a))]
	}
	unsupported("index address of %T in %s", x, fr.where())
	return nil
}

func (fr *Frame) lookup(in *ssa.Lookup) Value {
	x := fr.get(in.X)
	switch x := x.(type) {
	case *Map:
		var v Value
		ok := false
		if x != nil {
			if e := x.m[fr.it.mapKey(fr.get(in.Index))]; e != nil {
				v, ok = copyVal(e.v), true
			}
		}
		if !ok {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			return Tuple{v, ok}
		}
		return v
	case string, *SymStr:
		cells := strCells(x)
		return cells[fr.index(fr.get(in.Index), in.Index.Type(), len(cells))]
	}
	unsupported("lookup in %T", x)
	return nil
}

func (fr *Frame) slice(in *ssa.Slice) Value {
	x := fr.get(in.X)
	bound := func(v ssa.Value, def int64) Value {
		if v == nil {
			return def
		}
		return fr.get(v)
	}
	var n, c int64
	switch x := x.(type) {
	case string, *SymStr:
		n = int64(len(strCells(x)))
		c = n
	case Slice:
		n, c = int64(len(x)), int64(cap(x))
	case *Value:
		if x == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(Array)
		if !ok {
			unsupported("slice of %T in %s", *x, fr.where())
		}
		n, c = int64(len(a)), int64(len(a))
	default:
		unsupported("slice of %T in %s", x, fr.where())
	}
	conc := func(v Value) int64 {
		if t, ok := v.(*Term); ok {
			if t.w < 64 {
				t = tExtend(t, 64, true)
			}
			if fr.it.path.branch(tBV("bvult", tConst(64, uint64(c)), t)) {
				fr.rtPanic("slice bounds out of range with capacity %d", c)
			}
			return int64(fr.it.path.concretize(t))
		}
		return fr.concInt(v)
	}
	lo := conc(bound(in.Low, 0))
	hi := conc(bound(in.High, n))
	mx := conc(bound(in.Max, c))
	lim := c
	if lo < 0 || hi < lo || mx < hi || mx > lim {
		fr.rtPanic("slice bounds out of range [%d:%d:%d] with length %d capacity %d", lo, hi, mx, n, c)
	}
	switch x := x.(type) {
	case string:
		return x[lo:hi]
	case *SymStr:
		return cellsToStr(x.cells[lo:hi])
	case Slice:
		if x == nil {
			return Slice(nil)
		}
		return x[lo:hi:mx]
	case *Value:
		a := (*x).(Array)
		return Slice(a[lo:hi:mx])
	}
	return nil
}

func (fr *Frame) rangeIter(x Value) Value {
	switch x := x.(type) {
	case *Map:
		i := 0
		var keys []string
		if x != nil {
			keys = append(keys, x.order...)
			live := 0
			for _, k := range keys {
				if x.m[k] != nil {
					live++
				}
			}
			if live > 1 && fr.it.nmap < 3 && fr.unordered() {
				// the order is not specified: a rotated one occurs natively
				fr.it.nmap++
				if fr.it.path.choose(tVar(64, fmt.Sprintf("map!%d", fr.it.nmap)), 2) == 1 {
					fr.it.path.chance = true
					keys = append(append([]string{}, keys[1:]...), keys[0])
				}
			}
		}
		return func() Value {
			for i < len(keys) {
				e := x.m[keys[i]]
				i++
				if e != nil {
					return Tuple{true, copyVal(e.k), copyVal(e.v)}
				}
			}
			return Tuple{false, nil, nil}
		}
	case string:
		i := 0
		rs := []rune{}
		idx := []int{}
		for j, r := range x {
			rs = append(rs, r)
			idx = append(idx, j)
		}
		return func() Value {
			if i < len(rs) {
				i++
				return Tuple{true, int64(idx[i-1]), int64(rs[i-1])}
			}
			return Tuple{false, int64(0), int64(0)}
		}
	}
	unsupported("range over %T", x)
	return nil
}

// unordered tells whether the order of a map matters here: the libraries are trusted.
func (fr *Frame) unordered() bool {
	f := fr.fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return false
	}
	p := f.Pkg.Pkg.Path()
	return p == "maps" || strings.HasPrefix(p, modPath)
}

func (fr *Frame) implements(t types.Type, iface *types.Interface) bool {
	fr.it.ld.mu.Lock()
	defer fr.it.ld.mu.Unlock()
	return types.Implements(t, iface)
}

func (fr *Frame) typeAssert(in *ssa.TypeAssert, x Iface) Value {
	var ok bool
	var v Value
	if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
		if x.t != nil && fr.implements(x.t, it) {
			ok, v = true, x
		} else {
			v = Iface{}
		}
	} else {
		if x.t != nil && types.Identical(x.t, in.AssertedType) {
			ok, v = true, copyVal(x.v)
		} else {
			v = zero(in.AssertedType)
		}
	}
	if in.CommaOk {
		return Tuple{v, ok}
	}
	if !ok {
		ts := "nil"
		if x.t != nil {
			ts = x.t.String()
		}
		fr.rtPanic("interface conversion: interface is %s, not %s", ts, in.AssertedType)
	}
	return v
}
