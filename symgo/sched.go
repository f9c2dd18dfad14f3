package main

import (
	"fmt"
	"go/types"
	"runtime"

	"golang.org/x/tools/go/ssa"
)

// G is one goroutine of the program under execution. Goroutines are real Go
// goroutines that pass a baton, so exactly one runs at any time; a switch
// happens only where the running one blocks or ends (code free of data races
// behaves the same under every schedule; the race detector checks that).
type G struct {
	id   int
	wake chan bool
	done bool
	vc   VC
	cond func() bool // what it is blocked on
	slow bool        // runs only when no other one can
}

type Sched struct {
	it   *Interp
	gs   []*G
	cur  *G
	end  interface{} // abort raised in a goroutine other than main
	quit chan struct{}
	rr   int

	// explore: schedules are chosen symbolically at the first choices points
	explore bool
	choices int
	nchoice int
}

// pick chooses one of the runnable goroutines (g itself counts if it is).
func (s *Sched) pick(rs []*G) *G {
	if len(rs) == 1 || s.choices <= 0 {
		return rs[0]
	}
	s.choices--
	s.nchoice++
	t := tVar(64, fmt.Sprintf("sched!%d", s.nchoice))
	return rs[s.it.path.choose(t, len(rs))]
}

func (s *Sched) runnable(g *G) (rs []*G) {
	n := len(s.gs)
	var slow []*G
	for i := 0; i < n; i++ {
		h := s.gs[(g.id+i)%n]
		if !h.done && (h.cond == nil || h.cond()) {
			if h.slow {
				slow = append(slow, h)
			} else {
				rs = append(rs, h)
			}
		}
	}
	if len(rs) == 0 {
		return slow
	}
	return
}

// slow lets the running goroutine continue only when no other one can.
func (s *Sched) slow() {
	g := s.cur
	s.explore = true
	g.slow = true
	if rs := s.runnable(g); len(rs) > 0 && rs[0] != g {
		rs[0].wake <- true
		s.park(g)
	}
}

// yield is a scheduling point of the running goroutine.
func (s *Sched) yield() {
	if !s.explore || s.choices <= 0 || s.cur == nil {
		return
	}
	g := s.cur
	h := s.pick(s.runnable(g))
	if h != g {
		h.wake <- true
		s.park(g)
	}
}

func newSched(it *Interp) *Sched {
	s := &Sched{it: it, quit: make(chan struct{})}
	g := &G{id: 0, wake: make(chan bool, 1), vc: VC{1}}
	s.gs = []*G{g}
	s.cur = g
	return s
}

func (s *Sched) park(g *G) {
	select {
	case <-g.wake:
	case <-s.quit:
		runtime.Goexit()
	}
	s.cur = g
	if g.id == 0 && s.end != nil {
		panic(s.end)
	}
}

func (s *Sched) spawn(fr *Frame, fn Value, args []Value) {
	it := s.it
	if len(s.gs) > 150000 {
		panic(pathEnd{"limit", "too many goroutines"})
	}
	g := &G{id: len(s.gs), wake: make(chan bool, 1)}
	s.gs = append(s.gs, g)
	if it.race != nil {
		g.vc = s.cur.vc.copy()
		g.vc = g.vc.tick(g.id)
		s.cur.vc = s.cur.vc.tick(s.cur.id)
	}
	go func() {
		select {
		case <-g.wake:
		case <-s.quit:
			return
		}
		s.cur = g
		clean := false
		defer func() {
			if !clean {
				r := recover()
				if r == nil {
					return // Goexit through quit
				}
				s.end = r
			}
			g.done = true
			if s.end != nil {
				s.gs[0].wake <- true
				return
			}
			s.next(g)
		}()
		it.call(&Frame{it: it, g: g}, fn, args)
		clean = true
	}()
	s.yield()
}

// next hands the baton to another runnable goroutine.
func (s *Sched) next(g *G) {
	if s.explore {
		if rs := s.runnable(g); len(rs) > 0 {
			s.pick(rs).wake <- true
			return
		}
		if g.done {
			s.end = &targetPanic{s: "deadlock: all goroutines are blocked"}
			s.gs[0].wake <- true
			return
		}
		panic(&targetPanic{s: "deadlock: all goroutines are blocked"})
	}
	n := len(s.gs)
	for i := 1; i <= n; i++ {
		h := s.gs[(g.id+i)%n]
		if !h.done && h != g {
			h.wake <- true
			return
		}
	}
}

func (s *Sched) others(g *G) bool {
	for _, h := range s.gs {
		if h != g && !h.done {
			return true
		}
	}
	return false
}

// block waits until cond holds, letting other goroutines run.
func (s *Sched) block(cond func() bool, what string) {
	g := s.cur
	idle := 0
	if s.explore {
		s.yield()
		for !cond() {
			g.cond = cond
			s.it.steps += 20
			if s.it.steps > s.it.maxStep {
				panic(pathEnd{"limit", "step limit while blocked on " + what})
			}
			s.next(g)
			s.park(g)
			g.cond = nil
		}
		s.it.progress++
		return
	}
	defer func() { g.cond = nil }()
	for !cond() {
		g.cond = cond
		if !s.others(g) {
			panic(&targetPanic{s: "deadlock: all goroutines are blocked (" + what + ")"})
		}
		s.it.steps += 20
		if s.it.steps > s.it.maxStep {
			panic(pathEnd{"limit", "step limit while blocked on " + what})
		}
		before := s.it.progress
		s.next(g)
		s.park(g)
		if s.it.progress == before {
			idle++
			if idle > len(s.gs)+2 {
				panic(&targetPanic{s: "deadlock: all goroutines are blocked (" + what + ")"})
			}
		} else {
			idle = 0
		}
	}
	s.it.progress++
}

func (s *Sched) kill() { close(s.quit) }

// ---- channels

func (fr *Frame) chanSend(c Value, v Value) {
	ch := c.(*Chan)
	s := fr.it.sched
	s.yield()
	if ch == nil {
		s.block(func() bool { return false }, "send on nil channel")
	}
	if ch.closed {
		panic(&targetPanic{v: fr.it.mkError("send on closed channel"), s: "panic: send on closed channel at " + fr.where()})
	}
	if ch.cap > 0 {
		s.block(func() bool { return len(ch.buf) < ch.cap || ch.closed }, "channel send")
	}
	if ch.closed {
		panic(&targetPanic{v: fr.it.mkError("send on closed channel"), s: "panic: send on closed channel at " + fr.where()})
	}
	fr.it.release(&ch.vc)
	ch.buf = append(ch.buf, v)
	ch.sent++
	fr.it.progress++
	if ch.cap == 0 {
		me := ch.sent
		s.block(func() bool { return ch.taken >= me }, "channel send")
	}
}

func (fr *Frame) chanRecv(c Value, el types.Type) (Value, bool) {
	ch := c.(*Chan)
	s := fr.it.sched
	if ch == nil {
		s.block(func() bool { return false }, "receive from nil channel")
	}
	ch.recvq++
	s.block(func() bool { return len(ch.buf) > 0 || ch.closed }, "channel receive")
	ch.recvq--
	fr.it.acquire(ch.vc)
	fr.it.progress++
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		ch.taken++
		return v, true
	}
	return zero(el), false
}

func (fr *Frame) chanClose(c Value) {
	ch := c.(*Chan)
	fr.it.sched.yield()
	if ch == nil || ch.closed {
		panic(&targetPanic{v: fr.it.mkError("close of closed or nil channel"), s: "panic: close of closed or nil channel"})
	}
	fr.it.release(&ch.vc)
	ch.closed = true
	fr.it.progress++
}

func (fr *Frame) doSelect(in *ssa.Select) Value {
	s := fr.it.sched
	type st struct {
		ch   *Chan
		send bool
		v    Value
	}
	var sts []st
	for _, x := range in.States {
		c, _ := fr.get(x.Chan).(*Chan)
		e := st{ch: c, send: x.Dir == types.SendOnly}
		if e.send {
			e.v = copyVal(fr.get(x.Send))
		}
		sts = append(sts, e)
	}
	pick := -1
	ready := func() bool {
		for i, e := range sts {
			if e.ch == nil {
				continue
			}
			if e.send {
				if e.ch.closed || len(e.ch.buf) < e.ch.cap || (e.ch.cap == 0 && e.ch.recvq > len(e.ch.buf)) {
					pick = i
					return true
				}
			} else if len(e.ch.buf) > 0 || e.ch.closed {
				pick = i
				return true
			}
		}
		return false
	}
	if !in.Blocking {
		if !ready() {
			pick = -1
		}
	} else {
		for _, e := range sts {
			if e.ch != nil && !e.send {
				e.ch.recvq++
			}
		}
		s.block(ready, "select")
		for _, e := range sts {
			if e.ch != nil && !e.send {
				e.ch.recvq--
			}
		}
	}
	r := Tuple{int64(pick), false}
	if pick >= 0 && sts[pick].send {
		fr.chanSend(sts[pick].ch, sts[pick].v)
	}
	for i, x := range in.States {
		if x.Dir == types.RecvOnly {
			el := x.Chan.Type().Underlying().(*types.Chan).Elem()
			if i == pick {
				v, ok := fr.chanRecv(sts[i].ch, el)
				r[1] = ok
				r = append(r, v)
			} else {
				r = append(r, zero(el))
			}
		}
	}
	return r
}

// ---- sync primitives, keyed by address

type waitGroup struct {
	n  int64
	vc VC
}
type mutexState struct {
	w       bool
	readers int
	vc      VC
}
type onceState struct {
	done, running bool
	vc            VC
}

func sideOf[T any](fr *Frame, p Value) *T {
	c, ok := p.(*Value)
	if !ok || c == nil {
		fr.rtPanic("invalid memory address or nil pointer dereference")
	}
	if x, ok := fr.it.side[c].(*T); ok {
		return x
	}
	x := new(T)
	fr.it.side[c] = x
	return x
}

func init() {
	reg("(*sync.WaitGroup).Add", func(fr *Frame, a []Value) Value {
		w := sideOf[waitGroup](fr, a[0])
		w.n += fr.concInt(a[1])
		fr.it.release(&w.vc)
		fr.it.progress++
		if w.n < 0 {
			panic(&targetPanic{v: fr.it.mkError("sync: negative WaitGroup counter"), s: "panic: sync: negative WaitGroup counter"})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(fr *Frame, a []Value) Value {
		fr.it.sched.yield()
		w := sideOf[waitGroup](fr, a[0])
		w.n--
		fr.it.release(&w.vc)
		fr.it.progress++
		if w.n < 0 {
			panic(&targetPanic{v: fr.it.mkError("sync: negative WaitGroup counter"), s: "panic: sync: negative WaitGroup counter"})
		}
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(fr *Frame, a []Value) Value {
		w := sideOf[waitGroup](fr, a[0])
		fr.it.sched.block(func() bool { return w.n == 0 }, "WaitGroup.Wait")
		fr.it.acquire(w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Go", func(fr *Frame, a []Value) Value {
		w := sideOf[waitGroup](fr, a[0])
		w.n++
		f := a[1]
		fr.it.sched.spawn(fr, &Native{name: "wg.Go", f: func(fr2 *Frame, _ []Value) Value {
			fr2.it.call(fr2, f, nil)
			w.n--
			fr2.it.release(&w.vc)
			fr2.it.progress++
			return nil
		}}, nil)
		return nil
	})
	lock := func(fr *Frame, a []Value) Value {
		m := sideOf[mutexState](fr, a[0])
		fr.it.sched.block(func() bool { return !m.w && m.readers == 0 }, "Mutex.Lock")
		m.w = true
		fr.it.acquire(m.vc)
		return nil
	}
	unlock := func(fr *Frame, a []Value) Value {
		fr.it.sched.yield()
		m := sideOf[mutexState](fr, a[0])
		if !m.w {
			panic(&targetPanic{v: fr.it.mkError("sync: unlock of unlocked mutex"), s: "fatal: unlock of unlocked mutex"})
		}
		fr.it.release(&m.vc)
		m.w = false
		fr.it.progress++
		return nil
	}
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.RWMutex).Lock"} {
		reg(n, lock)
	}
	for _, n := range []string{"(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock"} {
		reg(n, unlock)
	}
	reg("(*sync.Mutex).TryLock", func(fr *Frame, a []Value) Value {
		m := sideOf[mutexState](fr, a[0])
		if m.w {
			return false
		}
		m.w = true
		fr.it.acquire(m.vc)
		return true
	})
	reg("(*sync.RWMutex).RLock", func(fr *Frame, a []Value) Value {
		m := sideOf[mutexState](fr, a[0])
		fr.it.sched.block(func() bool { return !m.w }, "RWMutex.RLock")
		m.readers++
		fr.it.acquire(m.vc)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(fr *Frame, a []Value) Value {
		m := sideOf[mutexState](fr, a[0])
		fr.it.release(&m.vc)
		m.readers--
		fr.it.progress++
		return nil
	})
	reg("(*sync.Once).Do", func(fr *Frame, a []Value) Value {
		o := sideOf[onceState](fr, a[0])
		if o.running {
			fr.it.sched.block(func() bool { return o.done }, "Once.Do")
		}
		if !o.done {
			o.running = true
			fr.it.call(fr, a[1], nil)
			o.done = true
			o.running = false
			fr.it.release(&o.vc)
			fr.it.progress++
		}
		fr.it.acquire(o.vc)
		return nil
	})
	// a pool hands out what was put last
	reg("(*sync.Pool).Get", func(fr *Frame, a []Value) Value {
		m := sideOf[syncMap](fr, a[0])
		fr.it.acquire(m.vc)
		if n := len(m.vals); n > 0 {
			v := m.vals[n-1]
			m.vals = m.vals[: n-1 : n-1]
			return v
		}
		s := (*a[0].(*Value)).(Struct)
		nf := s[len(s)-1]
		if f, ok := nf.(*ssa.Function); ok && f == nil {
			return Iface{}
		}
		return fr.it.call(fr, nf, nil)
	})
	reg("(*sync.Pool).Put", func(fr *Frame, a []Value) Value {
		m := sideOf[syncMap](fr, a[0])
		fr.it.release(&m.vc)
		if a[1].(Iface).t != nil {
			m.vals = append(m.vals, a[1])
		}
		return nil
	})
	reg("runtime.Gosched", func(fr *Frame, a []Value) Value { fr.it.sched.yield(); return nil })
	atom := func(name string, f func(fr *Frame, c *Value, a []Value) Value) {
		reg("sync/atomic."+name, func(fr *Frame, a []Value) Value {
			c, _ := a[0].(*Value)
			if c == nil {
				fr.rtPanic("invalid memory address or nil pointer dereference")
			}
			if fr.it.race != nil {
				v := sideOf[waitGroup](fr, a[0])
				fr.it.acquire(v.vc)
				fr.it.release(&v.vc)
			}
			fr.it.progress++
			return f(fr, c, a)
		})
	}
	for _, t := range []struct {
		n string
		t types.BasicKind
	}{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}} {
		ty := types.Typ[t.t]
		atom("Load"+t.n, func(fr *Frame, c *Value, a []Value) Value { return *c })
		atom("Store"+t.n, func(fr *Frame, c *Value, a []Value) Value { *c = a[1]; return nil })
		atom("Add"+t.n, func(fr *Frame, c *Value, a []Value) Value {
			*c = fr.binop(tokADD, ty, ty, *c, a[1])
			return *c
		})
		atom("Swap"+t.n, func(fr *Frame, c *Value, a []Value) Value { o := *c; *c = a[1]; return o })
		atom("CompareAndSwap"+t.n, func(fr *Frame, c *Value, a []Value) Value {
			if fr.it.path.branch(fr.it.eqVals(ty, *c, a[1])) {
				*c = a[2]
				return true
			}
			return false
		})
	}
	atom("LoadPointer", func(fr *Frame, c *Value, a []Value) Value { return *c })
	atom("StorePointer", func(fr *Frame, c *Value, a []Value) Value { *c = a[1]; return nil })
	atom("SwapPointer", func(fr *Frame, c *Value, a []Value) Value { o := *c; *c = a[1]; return o })
	atom("CompareAndSwapPointer", func(fr *Frame, c *Value, a []Value) Value {
		x, _ := (*c).(*Value)
		y, _ := a[1].(*Value)
		if x == y {
			*c = a[2]
			return true
		}
		return false
	})
}

// ---- happens-before race detection

type VC []int

func (v VC) copy() VC { return append(VC{}, v...) }
func (v VC) get(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}
func (v VC) tick(i int) VC {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i]++
	return v
}
func (v VC) join(o VC) VC {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i := range o {
		if o[i] > v[i] {
			v[i] = o[i]
		}
	}
	return v
}

type access struct {
	g, t  int
	where string
}
type cellState struct {
	w     access
	reads []access
}
type Race struct {
	cells map[*Value]*cellState
}

func newRace() *Race { return &Race{cells: map[*Value]*cellState{}} }

func (it *Interp) release(vc *VC) {
	if it.race == nil {
		return
	}
	g := it.sched.cur
	*vc = (*vc).join(g.vc)
	g.vc = g.vc.tick(g.id)
}

func (it *Interp) acquire(vc VC) {
	if it.race == nil {
		return
	}
	g := it.sched.cur
	g.vc = g.vc.join(vc)
}

func (r *Race) state(p *Value) *cellState {
	s := r.cells[p]
	if s == nil {
		s = &cellState{w: access{g: -1}}
		r.cells[p] = s
	}
	return s
}

func (r *Race) read(fr *Frame, p *Value) {
	if len(fr.it.sched.gs) == 1 {
		return
	}
	g := fr.it.sched.cur
	s := r.state(p)
	if s.w.g >= 0 && s.w.g != g.id && g.vc.get(s.w.g) < s.w.t {
		panic(&targetPanic{s: fmt.Sprintf("data race: read in %s, unsynchronised write in %s", fr.shortWhere(), s.w.where)})
	}
	me := access{g.id, g.vc.get(g.id), fr.shortWhere()}
	for i := range s.reads {
		if s.reads[i].g == g.id {
			s.reads[i] = me
			return
		}
	}
	s.reads = append(s.reads, me)
}

func (r *Race) write(fr *Frame, p *Value) {
	if len(fr.it.sched.gs) == 1 {
		return
	}
	g := fr.it.sched.cur
	s := r.state(p)
	if s.w.g >= 0 && s.w.g != g.id && g.vc.get(s.w.g) < s.w.t {
		panic(&targetPanic{s: fmt.Sprintf("data race: write in %s, unsynchronised write in %s", fr.shortWhere(), s.w.where)})
	}
	for _, a := range s.reads {
		if a.g != g.id && g.vc.get(a.g) < a.t {
			panic(&targetPanic{s: fmt.Sprintf("data race: write in %s, unsynchronised read in %s", fr.shortWhere(), a.where)})
		}
	}
	s.w = access{g.id, g.vc.get(g.id), fr.shortWhere()}
	s.reads = nil
}

func (fr *Frame) shortWhere() string {
	if fr == nil || fr.fn == nil {
		return "?"
	}
	return fr.fn.String()
}
