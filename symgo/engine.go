package main

import (
	"fmt"
	"os"
	"strings"
	"sync"
	"time"
)

var debug = os.Getenv("SYMGO_DEBUG") != ""

func debugf(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// decision is one recorded choice of a path.
type decision struct {
	val  bool   // direction taken
	cand uint64 // candidate value for concretisation decisions
}

// pathEnd aborts the current path.
type pathEnd struct {
	kind string // "infeasible", "unsupported", "violation", "exit", "limit"
	msg  string
}

type Violation struct {
	Harness string
	Msg     string
	Witness map[string]string
	Path    string
	Trace   []string
	Seed    string
	Chance  bool // it takes random values that happen to be right
}

// Explorer explores all paths of one harness.
type Explorer struct {
	ld      *Loaded
	harness *Harness
	mu      sync.Mutex
	cond    *sync.Cond
	queue   [][]decision
	active  int
	stop    bool

	Paths      int
	Completed  int
	Infeasible int
	Abandoned  map[string]int
	// AbandonedWit are models of abandoned paths, at most 12 for each reason
	AbandonedWit []map[string]string
	Branches     int64
	Reached      map[string]int
	Violations   []Violation
	Asserts      int64
	AssertsUnk   int64
	Concretes    int
	Steps        int64
	Funcs        map[string]bool
	Samples      []string
	Witnesses    []map[string]string // models of completed paths (for validation)
	deadline     time.Time
	thorough     bool
	TimedOut     bool
}

// Path is the state of one path under execution.
type Path struct {
	ex     *Explorer
	solver *Solver
	prefix []decision
	taken  []decision
	pc     []*Term

	pvars   []*PVar
	inputs  []input
	nInput  map[string]int
	pending [][]decision
	unknown bool
	chance  bool // the path needs luck

	stepCount int64
	desc      []string
}

type input struct {
	name string
	kind string // fr, bv, bool, str
	v    *PVar
	t    *Term
	s    string
}

func (p *Path) newPVar(name string, indet, nonzero bool) *PVar {
	v := &PVar{id: len(p.pvars) + 1, indet: indet, nonzero: nonzero}
	pre := "f"
	if nonzero {
		pre = "g"
	}
	v.name = fmt.Sprintf("%s%d_%s", pre, v.id, sanitize(name))
	p.pvars = append(p.pvars, v)
	return v
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

// relevant returns the constraints of pc connected to t by shared symbols.
func (p *Path) relevant(t *Term) []*Term {
	type info struct {
		bv map[string]int
		pv map[*PVar]bool
	}
	get := func(t *Term) info {
		i := info{map[string]int{}, map[*PVar]bool{}}
		var ff bool
		t.collect(i.bv, i.pv, &ff)
		return i
	}
	cur := get(t)
	used := make([]bool, len(p.pc))
	var out []*Term
	infos := make([]info, len(p.pc))
	for i, c := range p.pc {
		infos[i] = get(c)
	}
	for changed := true; changed; {
		changed = false
		for i, c := range p.pc {
			if used[i] {
				continue
			}
			hit := false
			for n := range infos[i].bv {
				if _, ok := cur.bv[n]; ok {
					hit = true
					break
				}
			}
			if !hit {
				for v := range infos[i].pv {
					if cur.pv[v] {
						hit = true
						break
					}
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, c)
				for n, w := range infos[i].bv {
					cur.bv[n] = w
				}
				for v := range infos[i].pv {
					cur.pv[v] = true
				}
			}
		}
	}
	return out
}

const branchTimeoutMs = 3000
const assertTimeoutMs = 60000

func (p *Path) feasible(t *Term, timeout int) satResult {
	if t == tTrue {
		return resSat
	}
	if t == tFalse {
		return resUnsat
	}
	// syntactic implication
	nt := tNot(t)
	for _, c := range p.pc {
		if c.h == t.h {
			return resSat
		}
		if c.h == nt.h {
			return resUnsat
		}
	}
	r, _ := p.solver.check(append(p.relevant(t), t), timeout, false)
	return r
}

func (p *Path) addPC(t *Term) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			p.addPC(a)
		}
		return
	}
	for _, c := range p.pc {
		if c.h == t.h {
			return
		}
	}
	p.pc = append(p.pc, t)
}

// branch decides which way to go on t, forking when both are feasible.
func (p *Path) branch(t *Term) bool {
	if t == tTrue {
		return true
	}
	if t == tFalse {
		return false
	}
	if len(p.taken) < len(p.prefix) {
		d := p.prefix[len(p.taken)]
		p.taken = append(p.taken, d)
		if d.val {
			p.addPC(t)
		} else {
			p.addPC(tNot(t))
		}
		return d.val
	}
	p.ex.mu.Lock()
	p.ex.Branches++
	p.ex.mu.Unlock()
	rt := p.feasible(t, branchTimeoutMs)
	var rf satResult
	if rt == resUnsat {
		rf = resSat
	} else {
		rf = p.feasible(tNot(t), branchTimeoutMs)
	}
	if rt == resUnknown || rf == resUnknown {
		p.unknown = true
	}
	val := rt != resUnsat
	if rt != resUnsat && rf != resUnsat {
		alt := append(append([]decision{}, p.taken...), decision{val: false})
		p.pending = append(p.pending, alt)
		if len(p.taken) > 4000 {
			panic(pathEnd{"limit", "decision limit reached (possible unbounded loop over symbolic data)"})
		}
	} else if rt == resUnsat && rf == resUnsat {
		panic(pathEnd{"infeasible", ""})
	} else if (rt == resUnsat) || (rf == resUnsat) {
		// forced: no need to record, but keep the log aligned
	}
	p.taken = append(p.taken, decision{val: val})
	if val {
		p.addPC(t)
	} else {
		p.addPC(tNot(t))
	}
	return val
}

// concretize forks over all feasible values of a bit-vector term.
func (p *Path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.c
	}
	for n := 0; ; n++ {
		if n > 3000 {
			panic(pathEnd{"limit", "too many values while concretising " + t.String()})
		}
		var cand uint64
		if len(p.taken) < len(p.prefix) {
			cand = p.prefix[len(p.taken)].cand
			d := p.prefix[len(p.taken)]
			p.taken = append(p.taken, d)
			eq := tEq(t, tConst(t.w, cand))
			if d.val {
				p.addPC(eq)
				return cand
			}
			p.addPC(tNot(eq))
			continue
		}
		// ask for a value
		probe := tVar(t.w, "probe!")
		as := append(p.relevant(t), tEq(probe, t))
		r, m := p.solver.check(as, branchTimeoutMs, true)
		if r == resUnsat {
			panic(pathEnd{"infeasible", ""})
		}
		if r != resSat {
			panic(pathEnd{"limit", "solver gave no value for " + t.String()})
		}
		fmt.Sscan(m["probe!"], &cand)
		eq := tEq(t, tConst(t.w, cand))
		rf := p.feasible(tNot(eq), branchTimeoutMs)
		if rf != resUnsat {
			alt := append(append([]decision{}, p.taken...), decision{val: false, cand: cand})
			p.pending = append(p.pending, alt)
		}
		p.taken = append(p.taken, decision{val: true, cand: cand})
		p.addPC(eq)
		return cand
	}
}

// choose forks n ways on the value of the fresh variable t.
func (p *Path) choose(t *Term, n int) int {
	if n <= 0 {
		panic(pathEnd{"infeasible", ""})
	}
	var k uint64
	if len(p.taken) < len(p.prefix) {
		k = p.prefix[len(p.taken)].cand
	} else {
		for i := n - 1; i > 0; i-- {
			alt := append(append([]decision{}, p.taken...), decision{val: true, cand: uint64(i)})
			p.pending = append(p.pending, alt)
		}
	}
	p.taken = append(p.taken, decision{val: true, cand: k})
	p.pc = append(p.pc, tEq(t, tConst(t.w, k)))
	return int(k)
}

func (p *Path) assume(t *Term) {
	if t == tTrue {
		return
	}
	if p.feasible(t, branchTimeoutMs) == resUnsat {
		panic(pathEnd{"infeasible", ""})
	}
	p.addPC(t)
}

func (p *Path) model(extra ...*Term) (satResult, map[string]string) {
	as := append(append([]*Term{}, p.pc...), extra...)
	return p.solver.check(as, assertTimeoutMs, true)
}

// witness turns a model into values for the harness inputs; inputs the model
// does not mention are left out (the replayer picks pseudo-random values).
func (p *Path) witness(m map[string]string) map[string]string {
	w := map[string]string{}
	for _, in := range p.inputs {
		switch in.kind {
		case "fr":
			if v, ok := m[in.v.name]; ok {
				w[in.name] = v
			}
		case "str":
			w[in.name] = in.s
		default:
			if v, ok := m[in.t.s]; ok {
				w[in.name] = v
			} else if in.kind == "bool" {
				w[in.name] = "false"
			}
		}
	}
	return w
}

// assert checks that t holds on the current path; if not, reports.
func (p *Path) assert(t *Term, msg string) {
	p.ex.mu.Lock()
	p.ex.Asserts++
	p.ex.mu.Unlock()
	if t == tTrue {
		return
	}
	nt := tNot(t)
	r := p.feasible(nt, assertTimeoutMs)
	switch r {
	case resUnsat:
		p.addPC(t)
		return
	case resUnknown:
		p.ex.mu.Lock()
		p.ex.AssertsUnk++
		p.ex.mu.Unlock()
		panic(pathEnd{"limit", "solver could not decide assertion: " + msg})
	}
	p.violation(msg, nt)
}

func (p *Path) violation(msg string, extra ...*Term) {
	r, m := p.model(extra...)
	if r == resUnsat {
		// pc itself was infeasible (branch feasibility was unknown earlier)
		panic(pathEnd{"infeasible", ""})
	}
	if r == resUnknown {
		panic(pathEnd{"limit", "no model for: " + msg})
	}
	v := Violation{Harness: p.ex.harness.Name, Msg: msg, Witness: p.witness(m), Chance: p.chance}
	for _, c := range p.pc {
		v.Trace = append(v.Trace, c.String())
		if len(v.Trace) > 40 {
			break
		}
	}
	p.ex.mu.Lock()
	p.ex.Violations = append(p.ex.Violations, v)
	p.ex.mu.Unlock()
	panic(pathEnd{"violation", msg})
}

// explore runs the harness to exhaustion with n workers.
func (ex *Explorer) explore(workers int, maxViolations int) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = [][]decision{nil}
	ex.Abandoned = map[string]int{}
	ex.Reached = map[string]int{}
	ex.Funcs = map[string]bool{}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sv := newSolver()
			defer sv.close()
			for {
				ex.mu.Lock()
				for len(ex.queue) == 0 && ex.active > 0 && !ex.stop {
					ex.cond.Wait()
				}
				if ex.stop || len(ex.queue) == 0 {
					ex.mu.Unlock()
					ex.cond.Broadcast()
					break
				}
				pre := ex.queue[len(ex.queue)-1]
				ex.queue = ex.queue[:len(ex.queue)-1]
				ex.active++
				ex.Paths++
				ex.mu.Unlock()

				end, p, m := runPath(ex, sv, pre)
				var wit map[string]string
				if end.kind == "done" {
					ex.mu.Lock()
					want := len(ex.Witnesses) < 16
					ex.mu.Unlock()
					if want {
						if r, mod := p.solver.check(p.pc, 2000, true); r == resSat {
							wit = p.witness(mod)
						}
					}
				}

				if end.kind != "done" && end.kind != "infeasible" && end.kind != "violation" {
					ex.mu.Lock()
					want := ex.Abandoned[end.kind+": "+end.msg] < 12 && len(ex.AbandonedWit) < 48
					ex.mu.Unlock()
					if want {
						if r, mod := p.solver.check(p.pc, 2000, true); r == resSat {
							wit = p.witness(mod)
						}
					}
				}

				ex.mu.Lock()
				ex.active--
				ex.queue = append(ex.queue, p.pending...)
				ex.Steps += m.steps
				for f := range m.funcs {
					ex.Funcs[f] = true
				}
				switch end.kind {
				case "done":
					ex.Completed++
					if wit != nil {
						ex.Witnesses = append(ex.Witnesses, wit)
					}
					if p.unknown {
						ex.Abandoned["completed after an undecided branch"] += 0
					}
					if len(ex.Samples) < 3 {
						var cs []string
						for _, c := range p.pc {
							cs = append(cs, c.String())
							if len(cs) > 12 {
								break
							}
						}
						ex.Samples = append(ex.Samples, fmt.Sprintf("path %d: %d decisions, %d constraints: %s", ex.Paths, len(p.taken), len(p.pc), strings.Join(cs, " & ")))
					}
				case "infeasible":
					ex.Infeasible++
				case "violation":
					if len(ex.Violations) >= maxViolations {
						ex.stop = true
					}
				default:
					ex.Abandoned[end.kind+": "+end.msg]++
					if wit != nil {
						ex.AbandonedWit = append(ex.AbandonedWit, wit)
					}
				}
				if time.Now().After(ex.deadline) {
					ex.stop = true
					if len(ex.queue) > 0 || ex.active > 0 {
						ex.TimedOut = true
					}
				}
				ex.mu.Unlock()
				ex.cond.Broadcast()
			}
			ex.mu.Lock()
			ex.Samples = append(ex.Samples, sv.samples...)
			ex.mu.Unlock()
		}()
	}
	wg.Wait()
}
