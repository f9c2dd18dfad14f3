package main

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type satResult int

const (
	resUnsat satResult = iota
	resSat
	resUnknown
)

func (r satResult) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Stats struct {
	queries, sat, unsat, unknown, cached int64
	ffQueries                            int64
	solverNs                             int64
	maxNs                                int64
}

var stats Stats

// Snapshot is a copy of the counters.
type Snapshot struct {
	Queries, Sat, Unsat, Unknown, Cached, FF int64
	Seconds, Max                             float64
}

func (s *Stats) snapshot() Snapshot {
	l := atomic.LoadInt64
	return Snapshot{l(&s.queries), l(&s.sat), l(&s.unsat), l(&s.unknown), l(&s.cached), l(&s.ffQueries), float64(l(&s.solverNs)) / 1e9, float64(l(&s.maxNs)) / 1e9}
}

var queryCache sync.Map // string -> satResult

// Solver is one z3 process.
type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	dead    bool
	samples []string
}

func newSolver() *Solver {
	s := &Solver{}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2", "-memory:2000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<20)
	s.dead = false
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// readUntil reads lines until the echo marker; a hard deadline kills z3.
func (s *Solver) exchange(script string, hard time.Duration) (string, error) {
	if s.dead {
		s.close()
		s.start()
	}
	const marker = "<<done>>"
	type res struct {
		s string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		if _, err := io.WriteString(s.in, script+"\n(echo \""+marker+"\")\n"); err != nil {
			ch <- res{"", err}
			return
		}
		var sb strings.Builder
		for {
			line, err := s.out.ReadString('\n')
			if err != nil {
				ch <- res{sb.String(), err}
				return
			}
			if strings.Contains(line, marker) {
				ch <- res{sb.String(), nil}
				return
			}
			sb.WriteString(line)
		}
	}()
	select {
	case r := <-ch:
		if r.e != nil {
			s.dead = true
		}
		return r.s, r.e
	case <-time.After(hard):
		s.dead = true
		s.cmd.Process.Kill()
		<-ch
		return "", fmt.Errorf("solver hard timeout")
	}
}

func buildScript(asserts []*Term, timeoutMs int) (script string, bv map[string]int, pv map[*PVar]bool, hasFF bool) {
	bv = map[string]int{}
	pv = map[*PVar]bool{}
	for _, a := range asserts {
		a.collect(bv, pv, &hasFF)
	}
	var sb strings.Builder
	sb.WriteString("(reset)\n")
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", timeoutMs)
	if hasFF {
		sb.WriteString("(define-sort F () (_ FiniteField " + frModulus + "))\n")
	}
	var names []string
	for n := range bv {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if bv[n] == 0 {
			fmt.Fprintf(&sb, "(declare-const %s Bool)\n", n)
		} else {
			fmt.Fprintf(&sb, "(declare-const %s (_ BitVec %d))\n", n, bv[n])
		}
	}
	var pvs []*PVar
	for v := range pv {
		pvs = append(pvs, v)
	}
	sort.Slice(pvs, func(i, j int) bool { return pvs[i].id < pvs[j].id })
	for _, v := range pvs {
		fmt.Fprintf(&sb, "(declare-const %s F)\n", v.name)
		if v.nonzero {
			fmt.Fprintf(&sb, "(assert (not (= %s (as ff0 F))))\n", v.name)
		}
	}
	for _, a := range asserts {
		sb.WriteString("(assert " + a.smt() + ")\n")
	}
	return sb.String(), bv, pv, hasFF
}

// sample looks for a model of a large query: the solver chooses the values of
// the bit vectors, the field elements are chosen at random, and the query is
// evaluated. A query without such a model is left to the solver.
func (s *Solver) sample(asserts []*Term, pv map[*PVar]bool, timeoutMs int) map[string]string {
	var plain, rest []*Term
	for _, a := range asserts {
		ff := false
		a.collect(map[string]int{}, map[*PVar]bool{}, &ff)
		if ff {
			rest = append(rest, a)
		} else {
			plain = append(plain, a)
		}
	}
	model := map[string]string{}
	if len(plain) > 0 {
		r, m := s.check(plain, timeoutMs, true)
		if r != resSat {
			return nil
		}
		model = m
	}
	// an equation determines a variable that it is linear in
	type solved struct {
		v *PVar
		p *Poly
	}
	var eqs []solved // in the order of their solution
	var open []*Poly
	for _, a := range rest {
		if a.op == "ffzero" {
			open = append(open, a.p)
		}
	}
	fixed := map[*PVar]bool{}
	uses := map[*PVar]int{}
	vars := map[*Poly]map[*PVar]bool{}
	for _, p := range open {
		vars[p] = polyVars(p)
		for v := range vars[p] {
			uses[v]++
		}
	}
	for again := true; again; {
		again = false
		for i, p := range open {
			if v := linearVar(p, uses); v != nil {
				fixed[v] = true
				eqs = append(eqs, solved{v, p})
				open = append(open[:i:i], open[i+1:]...)
				for u := range vars[p] {
					uses[u]--
				}
				again = true
				break
			}
		}
	}
	slices.Reverse(eqs)
	for try := 0; try < 3; try++ {
		vals := map[*PVar]fr.Element{}
		for v := range pv {
			if !fixed[v] {
				var x fr.Element
				x.SetRandom()
				vals[v] = x
			}
		}
		for _, e := range eqs {
			if x, ok := solveFor(e.p, e.v, vals); ok {
				vals[e.v] = x
			}
		}
		ok := len(vals) == len(pv)
		for _, a := range rest {
			v, known := a.eval(model, vals)
			if !known || v == 0 {
				ok = false
				break
			}
		}
		if ok {
			for v, x := range vals {
				model[v.name] = x.String()
			}
			return model
		}
	}
	return nil
}

func polyVars(p *Poly) map[*PVar]bool {
	r := map[*PVar]bool{}
	for _, x := range p.t {
		for _, y := range x.m {
			r[y.v] = true
		}
	}
	return r
}

// linearVar is a variable that p is linear in and that no other equation uses.
func linearVar(p *Poly, uses map[*PVar]int) *PVar {
	bad := map[*PVar]bool{}
	var vs []*PVar
	for _, x := range p.t {
		for _, y := range x.m {
			if y.e != 1 {
				bad[y.v] = true
			} else if uses[y.v] == 1 {
				vs = append(vs, y.v)
			}
		}
	}
	for _, v := range vs {
		if !bad[v] {
			return v
		}
	}
	return nil
}

// solveFor solves p = 0 for v.
func solveFor(p *Poly, v *PVar, vals map[*PVar]fr.Element) (res fr.Element, ok bool) {
	var a, b fr.Element
	for _, x := range p.t {
		m, with := x.c, false
		for _, y := range x.m {
			if y.v == v {
				with = true
				continue
			}
			val, ok := vals[y.v]
			if !ok || y.e < 0 {
				return res, false
			}
			var e fr.Element
			e.Exp(val, big.NewInt(int64(y.e)))
			m.Mul(&m, &e)
		}
		if with {
			a.Add(&a, &m)
		} else {
			b.Add(&b, &m)
		}
	}
	if a.IsZero() {
		return res, false
	}
	res.Div(&b, &a)
	res.Neg(&res)
	return res, true
}

// eval is the value of t (0 or 1 for a Bool), if its operators are few enough.
func (t *Term) eval(bv map[string]string, ff map[*PVar]fr.Element) (uint64, bool) {
	switch t.op {
	case "true":
		return 1, true
	case "false":
		return 0, true
	case "const":
		return t.c, true
	case "var":
		switch s := bv[t.s]; s {
		case "true":
			return 1, true
		case "", "false":
			return 0, true
		default:
			n, err := strconv.ParseUint(s, 10, 64)
			return n, err == nil
		}
	case "ffzero":
		var sum fr.Element
		for _, x := range t.p.t {
			m := x.c
			for _, y := range x.m {
				if y.e < 0 {
					return 0, false
				}
				var e fr.Element
				e.Exp(ff[y.v], big.NewInt(int64(y.e)))
				m.Mul(&m, &e)
			}
			sum.Add(&sum, &m)
		}
		if sum.IsZero() {
			return 1, true
		}
		return 0, true
	}
	var v []uint64
	for _, a := range t.args {
		x, ok := a.eval(bv, ff)
		if !ok {
			return 0, false
		}
		v = append(v, x)
	}
	b := func(x bool) (uint64, bool) {
		if x {
			return 1, true
		}
		return 0, true
	}
	switch t.op {
	case "not":
		return 1 - v[0], true
	case "and":
		for _, x := range v {
			if x == 0 {
				return 0, true
			}
		}
		return 1, true
	case "or":
		for _, x := range v {
			if x != 0 {
				return 1, true
			}
		}
		return 0, true
	case "=":
		return b(v[0] == v[1])
	case "ite":
		if v[0] != 0 {
			return v[1], true
		}
		return v[2], true
	}
	return 0, false
}

// check decides satisfiability of the conjunction; with wantModel it also
// returns the values of all symbols.
func (s *Solver) check(asserts []*Term, timeoutMs int, wantModel bool) (satResult, map[string]string) {
	for _, a := range asserts {
		if a == tFalse {
			return resUnsat, nil
		}
	}
	var key string
	if !wantModel {
		hs := make([]string, len(asserts))
		for i, a := range asserts {
			hs[i] = a.h
		}
		sort.Strings(hs)
		script0 := strings.Join(hs, "|")
		key = hashKey(script0)
		if r, ok := queryCache.Load(key); ok {
			atomic.AddInt64(&stats.cached, 1)
			return r.(satResult), nil
		}
	}
	script, bv, pv, hasFF := buildScript(asserts, timeoutMs)
	if hasFF && len(script) > 100000 {
		if m := s.sample(asserts, pv, timeoutMs); m != nil {
			atomic.AddInt64(&stats.queries, 1)
			atomic.AddInt64(&stats.ffQueries, 1)
			atomic.AddInt64(&stats.sat, 1)
			if !wantModel {
				queryCache.Store(key, resSat)
			}
			return resSat, m
		}
	}
	script += "(check-sat)\n"
	t0 := time.Now()
	out, err := s.exchange(script, time.Duration(timeoutMs)*time.Millisecond+3*time.Second)
	dt := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&stats.solverNs, dt)
	for {
		m := atomic.LoadInt64(&stats.maxNs)
		if dt <= m || atomic.CompareAndSwapInt64(&stats.maxNs, m, dt) {
			break
		}
	}
	atomic.AddInt64(&stats.queries, 1)
	if hasFF {
		atomic.AddInt64(&stats.ffQueries, 1)
	}
	res := resUnknown
	out = strings.TrimSpace(out)
	if hasFF && out != "sat" && out != "unsat" {
		if m := s.sample(asserts, pv, timeoutMs); m != nil {
			atomic.AddInt64(&stats.sat, 1)
			if !wantModel {
				queryCache.Store(key, resSat)
			}
			return resSat, m
		}
	}
	switch {
	case err != nil || strings.Contains(out, "(error"):
		res = resUnknown
		if strings.Contains(out, "(error") {
			debugf("solver error: %s\n%s", out, script)
		}
	case out == "sat":
		res = resSat
	case out == "unsat":
		res = resUnsat
	}
	switch res {
	case resSat:
		atomic.AddInt64(&stats.sat, 1)
	case resUnsat:
		atomic.AddInt64(&stats.unsat, 1)
	default:
		atomic.AddInt64(&stats.unknown, 1)
		debugf("unknown: %s", script)
	}
	if len(s.samples) < 4 && len(script) < 3000 {
		s.samples = append(s.samples, "["+res.String()+"] "+strings.Join(strings.Fields(script), " "))
	}
	if !wantModel {
		if res != resUnknown {
			queryCache.Store(key, res)
		}
		return res, nil
	}
	if res != resSat {
		return res, nil
	}
	model := map[string]string{}
	var names []string
	for n := range bv {
		names = append(names, n)
	}
	for v := range pv {
		names = append(names, v.name)
	}
	if len(names) == 0 {
		return res, model
	}
	sort.Strings(names)
	out, err = s.exchange("(get-value ("+strings.Join(names, " ")+"))", 10*time.Second)
	if err != nil {
		return res, model
	}
	for _, m := range modelRe.FindAllStringSubmatch(out, -1) {
		val := m[2]
		switch {
		case val == "true" || val == "false":
			model[m[1]] = val
		case strings.HasPrefix(val, "#x"):
			b, _ := new(big.Int).SetString(val[2:], 16)
			model[m[1]] = b.String()
		case strings.HasPrefix(val, "#b"):
			b, _ := new(big.Int).SetString(val[2:], 2)
			model[m[1]] = b.String()
		default:
			f := strings.TrimPrefix(val, "(as ff")
			if i := strings.IndexByte(f, ' '); i > 0 {
				f = f[:i]
			}
			b, ok := new(big.Int).SetString(f, 10)
			if ok {
				mod, _ := new(big.Int).SetString(frModulus, 10)
				b.Mod(b, mod)
				model[m[1]] = b.String()
			}
		}
	}
	return res, model
}

var modelRe = regexp.MustCompile(`\(([A-Za-z_][A-Za-z0-9_!.]*)\s+(true|false|#x[0-9a-f]+|#b[01]+|\(as ff-?[0-9]+ [^()]*\(_ FiniteField\s+[0-9]+\)\)|\(as ff-?[0-9]+ [A-Za-z]+\))\s*\)`)
