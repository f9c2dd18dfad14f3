package main

import (
	"fmt"
	"os"
	rdebug "runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type meta struct {
	steps int64
	funcs map[string]bool
}

const harnessPkg = "verif/harness/h"

var maxSteps int64 = 60_000_000

func newInterp(ex *Explorer, p *Path) *Interp {
	it := &Interp{
		ld: ex.ld, path: p, prog: ex.ld.prog,
		globals: map[*ssa.Global]*Value{},
		inited:  map[*ssa.Package]bool{},
		maxStep: maxSteps,
		funcs:   map[string]bool{},
		fs:      newFS(),
		side:    map[*Value]interface{}{},
		numCPU:  int64(2),
	}
	it.sched = newSched(it)
	return it
}

func runPath(ex *Explorer, sv *Solver, prefix []decision) (end pathEnd, p *Path, m *meta) {
	p = &Path{ex: ex, solver: sv, prefix: prefix, nInput: map[string]int{}}
	it := newInterp(ex, p)
	m = &meta{funcs: it.funcs}
	end = pathEnd{kind: "done"}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			end = p.classify(r)
		}()
		hp := ex.ld.pkg(harnessPkg)
		f := hp.Func(ex.harness.Name)
		if f == nil {
			panic(pathEnd{"unsupported", "no harness " + ex.harness.Name})
		}
		fr := &Frame{it: it, g: it.sched.cur}
		it.callSSA(fr, f, nil, nil)
	}()
	it.sched.kill()
	m.steps = it.steps
	return
}

func (p *Path) classify(r interface{}) (end pathEnd) {
	switch r := r.(type) {
	case pathEnd:
		return r
	case *targetPanic:
		defer func() {
			if q, ok := recover().(pathEnd); ok {
				end = q
			}
		}()
		p.violation("panic: " + r.s)
	case targetExit:
		defer func() {
			if q, ok := recover().(pathEnd); ok {
				end = q
			}
		}()
		p.violation(fmt.Sprintf("os.Exit(%d) outside the command line", r.code))
	}
	msg := fmt.Sprint(r)
	if debug {
		fmt.Fprintln(os.Stderr, "internal:", msg, string(rdebug.Stack()))
	}
	if i := strings.IndexByte(msg, '\n'); i > 0 {
		msg = msg[:i]
	}
	return pathEnd{"unsupported", "internal: " + msg}
}
