package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Term is a Bool or bit-vector term.
type Term struct {
	op   string
	w    int // 0 = Bool, else bit-vector width
	args []*Term
	c    uint64 // constant value, or extract low index
	s    string // variable name
	p    *Poly  // for op "ffzero"
	h    string // structural key
}

var tTrue = &Term{op: "true", h: "T"}
var tFalse = &Term{op: "false", h: "F"}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (t *Term) isConst() bool { return t.op == "const" || t == tTrue || t == tFalse }

func tBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func tConst(w int, v uint64) *Term {
	v &= mask(w)
	return &Term{op: "const", w: w, c: v, h: "c" + strconv.Itoa(w) + "_" + strconv.FormatUint(v, 16)}
}

func tVar(w int, name string) *Term {
	return &Term{op: "var", w: w, s: name, h: "v" + name}
}

func mk(op string, w int, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	sb.WriteString(strconv.Itoa(w))
	for _, a := range args {
		sb.WriteByte(' ')
		sb.WriteString(a.h)
	}
	sb.WriteByte(')')
	h := sb.String()
	if len(h) > 256 {
		h = hashKey(h)
	}
	return &Term{op: op, w: w, args: args, h: h}
}

func tNot(a *Term) *Term {
	if a == tTrue {
		return tFalse
	}
	if a == tFalse {
		return tTrue
	}
	if a.op == "not" {
		return a.args[0]
	}
	return mk("not", 0, a)
}

func tAnd(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x == tFalse {
			return tFalse
		}
		if x == tTrue {
			continue
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mk("and", 0, out...)
}

func tOr(xs ...*Term) *Term {
	var out []*Term
	for _, x := range xs {
		if x == tTrue {
			return tTrue
		}
		if x == tFalse {
			continue
		}
		out = append(out, x)
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mk("or", 0, out...)
}

func tEq(a, b *Term) *Term {
	if a == b || a.h == b.h {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tBool(a.c == b.c && a.op == b.op)
	}
	if a.w == 0 {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	return mk("=", 0, a, b)
}

// ffZeroAtom: p has only input variables, non-negative exponents.
func ffZeroAtom(p *Poly) *Term {
	if c, ok := p.isConst(); ok {
		return tBool(c.IsZero())
	}
	if len(p.t) == 1 {
		// a monomial is zero iff one of its variables is
		for _, t := range p.t {
			any := false
			for _, x := range t.m {
				if !x.v.nonzero {
					any = true
				}
			}
			if !any {
				return tFalse
			}
		}
	}
	s := p.smt()
	return &Term{op: "ffzero", p: p, h: "z" + hashKey(s)}
}

// ffZero: the condition that p is (generically) zero.
func ffZero(p *Poly) *Term {
	var cs []*Term
	for _, c := range p.coefficients() {
		cs = append(cs, ffZeroAtom(c))
	}
	return tAnd(cs...)
}

func sx(w int, v uint64) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v&(1<<uint(w-1)) != 0 {
		return int64(v | ^mask(w))
	}
	return int64(v)
}

func tBV(op string, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		x, y := a.c, b.c
		switch op {
		case "bvadd":
			return tConst(w, x+y)
		case "bvsub":
			return tConst(w, x-y)
		case "bvmul":
			return tConst(w, x*y)
		case "bvand":
			return tConst(w, x&y)
		case "bvor":
			return tConst(w, x|y)
		case "bvxor":
			return tConst(w, x^y)
		case "bvshl":
			if y >= uint64(w) {
				return tConst(w, 0)
			}
			return tConst(w, x<<y)
		case "bvlshr":
			if y >= uint64(w) {
				return tConst(w, 0)
			}
			return tConst(w, x>>y)
		case "bvult":
			return tBool(x < y)
		case "bvule":
			return tBool(x <= y)
		case "bvslt":
			return tBool(sx(w, x) < sx(w, y))
		case "bvsle":
			return tBool(sx(w, x) <= sx(w, y))
		case "bvudiv":
			if y != 0 {
				return tConst(w, x/y)
			}
		case "bvurem":
			if y != 0 {
				return tConst(w, x%y)
			}
		case "bvsdiv":
			if y != 0 {
				return tConst(w, uint64(sx(w, x)/sx(w, y)))
			}
		case "bvsrem":
			if y != 0 {
				return tConst(w, uint64(sx(w, x)%sx(w, y)))
			}
		}
	}
	switch op {
	case "bvadd":
		if a.isConst() && a.c == 0 {
			return b
		}
		if b.isConst() && b.c == 0 {
			return a
		}
	case "bvsub":
		if b.isConst() && b.c == 0 {
			return a
		}
	case "bvmul":
		if a.isConst() && a.c == 1 {
			return b
		}
		if b.isConst() && b.c == 1 {
			return a
		}
	}
	rw := w
	switch op {
	case "bvult", "bvule", "bvslt", "bvsle":
		rw = 0
	}
	return mk(op, rw, a, b)
}

func tExtend(t *Term, w int, signed bool) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		if signed {
			return tConst(w, uint64(sx(t.w, t.c)))
		}
		return tConst(w, t.c)
	}
	op := "zext"
	if signed {
		op = "sext"
	}
	return mk(op, w, t)
}

func tTrunc(t *Term, w int) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return tConst(w, t.c)
	}
	if (t.op == "zext" || t.op == "sext") && t.args[0].w == w {
		return t.args[0]
	}
	if (t.op == "zext" || t.op == "sext") && t.args[0].w > w {
		return tTrunc(t.args[0], w)
	}
	return mk("trunc", w, t)
}

func tIte(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.h == b.h {
		return a
	}
	return mk("ite", a.w, c, a, b)
}

// smt renders t, using defs for sharing.
func (t *Term) smt() string {
	switch t.op {
	case "true", "false":
		return t.op
	case "const":
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case "var":
		return t.s
	case "ffzero":
		return "(= " + t.p.smt() + " (as ff0 F))"
	case "zext":
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, t.args[0].smt())
	case "sext":
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].smt())
	case "trunc":
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, t.args[0].smt())
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(t.op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.smt())
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	s := t.smt()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (t *Term) collect(bv map[string]int, pv map[*PVar]bool, hasFF *bool) {
	switch t.op {
	case "var":
		bv[t.s] = t.w
	case "ffzero":
		t.p.vars(pv)
		*hasFF = true
	}
	for _, a := range t.args {
		a.collect(bv, pv, hasFF)
	}
}
