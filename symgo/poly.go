package main

// Scalars of F_r (the BN254 scalar field) and discrete logarithms of curve
// points are represented by Laurent polynomials over F_r in symbolic
// variables. Two kinds of variables exist: "input" variables (harness inputs,
// universally quantified, decided by the solver in QF_FF) and "indeterminates"
// (values drawn at random by the code under test, or the unknown discrete
// logarithm of a hash-to-curve output).  A polynomial is the zero function for
// all but a negligible fraction of the indeterminates iff all its coefficients
// w.r.t. the indeterminates vanish (Schwartz-Zippel).

import (
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type PVar struct {
	id      int
	name    string
	indet   bool // random indeterminate
	nonzero bool // known to be non-zero (may be inverted)
}

type ve struct {
	v *PVar
	e int
}

type pterm struct {
	m []ve
	c fr.Element
}

type Poly struct {
	t map[string]*pterm
}

var polyZero = &Poly{t: map[string]*pterm{}}

func monoKey(m []ve) string {
	if len(m) == 0 {
		return ""
	}
	b := make([]byte, 0, 8*len(m))
	for _, x := range m {
		b = strconv.AppendInt(b, int64(x.v.id), 36)
		b = append(b, '^')
		b = strconv.AppendInt(b, int64(x.e), 36)
		b = append(b, ' ')
	}
	return string(b)
}

func polyConst(c fr.Element) *Poly {
	if c.IsZero() {
		return polyZero
	}
	return &Poly{t: map[string]*pterm{"": {c: c}}}
}

func polyInt(i int64) *Poly {
	var c fr.Element
	c.SetInt64(i)
	return polyConst(c)
}

func polyBig(b *big.Int) *Poly {
	var c fr.Element
	c.SetBigInt(b)
	return polyConst(c)
}

func polyVar(v *PVar) *Poly {
	m := []ve{{v, 1}}
	return &Poly{t: map[string]*pterm{monoKey(m): {m: m, c: fr.One()}}}
}

func (p *Poly) isConst() (fr.Element, bool) {
	var z fr.Element
	switch len(p.t) {
	case 0:
		return z, true
	case 1:
		if t, ok := p.t[""]; ok {
			return t.c, true
		}
	}
	return z, false
}

func (p *Poly) add(q *Poly) *Poly {
	if len(p.t) == 0 {
		return q
	}
	if len(q.t) == 0 {
		return p
	}
	r := &Poly{t: make(map[string]*pterm, len(p.t)+len(q.t))}
	for k, t := range p.t {
		r.t[k] = t
	}
	r.addTo(q)
	return r
}

// addTo adds q to r itself, which nobody else may hold.
func (r *Poly) addTo(q *Poly) {
	for k, t := range q.t {
		if o, ok := r.t[k]; ok {
			var c fr.Element
			c.Add(&o.c, &t.c)
			if c.IsZero() {
				delete(r.t, k)
			} else {
				r.t[k] = &pterm{m: t.m, c: c}
			}
		} else {
			r.t[k] = t
		}
	}
}

func (p *Poly) scale(c fr.Element) *Poly {
	if c.IsZero() || len(p.t) == 0 {
		return polyZero
	}
	if c.IsOne() {
		return p
	}
	r := &Poly{t: make(map[string]*pterm, len(p.t))}
	for k, t := range p.t {
		var d fr.Element
		d.Mul(&t.c, &c)
		r.t[k] = &pterm{m: t.m, c: d}
	}
	return r
}

func (p *Poly) neg() *Poly {
	var m fr.Element
	m.SetInt64(-1)
	return p.scale(m)
}

func (p *Poly) sub(q *Poly) *Poly { return p.add(q.neg()) }

func mulMono(a, b []ve) []ve {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	r := make([]ve, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].v.id < b[j].v.id:
			r = append(r, a[i])
			i++
		case a[i].v.id > b[j].v.id:
			r = append(r, b[j])
			j++
		default:
			if e := a[i].e + b[j].e; e != 0 {
				r = append(r, ve{a[i].v, e})
			}
			i++
			j++
		}
	}
	r = append(r, a[i:]...)
	r = append(r, b[j:]...)
	return r
}

func (p *Poly) mul(q *Poly) *Poly {
	if len(p.t) == 0 || len(q.t) == 0 {
		return polyZero
	}
	if c, ok := p.isConst(); ok {
		return q.scale(c)
	}
	if c, ok := q.isConst(); ok {
		return p.scale(c)
	}
	r := &Poly{t: make(map[string]*pterm, len(p.t)*len(q.t))}
	for _, a := range p.t {
		for _, b := range q.t {
			m := mulMono(a.m, b.m)
			k := monoKey(m)
			var c fr.Element
			c.Mul(&a.c, &b.c)
			if o, ok := r.t[k]; ok {
				c.Add(&c, &o.c)
				if c.IsZero() {
					delete(r.t, k)
					continue
				}
			}
			r.t[k] = &pterm{m: m, c: c}
		}
	}
	return r
}

// monoInverse returns 1/p when p is a single monomial in non-zero variables.
func (p *Poly) monoInverse() (*Poly, bool) {
	if len(p.t) != 1 {
		return nil, false
	}
	for _, t := range p.t {
		m := make([]ve, len(t.m))
		for i, x := range t.m {
			if !x.v.nonzero {
				return nil, false
			}
			m[i] = ve{x.v, -x.e}
		}
		var c fr.Element
		c.Inverse(&t.c)
		return &Poly{t: map[string]*pterm{monoKey(m): {m: m, c: c}}}, true
	}
	return nil, false
}

func (p *Poly) equal(q *Poly) bool {
	if p == q {
		return true
	}
	if len(p.t) != len(q.t) {
		return false
	}
	for k, t := range p.t {
		o, ok := q.t[k]
		if !ok || !o.c.Equal(&t.c) {
			return false
		}
	}
	return true
}

func (p *Poly) keys() []string {
	ks := make([]string, 0, len(p.t))
	for k := range p.t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p *Poly) String() string {
	if len(p.t) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, k := range p.keys() {
		if i > 0 {
			sb.WriteString(" + ")
		}
		if i > 12 {
			sb.WriteString("...")
			break
		}
		t := p.t[k]
		var parts []string
		if !t.c.IsOne() || len(t.m) == 0 {
			parts = append(parts, t.c.String())
		}
		for _, x := range t.m {
			s := x.v.name
			if x.e != 1 {
				s += "^" + strconv.Itoa(x.e)
			}
			parts = append(parts, s)
		}
		sb.WriteString(strings.Join(parts, "*"))
	}
	return sb.String()
}

// coefficients splits p by its indeterminate monomials and returns the
// coefficient polynomials over input variables, with denominators cleared
// (every variable occurring with a negative exponent is known to be non-zero).
func (p *Poly) coefficients() []*Poly {
	groups := map[string]*Poly{}
	var order []string
	for _, k := range p.keys() {
		t := p.t[k]
		var ind, inp []ve
		for _, x := range t.m {
			if x.v.indet {
				ind = append(ind, x)
			} else {
				inp = append(inp, x)
			}
		}
		g := monoKey(ind)
		if groups[g] == nil {
			groups[g] = &Poly{t: map[string]*pterm{}}
			order = append(order, g)
		}
		groups[g].t[monoKey(inp)] = &pterm{m: inp, c: t.c}
	}
	var out []*Poly
	for _, g := range order {
		out = append(out, groups[g].clearDenominators())
	}
	return out
}

func (p *Poly) clearDenominators() *Poly {
	min := map[*PVar]int{}
	for _, t := range p.t {
		for _, x := range t.m {
			if x.e < min[x.v] {
				min[x.v] = x.e
			}
		}
	}
	if len(min) == 0 {
		return p.normalized()
	}
	var m []ve
	for v, e := range min {
		if e < 0 {
			m = append(m, ve{v, -e})
		}
	}
	if len(m) == 0 {
		return p.normalized()
	}
	sort.Slice(m, func(i, j int) bool { return m[i].v.id < m[j].v.id })
	q := &Poly{t: map[string]*pterm{monoKey(m): {m: m, c: fr.One()}}}
	return p.mul(q).normalized()
}

// normalized divides out the content monomial of non-zero variables and makes
// the first coefficient 1 (the zero set is unchanged).
func (p *Poly) normalized() *Poly {
	if len(p.t) == 0 {
		return p
	}
	// common monomial in nonzero vars
	var com map[*PVar]int
	for _, t := range p.t {
		cur := map[*PVar]int{}
		for _, x := range t.m {
			if x.v.nonzero && x.e > 0 {
				cur[x.v] = x.e
			}
		}
		if com == nil {
			com = cur
			continue
		}
		for v, e := range com {
			if cur[v] == 0 {
				delete(com, v)
			} else if cur[v] < e {
				com[v] = cur[v]
			}
		}
	}
	if len(com) > 0 {
		var m []ve
		for v, e := range com {
			m = append(m, ve{v, -e})
		}
		sort.Slice(m, func(i, j int) bool { return m[i].v.id < m[j].v.id })
		p = p.mul(&Poly{t: map[string]*pterm{monoKey(m): {m: m, c: fr.One()}}})
	}
	k0 := p.keys()[len(p.t)-1]
	c := p.t[k0].c
	if c.IsOne() {
		return p
	}
	c.Inverse(&c)
	return p.scale(c)
}

const frModulus = "21888242871839275222246405745257275088548364400416034343698204186575808495617"

func ffConst(c fr.Element) string {
	var b big.Int
	c.BigInt(&b)
	return "(as ff" + b.String() + " F)"
}

func (p *Poly) smt() string {
	if len(p.t) == 0 {
		return "(as ff0 F)"
	}
	var parts []string
	for _, k := range p.keys() {
		t := p.t[k]
		var f []string
		if !t.c.IsOne() || len(t.m) == 0 {
			f = append(f, ffConst(t.c))
		}
		for _, x := range t.m {
			for i := 0; i < x.e; i++ {
				f = append(f, x.v.name)
			}
			if x.e < 0 {
				panic("negative exponent in SMT polynomial")
			}
		}
		if len(f) == 1 {
			parts = append(parts, f[0])
		} else {
			parts = append(parts, "(ff.mul "+strings.Join(f, " ")+")")
		}
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(ff.add " + strings.Join(parts, " ") + ")"
}

func (p *Poly) vars(set map[*PVar]bool) {
	for _, t := range p.t {
		for _, x := range t.m {
			set[x.v] = true
		}
	}
}
