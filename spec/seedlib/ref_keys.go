package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"errors"
	"os"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"github.com/consensys/gnark/constraint"
)

// Reference reader for gnark's key formats.

type pkey struct {
	domain          []byte
	A1, B1, D1      bn254.G1Affine
	A, B, Z, K      []bn254.G1Affine
	B2, D2          bn254.G2Affine
	BB              []bn254.G2Affine
	wires, nbA, nbB uint64
	infA, infB      []bool
}

type ckey struct {
	G, Root    bn254.G2Affine
	Exp, Basis []bn254.G1Affine
}

type vkey struct {
	C          ckey
	A1, B1, D1 bn254.G1Affine
	B2, G2, D2 bn254.G2Affine
	K          []bn254.G1Affine
	Info       constraint.Commitment
}

func (r *rdr) slice1(raw bool) (ps []bn254.G1Affine) {
	n := r.u32()
	for i := 0; i < n && r.err == nil; i++ {
		if raw {
			ps = append(ps, r.r1())
		} else {
			ps = append(ps, r.g1())
		}
	}
	return
}

func (r *rdr) slice2(raw bool) (ps []bn254.G2Affine) {
	n := r.u32()
	for i := 0; i < n && r.err == nil; i++ {
		if raw {
			ps = append(ps, r.r2())
		} else {
			ps = append(ps, r.g2())
		}
	}
	return
}

func (r *rdr) u64() uint64 {
	b := r.take(8)
	if r.err != nil {
		return 0
	}
	return binary.BigEndian.Uint64(b)
}

func (r *rdr) bools(n uint64) (v []bool) {
	b := r.take(int(n))
	for i := range b {
		v = append(v, b[i] != 0)
	}
	return
}

func (r *rdr) end() error {
	if r.err == nil && len(r.b) != 0 {
		r.err = errors.New("trailing bytes")
	}
	return r.err
}

func newRdr(path string) *rdr {
	b, err := os.ReadFile(path)
	return &rdr{b: b, err: err}
}

func readPK(path string) (*pkey, error) {
	r := newRdr(path)
	k := &pkey{}
	k.domain = r.take(168)
	k.A1, k.B1, k.D1 = r.g1(), r.g1(), r.g1()
	k.A, k.B, k.Z, k.K = r.slice1(false), r.slice1(false), r.slice1(false), r.slice1(false)
	k.B2, k.D2 = r.g2(), r.g2()
	k.BB = r.slice2(false)
	k.tail(r)
	return k, r.end()
}

func (k *pkey) tail(r *rdr) {
	k.wires, k.nbA, k.nbB = r.u64(), r.u64(), r.u64()
	if r.err != nil {
		return
	}
	k.infA, k.infB = r.bools(k.wires), r.bools(k.wires)
}

func readSplitPK(session string, domain int) (*pkey, error) {
	k := &pkey{}
	r := newRdr(session + ".pk.E.save")
	card := r.u64()
	if r.err == nil && card != uint64(domain) {
		return nil, errors.New("wrong cardinality")
	}
	k.A1, k.B1, k.D1 = r.r1(), r.r1(), r.r1()
	k.B2, k.D2 = r.r2(), r.r2()
	k.tail(r)
	if err := r.end(); err != nil {
		return nil, err
	}
	var w bytes.Buffer
	_, err := fft.NewDomain(card).WriteTo(&w)
	must(err)
	k.domain = w.Bytes()
	for _, f := range []struct {
		name string
		to   *[]bn254.G1Affine
	}{{"A", &k.A}, {"B1", &k.B}, {"Z", &k.Z}, {"K", &k.K}} {
		r := newRdr(session + ".pk." + f.name + ".save")
		*f.to = r.slice1(true)
		if err := r.end(); err != nil {
			return nil, err
		}
	}
	r = newRdr(session + ".pk.B2.save")
	k.BB = r.slice2(true)
	return k, r.end()
}

func (r *rdr) ckey() (c ckey) {
	c.G, c.Root = r.r2(), r.r2()
	c.Exp, c.Basis = r.slice1(true), r.slice1(true)
	return
}

func readCK(path string) (*ckey, error) {
	r := newRdr(path)
	c := r.ckey()
	return &c, r.end()
}

func readVK(path string) (*vkey, error) {
	r := newRdr(path)
	k := &vkey{}
	k.C = r.ckey()
	k.A1, k.B1 = r.r1(), r.r1()
	k.B2, k.G2 = r.r2(), r.r2()
	k.D1, k.D2 = r.r1(), r.r2()
	k.K = r.slice1(true)
	if r.err != nil {
		return nil, r.err
	}
	rd := bytes.NewReader(r.b)
	if err := gob.NewDecoder(rd).Decode(&k.Info); err != nil {
		return nil, err
	}
	if rd.Len() != 0 {
		return nil, errors.New("trailing bytes")
	}
	return k, nil
}

func same1(a, b []bn254.G1Affine) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(&b[i]) {
			return false
		}
	}
	return true
}

func same2(a, b []bn254.G2Affine) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(&b[i]) {
			return false
		}
	}
	return true
}

