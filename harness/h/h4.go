package h

import (
	"sync"

	"github.com/bnb-chain/zkbnb-setup/common"
	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"verif/harness/sym"
)

// cpus chooses the number of processors.
var cpuCounts = []int{1, 2, 3, 4, 8, 5, 6, 7, 9, 12, 16, 17, 24, 31, 32, 48, 64, 96, 128, 10, 11, 13, 14, 15, 20, 63, 65, 100, 127, 192, 255, 256}

// cpus sets one of the first max numbers of processors.
func cpus(max int) int {
	n := cpuCounts[sym.Choose("cpus", max)]
	sym.SetNumCPU(n)
	return n
}

type span struct{ lo, hi int }

type spans struct {
	mu sync.Mutex
	s  []span
}

func (r *spans) add(lo, hi int) {
	r.mu.Lock()
	r.s = append(r.s, span{lo, hi})
	r.mu.Unlock()
}

// covers asserts that the spans partition 0..n-1, for an arbitrary index x.
func (r *spans) covers(n, x int) {
	total, hits := 0, 0
	for _, s := range r.s {
		sym.Assert(sym.And(0 <= s.lo, sym.And(s.lo <= s.hi, s.hi <= n)), "work outside the range")
		total += s.hi - s.lo
		hits += sym.B2I(sym.And(s.lo <= x, x < s.hi))
	}
	sym.Assert(total == n, "the pieces do not add up to the range")
	sym.Assert(hits == 1, "an index is not processed exactly once")
}

// ParSpans: every number of iterations up to 2^28 is split into pieces that
// partition it, for every number of tasks.
func ParSpans() {
	k := sym.Choose("tasks", maxPower(6, 16)) + 1
	n := sym.Int("n", 1, 1<<28)
	x := sym.Int("x", 0, 1<<28)
	sym.Assume(x < n)
	var r spans
	if sym.Choose("explicit", 2) == 1 {
		common.Parallelize(n, r.add, k)
	} else {
		sym.SetNumCPU(k)
		common.Parallelize(n, r.add)
	}
	r.covers(n, x)
	sym.Assert(len(r.s) <= k, "more tasks than asked for")
	sym.Reach("done")
}

// ParMany: the same for many tasks or processors, and lengths around their
// multiples.
func ParMany() {
	k := cpuCounts[sym.Choose("cpus", maxPower(19, 32))]
	m := []int{1, 2, 3, 7, 64, 1000, 1 << 20}[sym.Choose("times", 7)]
	n := m*k + []int{-k, -1, 0, 1, k / 2, k - 1}[sym.Choose("more", 6)]
	sym.Assume(n > 0)
	x := sym.Int("x", 0, 1<<28)
	sym.Assume(x < n)
	var r spans
	if sym.Choose("explicit", 2) == 1 {
		sym.SetNumCPU(3)
		common.Parallelize(n, r.add, k)
	} else {
		sym.SetNumCPU(k)
		common.Parallelize(n, r.add)
	}
	r.covers(n, x)
	sym.Assert(len(r.s) <= k, "more tasks than asked for")
	sym.Reach("done")
}

// ParEmpty: nothing is done for no iterations.
func ParEmpty() {
	k := sym.Choose("tasks", 8) + 1
	var r spans
	common.Parallelize(0, r.add, k)
	for _, s := range r.s {
		sym.Assert(s.lo == s.hi, "work outside the range")
	}
	sym.Reach("done")
}

// ParSchedules: under every schedule all the work is done when the call
// returns, without races.
func ParSchedules() {
	k := sym.Choose("tasks", maxPower(3, 4)) + 1
	n := sym.Choose("n", maxPower(6, 9))
	done := make([]int, n)
	sym.RaceDetect(true)
	sym.Interleave(maxPower(12, 24))
	common.Parallelize(n, func(lo, hi int) {
		for i := lo; i < hi; i++ {
			done[i]++
		}
	}, k)
	sym.Interleave(0)
	for i := range done {
		sym.Assert(done[i] == 1, "an index is not processed exactly once when the call returns")
	}
	sym.Reach("done")
}

// ParSlow: the call waits for every piece, also for one that takes long.
func ParSlow() {
	k := []int{2, 3, 8, 64, 65, 130, 1, 5, 16, 33, 129, 257, 600}[sym.Choose("tasks", maxPower(6, 13))]
	n := k * []int{1, 3}[sym.Choose("times", 2)]
	slow := []int{0, n - 1, n / 2, 63, 64, 1, n - 2, 31, 32, 127, 128, 255, 256}[sym.Choose("slow", maxPower(5, 13))]
	sym.Assume(0 <= slow && slow < n)
	done := make([]int, n)
	work := func(lo, hi int) {
		if lo <= slow && slow < hi {
			sym.Slow()
		}
		for i := lo; i < hi; i++ {
			done[i]++
		}
	}
	sym.RaceDetect(true)
	if sym.Choose("explicit", 2) == 1 {
		common.Parallelize(n, work, k)
	} else {
		sym.SetNumCPU(k)
		common.Parallelize(n, work)
	}
	for i := range done {
		sym.Assert(done[i] == 1, "an index is not processed exactly once when the call returns")
	}
	sym.Reach("done")
}

// invDFT is the inverse discrete Fourier transform.
func invDFT(x []fr.Element, d *fft.Domain) []fr.Element {
	n := len(x)
	r := make([]fr.Element, n)
	w := make([]fr.Element, n)
	w[0].SetOne()
	for i := 1; i < n; i++ {
		w[i].Mul(&w[i-1], &d.GeneratorInv)
	}
	for j := range r {
		for k := range x {
			t := mul(x[k], w[j*k%n])
			r[j].Add(&r[j], &t)
		}
		r[j].Mul(&r[j], &d.CardinalityInv)
	}
	return r
}

func lagG1(size int) {
	x := frs("x", size)
	p := g1s(x)
	d := fft.NewDomain(uint64(size))
	lagrange.ConvertG1(p, d)
	y := invDFT(x, d)
	sym.Assert(len(p) == size, "the number of points changed")
	for i := range y {
		e := G1(y[i])
		sym.Assert(p[i].Equal(&e), "not the inverse transform in G1")
	}
}

func lagG2(size int) {
	x := frs("x", size)
	var p []bn254.G2Affine
	for i := range x {
		p = append(p, G2(x[i]))
	}
	d := fft.NewDomain(uint64(size))
	lagrange.ConvertG2(p, d)
	y := invDFT(x, d)
	sym.Assert(len(p) == size, "the number of points changed")
	for i := range y {
		e := G2(y[i])
		sym.Assert(p[i].Equal(&e), "not the inverse transform in G2")
	}
}

// LagG1: the conversion is the inverse transform of arbitrary points, for every
// number of processors.
func LagG1() {
	cpus(maxPower(19, 32))
	lagG1(1 << (sym.Choose("size", maxPower(8, 10)) + 1))
	sym.Reach("done")
}

// LagG2: the same in G2.
func LagG2() {
	cpus(maxPower(19, 32))
	lagG2(1 << (sym.Choose("size", maxPower(8, 10)) + 1))
	sym.Reach("done")
}

// LagRace: no races, whatever the number of processors.
func LagRace() {
	cpus(maxPower(19, 32))
	sym.RaceDetect(true)
	size := 1 << (sym.Choose("size", maxPower(8, 10)) + 1)
	if sym.Choose("group", 2) == 0 {
		lagG1(size)
	} else {
		lagG2(size)
	}
	sym.Reach("done")
}

// LagSchedules: the result does not depend on the schedule.
func LagSchedules() {
	sym.SetNumCPU(2 + sym.Choose("cpus", maxPower(2, 3)))
	sym.Interleave(maxPower(4, 7))
	size := []int{4, 16, 64}[sym.Choose("size", 3)]
	if sym.Choose("group", 2) == 0 {
		lagG1(size)
	} else {
		lagG2(size)
	}
	sym.Reach("done")
}

// BitRev: the reversal permutes points by the reversed bits of their index.
func BitRev() {
	size := 1 << sym.Choose("size", maxPower(6, 9))
	x := frs("x", size)
	p := g1s(x)
	var q []bn254.G2Affine
	for i := range x {
		q = append(q, G2(x[i]))
	}
	common.BitReverseG1(p)
	common.BitReverseG2(q)
	for i := range x {
		e, f := G1(x[bitrev(i, size)]), G2(x[bitrev(i, size)])
		sym.Assert(p[i].Equal(&e), "wrong bit reversal in G1")
		sym.Assert(q[i].Equal(&f), "wrong bit reversal in G2")
	}
	sym.Reach("done")
}
