// Package sym is the interface between harnesses and the two ways of running
// them: symbolically (every function is intercepted by symgo) and natively,
// with inputs taken from a witness file (this code).
package sym

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math/big"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strconv"
	"syscall"
	"time"
	_ "unsafe"

	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

var (
	witness = map[string]string{}
	count   = map[string]int{}
	seed    string
	outFile string
)

// Setup loads the witness; called by the replay command only.
func Setup(path, seed_, stdout string) {
	seed = seed_
	outFile = stdout
	if path != "" {
		b, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &witness); err != nil {
			panic(err)
		}
	}
}

func value(name string) (string, string, bool) {
	k := count[name]
	count[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	v, ok := witness[name]
	return name, v, ok
}

func prf(name string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, seed+"/"+name)
	x := h.Sum64()
	x ^= x >> 29
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 32
	return x
}

// Exit codes of a native run.
const (
	ExitViolation = 41
	ExitSkip      = 42
)

func violate(msg string) {
	fmt.Fprintln(os.Stderr, "SYM-VIOLATION "+msg)
	os.Exit(ExitViolation)
}

// Fr is an arbitrary field element.
func Fr(name string) fr.Element {
	n, v, ok := value(name)
	var e fr.Element
	if ok {
		b, _ := new(big.Int).SetString(v, 10)
		e.SetBigInt(b)
		return e
	}
	return prfFr(n)
}

func prfFr(n string) fr.Element {
	var b []byte
	for i := 0; i < 5; i++ {
		b = append(b, []byte(strconv.FormatUint(prf(fmt.Sprint(n, ":", i)), 16))...)
	}
	bi, _ := new(big.Int).SetString(string(b), 16)
	var e fr.Element
	e.SetBigInt(bi)
	return e
}

// NzFr is an arbitrary non-zero field element.
func NzFr(name string) fr.Element {
	e := Fr(name)
	if e.IsZero() {
		Assume(false)
	}
	return e
}

// RndFr is a uniformly random field element.
func RndFr(name string) fr.Element {
	var e fr.Element
	e.SetRandom()
	return e
}

func integer(name string) (int64, bool, string) {
	n, v, ok := value(name)
	if !ok {
		return 0, false, n
	}
	u, err := strconv.ParseUint(v, 10, 64)
	if err != nil {
		panic("bad witness value " + v)
	}
	return int64(u), true, n
}

func Int(name string, lo, hi int) int {
	v, ok, n := integer(name)
	if !ok {
		if hi-lo < 0 {
			return lo
		}
		return lo + int(prf(n)%uint64(hi-lo+1))
	}
	if int(v) < lo || int(v) > hi {
		Assume(false)
	}
	return int(v)
}

func Byte(name string) byte {
	v, ok, n := integer(name)
	if !ok {
		return byte(prf(n))
	}
	return byte(v)
}

func Bool(name string) bool {
	n, v, ok := value(name)
	if !ok {
		return prf(n)&1 == 1
	}
	return v == "true"
}

// Choose picks one of 0..n-1; every choice is explored.
func Choose(name string, n int) int {
	return Int(name, 0, n-1)
}

// Conc forces a value to be concrete (forking over all its values).
func Conc(x int) int { return x }

func Assume(b bool) {
	if !b {
		os.Exit(ExitSkip)
	}
}

func Assert(b bool, msg string) {
	if !b {
		violate(msg)
	}
}

func Fail(msg string) { violate(msg) }

// And is a && b, decided as one formula.
func And(a, b bool) bool { return a && b }

// B2I is 1 if b.
func B2I(b bool) int {
	if b {
		return 1
	}
	return 0
}

func Reach(label string) {}

//go:linkname numCPU runtime.numCPUStartup
var numCPU int32

// SetNumCPU sets what runtime.NumCPU and runtime.GOMAXPROCS say.
func SetNumCPU(n int) {
	numCPU = int32(n)
	runtime.GOMAXPROCS(n)
}

func RaceDetect(on bool) {}

// Interleave explores the schedules at the first n scheduling points; 0 ends
// the exploration.
func Interleave(n int) {}

// Slow is a place where the goroutine that is running takes long: the others
// get as far as they can before it continues.
func Slow() { time.Sleep(20 * time.Millisecond) }

// stream is a reproducible source of randomness with one piece of what is read
// changed. The pieces have 8 bytes.
type stream struct {
	seed  string
	n     int // bytes read
	piece int // pieces read
	other int // the changed one
}

const pieceSize = 8

func (s *stream) Read(b []byte) (int, error) {
	for lo := 0; lo < len(b); lo += pieceSize {
		hi := lo + pieceSize
		if hi > len(b) {
			hi = len(b)
		}
		for i := lo; i < hi; i++ {
			b[i] = byte(prf(fmt.Sprint(s.seed, "stream", s.n)))
			// not the ends, which decide whether a draw is in range
			if s.piece == s.other && i%32 >= 4 && i%32 < 28 && len(b)-i > 4 {
				b[i] ^= 0x5a
			}
			s.n++
		}
		s.piece++
	}
	return len(b), nil
}

// Freedom is the number of the byte strings returned by f that can be matched
// with distinct random draws of the code under test they depend on, of at
// least three pieces each.
func Freedom(f func() [][]byte) int {
	const copies = 3
	old := rand.Reader
	defer func() { rand.Reader = old }()
	s := &stream{seed: seed, other: -1}
	rand.Reader = s
	base := f()
	dep := make([][]int, len(base)*copies)
	for g := 0; g < s.piece; g++ {
		rand.Reader = &stream{seed: seed, other: g}
		out := f()
		for i := range dep {
			if !bytes.Equal(out[i/copies], base[i/copies]) {
				dep[i] = append(dep[i], g)
			}
		}
	}
	match := map[int]int{}
	var try func(i int, seen map[int]bool) bool
	try = func(i int, seen map[int]bool) bool {
		for _, g := range dep[i] {
			if seen[g] {
				continue
			}
			seen[g] = true
			if j, ok := match[g]; !ok || try(j, seen) {
				match[g] = i
				return true
			}
		}
		return false
	}
	n := 0
	for i := range dep {
		if try(i, map[int]bool{}) {
			n++
		}
	}
	return n / copies
}

// FileLimit makes every write beyond n bytes into a file fail.
func FileLimit(n int64) {
	signal.Ignore(syscall.SIGXFSZ)
	lim := syscall.Rlimit{Cur: uint64(n), Max: ^uint64(0)}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
		panic(err)
	}
}

// failing is a source of randomness that fails after left draws.
type failing struct {
	left int
	hit  bool
}

var failer *failing

func (f *failing) Read(b []byte) (int, error) {
	if f.left <= 0 {
		f.hit = true
		return 0, errors.New("the source of randomness fails")
	}
	f.left--
	for i := range b {
		b[i] = byte(prf(fmt.Sprint(seed, "failing", f.left, i)))
	}
	if len(b) > 16 { // in range, so that a draw is one read
		b[0], b[len(b)-1] = 0, 0
	}
	return len(b), nil
}

// RandFail makes the source of randomness fail after n draws of field elements.
func RandFail(n int) {
	failer = &failing{left: n}
	rand.Reader = failer
}

// RandFailed tells whether a draw failed.
func RandFailed() bool { return failer != nil && failer.hit }

// DevFull makes path a device on which every write fails.
func DevFull(path string) {
	os.Remove(path)
	if err := os.Symlink("/dev/full", path); err != nil {
		panic(err)
	}
}

// Thorough tells whether the larger bounds are asked for.
func Thorough() bool { return os.Getenv("SYM_THOROUGH") == "true" }

// OtherByte returns a byte different from b.
func OtherByte(b byte) byte { return ^b }

func Symbolic() bool { return false }

// Watch starts to record which files may be changed.
func Watch() {}

// Touched is the name of one of the files that may have been changed since
// Watch; every one is explored. Names that are chosen at random do not count.
func Touched() string {
	_, v, _ := value("touched")
	return v
}

func FileLen(path string) int {
	st, err := os.Stat(path)
	if err != nil {
		return -1
	}
	return int(st.Size())
}

// OffCurve returns bytes of the length of a point encoding that decode to no
// point of the curve.
func OffCurve(g int, compressed bool) []byte {
	n := 32 * g
	if !compressed {
		n *= 2
	}
	b := make([]byte, n)
	if compressed {
		// x with no y: x^3+3 a non-residue (G1); tried until rejected
		for i := byte(1); ; i++ {
			b[0] = 0x80
			b[n-1] = i
			if !decodes(g, b) {
				return b
			}
		}
	}
	b[n-1] = 5
	b[n/2-1] = 7
	return b
}

// BadSubgroup returns the encoding of a point of the twist outside the
// prime-order subgroup.
func BadSubgroup(compressed bool) []byte {
	p := badG2()
	if compressed {
		b := p.Bytes()
		return b[:]
	}
	b := p.RawBytes()
	return b[:]
}

// StdoutHasHex tells whether the hexadecimal form of b was printed.
func StdoutHasHex(b []byte) bool {
	out, err := os.ReadFile(outFile)
	if err != nil {
		panic(err)
	}
	return bytes.Contains(bytes.ToLower(out), []byte(hex.EncodeToString(b)))
}

func StdoutReset() {
	if outFile != "" {
		os.Truncate(outFile, 0)
	}
}

// RunCLI runs the command line tool.
func RunCLI(args ...string) error {
	a := append([]string{args[0], "--"}, args[1:]...)
	cmd := exec.Command(os.Getenv("SYM_CLI"), a...)
	cmd.Stdout = os.Stdout
	cmd.Stderr = io.Discard
	return cmd.Run()
}

var _ = fp.Element{}
