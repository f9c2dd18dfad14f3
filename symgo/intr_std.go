package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"path/filepath"
	"strconv"
	"strings"

	"crypto/sha256"

	"golang.org/x/tools/go/ssa"
)

func decStr(n int64) string { return strconv.FormatInt(n, 10) }

// packages whose initialisers are not run (their state is modelled)
var noInit = map[string]bool{
	pBN: true, pFR: true, pFP: true, pBN + "/internal/fptower": true,
	"runtime": true, "os": true, "syscall": true, "reflect": true, "time": true,
	"internal/poll": true, "math/rand": true, "crypto/rand": true, "unicode": true,
	"encoding/gob": true, "fmt": true, "log": true, "math/big": true, "sync": true,
	"internal/godebug": true, "testing": true, "net": true, "internal/bytealg": true,
	"github.com/urfave/cli/v2": true, "github.com/rs/zerolog": true,
	"internal/cpu": true, "crypto/sha256": true, "hash/crc32": true,
	"github.com/consensys/gnark/logger": true, "math/rand/v2": true, "flag": true,
	"os/signal": true, "os/exec": true,
	"path/filepath": true,
}

func (it *Interp) globalOverride(g *ssa.Global) (Value, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	switch g.Pkg.Pkg.Path() {
	case "os":
		switch g.Name() {
		case "Stdin":
			return newCell(&FileObj{name: "/dev/stdin", rd: true, f: &File{}}), true
		case "Stdout":
			return newCell(&FileObj{name: "/dev/stdout", wr: true, std: 1, f: &File{}}), true
		case "Stderr":
			return newCell(&FileObj{name: "/dev/stderr", wr: true, std: 2, f: &File{}}), true
		case "Args":
			s := make(Slice, len(it.args))
			for i, a := range it.args {
				s[i] = a
			}
			return s, true
		case "ErrNotExist":
			return it.globalByName("io/fs", "ErrNotExist"), true
		case "ErrExist":
			return it.globalByName("io/fs", "ErrExist"), true
		case "ErrInvalid":
			return it.globalByName("io/fs", "ErrInvalid"), true
		case "ErrClosed":
			return it.globalByName("io/fs", "ErrClosed"), true
		}
	case "crypto/rand":
		if g.Name() == "Reader" {
			t := it.ld.pkg("os").Type("File")
			return Iface{t: types.NewPointer(t.Type()), v: newCell(&FileObj{name: "/dev/urandom", rd: true, f: &File{}})}, true
		}
	}
	return nil, false
}

func (it *Interp) panicString(fr *Frame, v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = show(v)
		}
	}()
	return cellsShow(it.fmtAny(fr, v.(Iface), 'v', ""))
}

func cellsShow(cs []Value) string {
	var sb strings.Builder
	for _, c := range cs {
		switch c := c.(type) {
		case int64:
			sb.WriteByte(byte(c))
		case DecTok:
			sb.WriteString("<int>")
		default:
			sb.WriteString("?")
		}
	}
	return sb.String()
}

// draw tells whether the source of randomness works for one more draw.
func (it *Interp) draw() bool {
	if it.randFail == nil {
		return true
	}
	if *it.randFail <= 0 {
		it.randHit = true
		return false
	}
	*it.randFail--
	return true
}

func (it *Interp) randErr() Value { return it.mkError("the source of randomness fails") }

// randBytes returns fresh random bytes.
func (it *Interp) randBytes(n int) []Value {
	it.nrand++
	b := it.newBlob("rnd", n)
	return b.cells()
}

type shaObj struct{ cells []Value }

func (it *Interp) sha(cells []Value) []Value {
	if b, ok := concreteBytes(cells); ok {
		h := sha256.Sum256(b)
		return bytesToCells(h[:])
	}
	b := it.newBlob("hash", 32)
	b.msg = append([]Value{}, cells...)
	return b.cells()
}

const shaT = "crypto/internal/fips140/sha256"

func (fr *Frame) errf(f string, a ...any) Value { return fr.it.mkError(fmt.Sprintf(f, a...)) }

func isErr(v Value) bool {
	i, ok := v.(Iface)
	return ok && i.t != nil
}

func init() {
	// ---- sha256
	reg("crypto/sha256.New", func(fr *Frame, a []Value) Value {
		t := fr.it.ld.pkg(shaT).Type("Digest")
		return Iface{t: types.NewPointer(t.Type()), v: newCell(&shaObj{})}
	})
	reg("crypto/sha256.Sum256", func(fr *Frame, a []Value) Value { return Array(fr.it.sha(a[0].(Slice))) })
	sh := func(name string, f func(fr *Frame, o *shaObj, a []Value) Value) {
		h := func(fr *Frame, a []Value) Value { return f(fr, fr.ldv(a[0]).(*shaObj), a) }
		nativeMethods["*"+shaT+".Digest."+name] = &Native{name: name, f: h}
		reg("(*"+shaT+".Digest)."+name, h)
	}
	sh("Write", func(fr *Frame, o *shaObj, a []Value) Value {
		o.cells = append(o.cells, a[1].(Slice)...)
		return Tuple{int64(len(a[1].(Slice))), nilErr}
	})
	sh("WriteString", func(fr *Frame, o *shaObj, a []Value) Value {
		c := strCells(a[1])
		o.cells = append(o.cells, c...)
		return Tuple{int64(len(c)), nilErr}
	})
	sh("Sum", func(fr *Frame, o *shaObj, a []Value) Value {
		return append(append(Slice{}, a[1].(Slice)...), fr.it.sha(o.cells)...)
	})
	sh("Reset", func(fr *Frame, o *shaObj, a []Value) Value { o.cells = nil; return nil })
	sh("Size", func(fr *Frame, o *shaObj, a []Value) Value { return int64(32) })
	sh("BlockSize", func(fr *Frame, o *shaObj, a []Value) Value { return int64(64) })

	// ---- bytes, hex
	reg("bytes.Equal", func(fr *Frame, a []Value) Value {
		return boolVal(fr.it.eqShort(a[0].(Slice), a[1].(Slice)))
	})
	reg("bytes.Compare", func(fr *Frame, a []Value) Value {
		x, ok1 := concreteBytes(a[0].(Slice))
		y, ok2 := concreteBytes(a[1].(Slice))
		if ok1 && ok2 {
			return int64(strings.Compare(string(x), string(y)))
		}
		return intVal(tIte(fr.it.eqShort(a[0].(Slice), a[1].(Slice)), tConst(64, 0), tConst(64, 1)), 64, true)
	})
	reg("crypto/subtle.ConstantTimeCompare", func(fr *Frame, a []Value) Value {
		return intVal(tIte(fr.it.eqShort(a[0].(Slice), a[1].(Slice)), tConst(64, 1), tConst(64, 0)), 64, true)
	})
	reg("encoding/hex.EncodeToString", func(fr *Frame, a []Value) Value {
		return cellsToStr(hexCells(a[0].(Slice)))
	})
	reg("encoding/hex.DecodeString", func(fr *Frame, a []Value) Value {
		b, err := hex.DecodeString(fr.str(a[0]))
		if err != nil {
			return Tuple{Slice(nil), fr.errf("%s", err)}
		}
		return Tuple{Slice(bytesToCells(b)), nilErr}
	})
	reg("internal/bytealg.IndexByte", func(fr *Frame, a []Value) Value {
		b, ok := concreteBytes(a[0].(Slice))
		if !ok {
			unsupported("IndexByte of symbolic bytes")
		}
		return int64(strings.IndexByte(string(b), byte(fr.concInt(a[1]))))
	})
	reg("internal/bytealg.IndexByteString", func(fr *Frame, a []Value) Value {
		return int64(strings.IndexByte(fr.str(a[0]), byte(fr.concInt(a[1]))))
	})

	// ---- strconv
	atoi := func(fr *Frame, v Value, base, bitSize int, signed bool, what string) Value {
		if s, ok := v.(*SymStr); ok && len(s.cells) == 1 && (base == 10 || base == 0) {
			if d, ok := s.cells[0].(DecTok); ok {
				return Tuple{intVal(d.t, 64, true), nilErr}
			}
		}
		s := fr.str(v)
		bad := func(err error) Value {
			ne := err.(*strconv.NumError)
			cause := "ErrSyntax"
			if ne.Err == strconv.ErrRange {
				cause = "ErrRange"
			}
			t := fr.it.ld.pkg("strconv").Type("NumError")
			return Iface{t: types.NewPointer(t.Type()), v: newCell(Struct{what, s, fr.it.globalByName("strconv", cause)})}
		}
		if signed {
			n, err := strconv.ParseInt(s, base, bitSize)
			if err != nil {
				return Tuple{n, bad(err)}
			}
			return Tuple{n, nilErr}
		}
		n, err := strconv.ParseUint(s, base, bitSize)
		if err != nil {
			return Tuple{int64(n), bad(err)}
		}
		return Tuple{int64(n), nilErr}
	}
	reg("strconv.Atoi", func(fr *Frame, a []Value) Value { return atoi(fr, a[0], 10, 64, true, "Atoi") })
	parse := func(signed bool, what string) func(fr *Frame, a []Value) Value {
		return func(fr *Frame, a []Value) Value {
			base, bs := fr.concInt(a[1]), int(fr.concInt(a[2]))
			if bs == 0 {
				bs = 64
			}
			if s, ok := a[0].(*SymStr); ok && len(s.cells) == 1 && (base == 10 || base == 0) {
				if d, ok := s.cells[0].(DecTok); ok {
					t := d.t
					lo, hi := tConst(64, 0), tConst(64, 0)
					var v Value = intVal(t, 64, true)
					if signed {
						lo, hi = tConst(64, uint64(int64(-1)<<(uint(bs)-1))), tConst(64, uint64(1)<<(uint(bs)-1)-1)
					} else {
						hi = tConst(64, 1<<63-1)
						if bs < 64 {
							hi = tConst(64, uint64(1)<<uint(bs)-1)
						}
					}
					if fr.it.path.branch(tBV("bvslt", t, lo)) || fr.it.path.branch(tBV("bvslt", hi, t)) {
						return Tuple{int64(0), fr.errf("strconv.%s: parsing: value out of range", what)}
					}
					return Tuple{v, nilErr}
				}
			}
			return atoi(fr, a[0], int(base), bs, signed, what)
		}
	}
	reg("strconv.ParseInt", parse(true, "ParseInt"))
	reg("strconv.ParseUint", parse(false, "ParseUint"))
	itoa := func(fr *Frame, v Value, signed bool) Value {
		switch v := v.(type) {
		case int64:
			if signed {
				return strconv.FormatInt(v, 10)
			}
			return strconv.FormatUint(uint64(v), 10)
		case *Term:
			return &SymStr{cells: []Value{DecTok{tExtend(v, 64, signed)}}}
		}
		unsupported("Itoa of %T", v)
		return nil
	}
	reg("strconv.Itoa", func(fr *Frame, a []Value) Value { return itoa(fr, a[0], true) })
	reg("strconv.FormatInt", func(fr *Frame, a []Value) Value {
		if b := fr.concInt(a[1]); b != 10 {
			return strconv.FormatInt(fr.concInt(a[0]), int(b))
		}
		return itoa(fr, a[0], true)
	})
	reg("strconv.FormatUint", func(fr *Frame, a []Value) Value {
		if b := fr.concInt(a[1]); b != 10 {
			return strconv.FormatUint(uint64(fr.concInt(a[0])), int(b))
		}
		return itoa(fr, a[0], false)
	})
	reg("strconv.Quote", func(fr *Frame, a []Value) Value { return strconv.Quote(fr.str(a[0])) })

	// ---- strings (concrete)
	S := func(name string, f func(fr *Frame, a []Value) Value) { reg("strings."+name, f) }
	S("HasPrefix", func(fr *Frame, a []Value) Value { return strings.HasPrefix(fr.str(a[0]), fr.str(a[1])) })
	S("HasSuffix", func(fr *Frame, a []Value) Value { return strings.HasSuffix(fr.str(a[0]), fr.str(a[1])) })
	S("Contains", func(fr *Frame, a []Value) Value { return strings.Contains(fr.str(a[0]), fr.str(a[1])) })
	S("Index", func(fr *Frame, a []Value) Value { return int64(strings.Index(fr.str(a[0]), fr.str(a[1]))) })
	S("TrimSpace", func(fr *Frame, a []Value) Value { return strings.TrimSpace(fr.str(a[0])) })
	S("TrimSuffix", func(fr *Frame, a []Value) Value { return strings.TrimSuffix(fr.str(a[0]), fr.str(a[1])) })
	S("TrimPrefix", func(fr *Frame, a []Value) Value { return strings.TrimPrefix(fr.str(a[0]), fr.str(a[1])) })
	S("ToLower", func(fr *Frame, a []Value) Value { return fr.strCase(a[0], false) })
	S("ToUpper", func(fr *Frame, a []Value) Value { return fr.strCase(a[0], true) })
	S("Repeat", func(fr *Frame, a []Value) Value { return strings.Repeat(fr.str(a[0]), int(fr.concInt(a[1]))) })
	S("ReplaceAll", func(fr *Frame, a []Value) Value {
		return strings.ReplaceAll(fr.str(a[0]), fr.str(a[1]), fr.str(a[2]))
	})
	S("Split", func(fr *Frame, a []Value) Value {
		var out Slice
		for _, s := range strings.Split(fr.str(a[0]), fr.str(a[1])) {
			out = append(out, s)
		}
		return out
	})
	S("Join", func(fr *Frame, a []Value) Value {
		var cells []Value
		for i, s := range a[0].(Slice) {
			if i > 0 {
				cells = append(cells, strCells(a[1])...)
			}
			cells = append(cells, strCells(s)...)
		}
		return cellsToStr(cells)
	})
	type sbuf struct {
		c []Value
		g int // capacity asked for
	}
	SB := "(*strings.Builder)."
	reg(SB+"WriteString", func(fr *Frame, a []Value) Value {
		b := sideOf[sbuf](fr, a[0])
		c := strCells(a[1])
		b.c = append(b.c, c...)
		return Tuple{int64(len(c)), nilErr}
	})
	reg(SB+"Write", func(fr *Frame, a []Value) Value {
		b := sideOf[sbuf](fr, a[0])
		b.c = append(b.c, a[1].(Slice)...)
		return Tuple{int64(len(a[1].(Slice))), nilErr}
	})
	reg(SB+"WriteByte", func(fr *Frame, a []Value) Value {
		b := sideOf[sbuf](fr, a[0])
		b.c = append(b.c, a[1])
		return nilErr
	})
	reg(SB+"WriteRune", func(fr *Frame, a []Value) Value {
		b := sideOf[sbuf](fr, a[0])
		c := strCells(string(rune(fr.concInt(a[1]))))
		b.c = append(b.c, c...)
		return Tuple{int64(len(c)), nilErr}
	})
	reg(SB+"String", func(fr *Frame, a []Value) Value { return cellsToStr(sideOf[sbuf](fr, a[0]).c) })
	reg(SB+"Len", func(fr *Frame, a []Value) Value { return int64(len(sideOf[sbuf](fr, a[0]).c)) })
	reg(SB+"Reset", func(fr *Frame, a []Value) Value { *sideOf[sbuf](fr, a[0]) = sbuf{}; return nil })
	reg(SB+"Grow", func(fr *Frame, a []Value) Value {
		b := sideOf[sbuf](fr, a[0])
		b.g = max(b.g, len(b.c)+int(fr.concInt(a[1])))
		return nil
	})
	reg(SB+"Cap", func(fr *Frame, a []Value) Value {
		b := sideOf[sbuf](fr, a[0])
		return int64(max(b.g, len(b.c)))
	})

	// ---- filepath
	for _, p := range []string{"path/filepath.", "path."} {
		reg(p+"Join", func(fr *Frame, a []Value) Value {
			var ss []string
			for _, s := range a[0].(Slice) {
				ss = append(ss, fr.str(s))
			}
			return filepath.Join(ss...)
		})
		reg(p+"Clean", func(fr *Frame, a []Value) Value { return filepath.Clean(fr.str(a[0])) })
		reg(p+"Dir", func(fr *Frame, a []Value) Value { return filepath.Dir(fr.str(a[0])) })
		reg(p+"Base", func(fr *Frame, a []Value) Value { return filepath.Base(fr.str(a[0])) })
		reg(p+"Ext", func(fr *Frame, a []Value) Value { return filepath.Ext(fr.str(a[0])) })
	}
	abs := func(fr *Frame, a []Value) Value {
		s := fr.str(a[0])
		if !filepath.IsAbs(s) {
			s = "/cwd/" + s
		}
		return Tuple{filepath.Clean(s), nilErr}
	}
	reg("path/filepath.Abs", abs)
	reg("path/filepath.EvalSymlinks", func(fr *Frame, a []Value) Value {
		s := fr.str(a[0])
		p := fr.it.fs.res(s)
		if fr.it.fs.files[p] == nil {
			return Tuple{"", fr.it.pathError("lstat", s, fr.it.errno("ENOENT"))}
		}
		if filepath.IsAbs(s) && !filepath.IsAbs(p) {
			p = "/cwd/" + p
		}
		return Tuple{p, nilErr}
	})

	// ---- math
	m1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(fr *Frame, a []Value) Value {
			x, ok := a[0].(float64)
			if !ok {
				unsupported("math.%s of %T", n, a[0])
			}
			return f(x)
		})
	}
	m1("Sqrt", math.Sqrt)
	m1("Floor", math.Floor)
	m1("Ceil", math.Ceil)
	m1("Log2", math.Log2)
	m1("Log", math.Log)
	m1("Abs", math.Abs)
	m1("Round", math.Round)
	m1("Trunc", math.Trunc)
	m1("Exp2", math.Exp2)
	m2 := func(n string, f func(x, y float64) float64) {
		reg("math."+n, func(fr *Frame, a []Value) Value {
			x, ok := a[0].(float64)
			y, ok2 := a[1].(float64)
			if !ok || !ok2 {
				unsupported("math.%s of %T, %T", n, a[0], a[1])
			}
			return f(x, y)
		})
	}
	m2("Pow", math.Pow)
	m2("Min", math.Min)
	m2("Max", math.Max)
	m2("Mod", math.Mod)
	reg("math.IsNaN", func(fr *Frame, a []Value) Value { return math.IsNaN(a[0].(float64)) })
	reg("math.Float64bits", func(fr *Frame, a []Value) Value { return int64(math.Float64bits(a[0].(float64))) })

	b1 := func(n string, f func(x uint64) int64) {
		reg("math/bits."+n, func(fr *Frame, a []Value) Value { return f(uint64(fr.concInt(a[0]))) })
	}
	b1("LeadingZeros64", func(x uint64) int64 { return int64(bits.LeadingZeros64(x)) })
	b1("LeadingZeros", func(x uint64) int64 { return int64(bits.LeadingZeros64(x)) })
	b1("TrailingZeros64", func(x uint64) int64 { return int64(bits.TrailingZeros64(x)) })
	b1("TrailingZeros", func(x uint64) int64 { return int64(bits.TrailingZeros64(x)) })
	b1("TrailingZeros32", func(x uint64) int64 { return int64(bits.TrailingZeros32(uint32(x))) })
	b1("Len64", func(x uint64) int64 { return int64(bits.Len64(x)) })
	b1("Len", func(x uint64) int64 { return int64(bits.Len64(x)) })
	b1("Len32", func(x uint64) int64 { return int64(bits.Len32(uint32(x))) })
	b1("OnesCount64", func(x uint64) int64 { return int64(bits.OnesCount64(x)) })
	b1("OnesCount", func(x uint64) int64 { return int64(bits.OnesCount64(x)) })
	b1("Reverse64", func(x uint64) int64 { return int64(bits.Reverse64(x)) })
	b1("Reverse", func(x uint64) int64 { return int64(bits.Reverse64(x)) })
	b1("Reverse32", func(x uint64) int64 { return int64(bits.Reverse32(uint32(x))) })

	// ---- runtime, time, log, errors
	ncpu := func(fr *Frame, a []Value) Value { return fr.it.numCPU }
	reg("runtime.NumCPU", ncpu)
	reg("runtime.GOMAXPROCS", ncpu)
	nop := func(fr *Frame, a []Value) Value { return nil }
	for _, n := range []string{"runtime.GC", "runtime/debug.FreeOSMemory", "runtime.KeepAlive", "log.Println", "log.Printf", "log.Print", "log.SetFlags", "log.SetPrefix", "log.SetOutput", "time.Sleep", "runtime.SetFinalizer"} {
		reg(n, nop)
	}
	reg("runtime/debug.SetGCPercent", func(fr *Frame, a []Value) Value { return int64(100) })
	reg("runtime.ReadMemStats", nop)
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln"} {
		reg(n, func(fr *Frame, a []Value) Value { panic(targetExit{1}) })
	}
	regTime()
	reg("(time.Duration).String", func(fr *Frame, a []Value) Value { return "0s" })
	reg("(time.Duration).Seconds", func(fr *Frame, a []Value) Value { return float64(0) })
	reg("internal/race.Enabled", nop)

	// ---- rand
	rd := func(fr *Frame, a []Value) Value {
		s := a[len(a)-1].(Slice)
		if !fr.it.draw() {
			// ends the process without success
			fr.it.path.assume(tBool(false))
		}
		copy(s, fr.it.randBytes(len(s)))
		return Tuple{int64(len(s)), nilErr}
	}
	reg("crypto/rand.Read", rd)
	// predictable generators: any value
	for _, pk := range []string{"math/rand", "math/rand/v2"} {
		word := func(bits int, bound int) func(fr *Frame, a []Value) Value {
			return func(fr *Frame, a []Value) Value {
				fr.it.nrand++
				t := tVar(64, fmt.Sprintf("%s%d", weakPrefix, fr.it.nrand))
				p := fr.it.path
				if bits < 64 {
					p.addPC(tBV("bvult", t, tConst(64, 1<<bits)))
				}
				if bound >= 0 {
					p.addPC(tBV("bvult", t, toTerm(a[bound], 64)))
				}
				return t
			}
		}
		for _, m := range []struct {
			n     string
			bits  int
			bound bool
		}{{"Int63", 63, false}, {"Int", 63, false}, {"Int64", 63, false}, {"Int31", 31, false}, {"Uint64", 64, false}, {"Uint32", 32, false},
			{"Int63n", 63, true}, {"Intn", 63, true}, {"IntN", 63, true}, {"Int64N", 63, true}, {"Uint64N", 64, true}} {
			b, bm := -1, -1
			if m.bound {
				b, bm = 0, 1
			}
			reg(pk+"."+m.n, word(m.bits, b))
			reg("(*"+pk+".Rand)."+m.n, word(m.bits, bm))
		}
		wr := func(fr *Frame, a []Value) Value {
			s := a[len(a)-1].(Slice)
			b := fr.it.newBlob("weak", len(s))
			copy(s, b.cells())
			return Tuple{int64(len(s)), nilErr}
		}
		reg(pk+".Read", wr)
		reg("(*"+pk+".Rand).Read", wr)
		reg(pk+".Seed", func(fr *Frame, a []Value) Value { return nil })
		reg(pk+".NewSource", func(fr *Frame, a []Value) Value {
			return Iface{t: types.NewPointer(fr.it.ld.pkg(pk).Type("Rand").Type()), v: newCell(nil)}
		})
		reg(pk+".NewPCG", func(fr *Frame, a []Value) Value { return newCell(nil) })
		reg(pk+".New", func(fr *Frame, a []Value) Value { return newCell(nil) })
	}

	// ---- sort
	sortSlice := func(fr *Frame, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		// insertion sort through the comparison function, on a scratch copy
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := fr.it.call(fr, a[1], []Value{int64(j), int64(j - 1)})
				if !fr.concBool(r) {
					break
				}
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
		return nil
	}
	reg("maps.clone", func(fr *Frame, a []Value) Value {
		x := a[0].(Iface)
		m := x.v.(*Map)
		if m == nil {
			return x
		}
		c := &Map{m: map[string]*mapEntry{}}
		for _, k := range m.order {
			if e := m.m[k]; e != nil {
				c.set(k, copyVal(e.k), copyVal(e.v))
			}
		}
		return Iface{t: x.t, v: c}
	})
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)

	// ---- reflect (the little the encoders need)
	reg("reflect.ValueOf", func(fr *Frame, a []Value) Value { return &RV{i: a[0].(Iface)} })
	reg("reflect.Indirect", func(fr *Frame, a []Value) Value {
		r := a[0].(*RV)
		if r.kind() == kindPtr {
			return rvElem(fr, r)
		}
		return r
	})
	R := "(reflect.Value)."
	reg(R+"Kind", func(fr *Frame, a []Value) Value { return a[0].(*RV).kind() })
	reg(R+"IsNil", func(fr *Frame, a []Value) Value {
		r := a[0].(*RV)
		switch v := r.i.v.(type) {
		case *Value:
			return v == nil
		case Slice:
			return v == nil
		case *Map:
			return v == nil
		case *ssa.Function:
			return v == nil
		}
		return r.i.v == nil
	})
	reg(R+"IsValid", func(fr *Frame, a []Value) Value { return a[0].(*RV).i.t != nil })
	reg(R+"CanSet", func(fr *Frame, a []Value) Value { return a[0].(*RV).addr != nil })
	reg(R+"CanAddr", func(fr *Frame, a []Value) Value { return a[0].(*RV).addr != nil })
	reg(R+"Elem", func(fr *Frame, a []Value) Value { return rvElem(fr, a[0].(*RV)) })
	reg(R+"Len", func(fr *Frame, a []Value) Value {
		switch v := a[0].(*RV).i.v.(type) {
		case Slice:
			return int64(len(v))
		case Array:
			return int64(len(v))
		case string:
			return int64(len(v))
		}
		unsupported("reflect.Value.Len")
		return nil
	})
	reg(R+"Interface", func(fr *Frame, a []Value) Value { return a[0].(*RV).i })
	reg(R+"String", func(fr *Frame, a []Value) Value { return "<value>" })
	reg("reflect.TypeOf", func(fr *Frame, a []Value) Value { unsupported("reflect.TypeOf"); return nil })
	reg("reflect.DeepEqual", func(fr *Frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		return boolVal(fr.deepEq(x, y))
	})

	// ---- encoding/binary
	binWrite := func(fr *Frame, a []Value) Value {
		w := a[0].(Iface)
		d := a[2].(Iface)
		cells, ok := fr.binEnc(d.t, d.v, isLittle(a[1].(Iface)))
		if !ok {
			return fr.errf("binary.Write: some values are not fixed-sized in type %s", d.t)
		}
		r := fr.it.call(fr, fr.it.method(w.t, nil, "Write"), []Value{w.v, Slice(cells)}).(Tuple)
		return r[1]
	}
	reg("encoding/binary.Write", binWrite)
	reg("encoding/binary.Size", func(fr *Frame, a []Value) Value {
		d := a[0].(Iface)
		return fr.binSize(d.t, d.v)
	})
	reg("encoding/binary.Read", func(fr *Frame, a []Value) Value {
		d := a[2].(Iface)
		n := fr.binSize(d.t, d.v)
		if n < 0 {
			return fr.errf("binary.Read: invalid type %s", d.t)
		}
		buf := make(Slice, n)
		for i := range buf {
			buf[i] = int64(0)
		}
		rf := fr.it.ld.pkg("io").Func("ReadFull")
		r := fr.it.callSSA(fr, rf, []Value{a[0], buf}, nil).(Tuple)
		if isErr(r[1]) {
			return r[1]
		}
		fr.binDec(d.t, d.v, buf, isLittle(a[1].(Iface)))
		return nilErr
	})
}

const (
	kindPtr = int64(22)
)

func (r *RV) kind() int64 {
	if r.i.t == nil {
		return 0
	}
	switch t := r.i.t.Underlying().(type) {
	case *types.Pointer:
		return kindPtr
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	case *types.Array:
		return 17
	case *types.Map:
		return 21
	case *types.Interface:
		return 20
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Basic:
		m := map[types.BasicKind]int64{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
			types.Float32: 13, types.Float64: 14, types.String: 24}
		return m[t.Kind()]
	}
	unsupported("reflect kind of %s", r.i.t)
	return 0
}

func rvElem(fr *Frame, r *RV) Value {
	if p, ok := r.i.t.Underlying().(*types.Pointer); ok {
		c, ok := r.i.v.(*Value)
		if !ok {
			unsupported("reflect Elem of %T", r.i.v)
		}
		if c == nil {
			return &RV{}
		}
		return &RV{i: Iface{t: p.Elem(), v: *c}, addr: c}
	}
	unsupported("reflect.Value.Elem of %s", r.i.t)
	return nil
}

func (fr *Frame) deepEq(x, y Iface) *Term {
	if x.t == nil || y.t == nil {
		return tBool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return tFalse
	}
	xp, ok1 := x.v.(*Value)
	yp, ok2 := y.v.(*Value)
	if ok1 && ok2 {
		if xp == yp {
			return tTrue
		}
		if xp == nil || yp == nil {
			return tFalse
		}
		el := x.t.Underlying().(*types.Pointer).Elem()
		return fr.it.eqVals(el, *xp, *yp)
	}
	return fr.it.eqVals(x.t, x.v, y.v)
}

func isLittle(o Iface) bool {
	return o.t != nil && strings.Contains(o.t.String(), "little")
}

func (fr *Frame) binSize(t types.Type, v Value) int64 {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, _ := v.(*Value)
		if c == nil {
			return -1
		}
		return fr.binSize(u.Elem(), *c)
	case *types.Slice:
		n := int64(0)
		for _, x := range v.(Slice) {
			k := fr.binSize(u.Elem(), x)
			if k < 0 {
				return -1
			}
			n += k
		}
		if len(v.(Slice)) == 0 {
			return 0
		}
		return n
	case *types.Array:
		n := int64(0)
		for _, x := range v.(Array) {
			k := fr.binSize(u.Elem(), x)
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			return -1
		}
		n := int64(0)
		for i := range s {
			k := fr.binSize(u.Field(i).Type(), s[i])
			if k < 0 {
				return -1
			}
			n += k
		}
		return n
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return 1
		}
		if u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return -1
		}
		if w, _, ok := intInfo(u); ok {
			return int64(w / 8)
		}
	}
	return -1
}

func (fr *Frame) binEnc(t types.Type, v Value, little bool) ([]Value, bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c, _ := v.(*Value)
		if c == nil {
			return nil, false
		}
		return fr.binEnc(u.Elem(), *c, little)
	case *types.Slice:
		var out []Value
		for _, x := range v.(Slice) {
			c, ok := fr.binEnc(u.Elem(), x, little)
			if !ok {
				return nil, false
			}
			out = append(out, c...)
		}
		return out, true
	case *types.Array:
		var out []Value
		for _, x := range v.(Array) {
			c, ok := fr.binEnc(u.Elem(), x, little)
			if !ok {
				return nil, false
			}
			out = append(out, c...)
		}
		return out, true
	case *types.Struct:
		s, ok := v.(Struct)
		if !ok {
			return nil, false
		}
		var out []Value
		for i := range s {
			c, ok := fr.binEnc(u.Field(i).Type(), s[i], little)
			if !ok {
				return nil, false
			}
			out = append(out, c...)
		}
		return out, true
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			b := toBoolTerm(v)
			return []Value{intVal(tIte(b, tConst(8, 1), tConst(8, 0)), 8, false)}, true
		}
		if u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
			return nil, false
		}
		w, _, ok := intInfo(u)
		if !ok {
			return nil, false
		}
		if w == 8 {
			return []Value{v}, true
		}
		n := w / 8
		out := make([]Value, n)
		t := toTerm(v, w)
		for i := 0; i < n; i++ {
			sh := uint64(8 * i)
			c := tTrunc(tBV("bvlshr", t, tConst(w, sh)), 8)
			j := n - 1 - i
			if little {
				j = i
			}
			out[j] = intVal(c, 8, false)
		}
		return out, true
	}
	return nil, false
}

func (fr *Frame) binDec(t types.Type, v Value, buf Slice, little bool) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c := v.(*Value)
		switch el := u.Elem().Underlying().(type) {
		case *types.Basic:
			*c = fr.binDecBasic(el, buf, little)
			return
		case *types.Array:
			fr.binDecSeq(el.Elem(), (*c).(Array), buf, little)
			return
		case *types.Slice:
			fr.binDecSeq(el.Elem(), (*c).(Slice), buf, little)
			return
		case *types.Struct:
			fr.binDecStruct(el, (*c).(Struct), buf, little)
			return
		}
	case *types.Slice:
		fr.binDecSeq(u.Elem(), v.(Slice), buf, little)
		return
	}
	unsupported("binary.Read into %s", t)
}

func (fr *Frame) binDecStruct(st *types.Struct, s Struct, buf Slice, little bool) {
	off := int64(0)
	for i := range s {
		ft := st.Field(i).Type()
		n := fr.binSize(ft, s[i])
		switch el := ft.Underlying().(type) {
		case *types.Basic:
			s[i] = fr.binDecBasic(el, buf[off:off+n], little)
		case *types.Array:
			fr.binDecSeq(el.Elem(), s[i].(Array), buf[off:off+n], little)
		case *types.Struct:
			fr.binDecStruct(el, s[i].(Struct), buf[off:off+n], little)
		}
		off += n
	}
}

func (fr *Frame) binDecSeq(el types.Type, dst []Value, buf Slice, little bool) {
	b, ok := el.Underlying().(*types.Basic)
	if !ok {
		unsupported("binary.Read into elements of %s", el)
	}
	off := int64(0)
	for i := range dst {
		n := fr.binSize(el, dst[i])
		dst[i] = fr.binDecBasic(b, buf[off:off+n], little)
		off += n
	}
}

func (fr *Frame) binDecBasic(b *types.Basic, buf Slice, little bool) Value {
	if b.Info()&types.IsBoolean != 0 {
		switch c := buf[0].(type) {
		case int64:
			return c != 0
		case *Term:
			return boolVal(tNot(tEq(c, tConst(8, 0))))
		}
		unsupported("opaque byte as bool")
	}
	w, s, _ := intInfo(b)
	if w == 8 {
		return buf[0]
	}
	t := tConst(w, 0)
	n := w / 8
	for i := 0; i < n; i++ {
		j := i
		if little {
			j = n - 1 - i
		}
		var c *Term
		switch x := buf[j].(type) {
		case int64:
			c = tConst(w, uint64(x))
		case *Term:
			c = tExtend(x, w, false)
		default:
			unsupported("opaque bytes read as an integer in %s", fr.where())
		}
		t = tBV("bvor", tBV("bvshl", t, tConst(w, 8)), c)
	}
	return intVal(t, w, s)
}

func hexCells(s []Value) []Value { return hexCase(s, false) }

func hexCase(s []Value, up bool) []Value {
	var out []Value
	d := "0123456789abcdef"
	if up {
		d = "0123456789ABCDEF"
	}
	for _, c := range s {
		if n, ok := c.(int64); ok {
			out = append(out, int64(d[n>>4]), int64(d[n&15]))
		} else {
			out = append(out, HexTok{c, up}, HexTok{c, up})
		}
	}
	return out
}

// strCase is strings.ToUpper and strings.ToLower.
func (fr *Frame) strCase(v Value, up bool) Value {
	f := strings.ToLower
	if up {
		f = strings.ToUpper
	}
	y, ok := v.(*SymStr)
	if !ok {
		return f(fr.str(v))
	}
	out := make([]Value, len(y.cells))
	for i, c := range y.cells {
		switch c := c.(type) {
		case int64:
			if c >= 0x80 {
				unsupported("change of case of symbolic text")
			}
			out[i] = int64(f(string([]byte{byte(c)}))[0])
		case HexTok:
			out[i] = HexTok{c.c, up}
		case DecTok:
			out[i] = c
		default:
			unsupported("change of case of symbolic text")
		}
	}
	return cellsToStr(out)
}
