package h

import (
	"bufio"
	"bytes"
	"cmp"
	"context"
	"crypto/rand"
	"crypto/sha256"
	"crypto/subtle"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"hash"
	"io"
	"io/fs"
	"log"
	"maps"
	"math"
	"math/big"
	"math/bits"
	"os"
	"path"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"verif/harness/sym"
)

// The Idiom harnesses test the executor itself: features of the language and of
// the libraries that the code under test may come to use. They belong to no
// property.

func is(ok bool, what string) { sym.Assert(ok, what) }

func IdiomAtomic() {
	var v atomic.Value
	is(v.Load() == nil, "empty Value")
	v.Store(errors.New("x"))
	e, ok := v.Load().(error)
	is(ok && e.Error() == "x", "Value")
	var n atomic.Int64
	n.Store(3)
	n.Add(4)
	is(n.Load() == 7 && n.CompareAndSwap(7, 9) && n.Swap(1) == 9, "Int64")
	var b atomic.Bool
	b.Store(true)
	is(b.Load(), "Bool")
	var p atomic.Pointer[int]
	is(p.Load() == nil, "nil Pointer")
	k := 5
	p.Store(&k)
	is(*p.Load() == 5 && p.CompareAndSwap(&k, nil) && p.Load() == nil, "Pointer")
	var u uint32
	atomic.AddUint32(&u, 2)
	is(atomic.LoadUint32(&u) == 2, "AddUint32")
	var m sync.Map
	m.Store("a", 1)
	x, ok := m.Load("a")
	is(ok && x.(int) == 1, "Map")
	_, loaded := m.LoadOrStore("b", 2)
	is(!loaded, "LoadOrStore")
	sum := 0
	m.Range(func(k, v any) bool { sum += v.(int); return true })
	is(sum == 3, "Range")
	m.Delete("a")
	_, ok = m.Load("a")
	is(!ok, "Delete")
	sym.Reach("done")
}

func IdiomSync() {
	var mu sync.RWMutex
	var wg sync.WaitGroup
	c := sync.NewCond(&sync.Mutex{})
	ready := false
	total := 0
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c.L.Lock()
			for !ready {
				c.Wait()
			}
			c.L.Unlock()
			mu.Lock()
			defer mu.Unlock()
			total += i
		}(i)
	}
	c.L.Lock()
	ready = true
	c.Broadcast()
	c.L.Unlock()
	wg.Wait()
	mu.RLock()
	is(total == 6, "total")
	mu.RUnlock()
	ctx, cancel := context.WithCancel(context.Background())
	errs := make(chan error, 3)
	sem := make(chan struct{}, 2)
	for i := 0; i < 3; i++ {
		sem <- struct{}{}
		go func(i int) {
			defer func() { <-sem }()
			if i == 1 {
				errs <- fmt.Errorf("task %d", i)
				return
			}
			errs <- nil
		}(i)
	}
	var first error
	for i := 0; i < 3; i++ {
		if err := <-errs; err != nil && first == nil {
			first = err
			cancel()
		}
	}
	select {
	case <-ctx.Done():
	default:
		is(false, "cancelled")
	}
	is(ctx.Err() == context.Canceled, "context.Canceled")
	is(first != nil && first.Error() == "task 1", "first error")
	cancel()
	jobs := make(chan int)
	res := make(chan int, 10)
	for w := 0; w < runtime.NumCPU() && w < 3; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				res <- j * j
			}
		}()
	}
	for i := 0; i < 10; i++ {
		jobs <- i
	}
	close(jobs)
	wg.Wait()
	close(res)
	s := 0
	for r := range res {
		s += r
	}
	is(s == 285, "jobs")
	var once sync.Once
	for i := 0; i < 2; i++ {
		once.Do(func() { s++ })
	}
	is(s == 286, "once")
	pool := sync.Pool{New: func() any { return new(bytes.Buffer) }}
	bb := pool.Get().(*bytes.Buffer)
	bb.WriteString("x")
	pool.Put(bb)
	tm := time.Now()
	_ = time.Since(tm).String()
	_ = tm.Format(time.RFC3339)
	time.Sleep(time.Microsecond)
	runtime.GC()
	debug.FreeOSMemory()
	_ = runtime.NumGoroutine()
	sym.Reach("done")
}

func IdiomTime() {
	old := time.Now().Add(-time.Hour)
	is(old.Before(time.Now()) && time.Now().After(old) && !old.IsZero() && time.Time{}.IsZero() && time.Time{}.Before(old), "order")
	is(time.Now().Sub(old) >= time.Hour && time.Since(old) >= time.Hour && old.Add(time.Hour).Sub(old) == time.Hour, "Sub")
	is(time.Unix(5, 7).Unix() == 5 && time.Unix(5, 7).UnixNano() == 5000000007 && time.Unix(5, 0).Equal(time.Unix(4, 1000000000)), "Unix")
	mt := func(p string) time.Time {
		st, err := os.Stat(p)
		must(err)
		return st.ModTime()
	}
	writeFile("x", []byte("x"))
	must(os.Chtimes("x", old, old))
	is(mt("x").Sub(old) < time.Second && old.Sub(mt("x")) < time.Second, "Chtimes")
	writeFile("y", []byte("y"))
	is(mt("y").After(mt("x")), "ModTime")
	writeFile("x", []byte("z"))
	is(!mt("x").Before(mt("y")), "rewritten")
	sym.Reach("done")
}

func IdiomBytes() {
	x := sym.Fr("x")
	p := G1(x)
	raw := p.Bytes()
	var b bytes.Buffer
	b.Write(raw[:])
	b.WriteByte(7)
	b.WriteString("abc")
	is(b.Len() == 36, "Len")
	got := make([]byte, 32)
	n, err := b.Read(got)
	is(n == 32 && err == nil && bytes.Equal(got, raw[:]), "Read")
	c, _ := b.ReadByte()
	is(c == 7, "ReadByte")
	is(string(b.Next(2)) == "ab", "Next")
	b.Reset()
	io.Copy(&b, bytes.NewReader(raw[:]))
	is(bytes.Equal(b.Bytes(), raw[:]), "Copy")
	n64, err := io.CopyN(io.Discard, &b, 30)
	is(n64 == 30 && err == nil, "CopyN")
	_, err = io.CopyN(io.Discard, &b, 30)
	is(err == io.EOF, "CopyN at the end")
	all, err := io.ReadAll(io.LimitReader(bytes.NewReader(raw[:]), 10))
	is(err == nil && bytes.Equal(all, raw[:10]), "LimitReader")
	var t bytes.Buffer
	r := io.TeeReader(bytes.NewReader(raw[:]), &t)
	_, err = io.ReadFull(r, got)
	is(err == nil && bytes.Equal(t.Bytes(), raw[:]), "TeeReader")
	var t2 bytes.Buffer
	w := io.MultiWriter(&t, &t2)
	w.Write(raw[:])
	is(t.Len() == 64 && t2.Len() == 32, "MultiWriter")
	mr := io.MultiReader(&t, &t2)
	all, err = io.ReadAll(mr)
	is(err == nil && len(all) == 96, "MultiReader")
	sr := io.NewSectionReader(bytes.NewReader(all), 32, 32)
	all, err = io.ReadAll(sr)
	is(err == nil && bytes.Equal(all, raw[:]), "SectionReader")
	is(sr.Size() == 32, "Size")
	pr, pw := io.Pipe()
	go func() {
		pw.Write(raw[:])
		pw.CloseWithError(nil)
	}()
	all, err = io.ReadAll(pr)
	is(err == nil && bytes.Equal(all, raw[:]), "Pipe")
	_, err = io.ReadAtLeast(bytes.NewReader(raw[:3]), got, 4)
	is(err == io.ErrUnexpectedEOF, "ReadAtLeast")
	io.WriteString(&t, "q")
	is(bytes.Compare([]byte{1, 2}, []byte{1, 3}) < 0, "Compare")
	is(bytes.HasPrefix(raw[:], raw[:4]), "HasPrefix")
	is(len(bytes.Repeat([]byte{1}, 5)) == 5, "Repeat")
	cl := append([]byte(nil), raw[:]...)
	is(subtle.ConstantTimeCompare(cl, raw[:]) == 1, "ConstantTimeCompare")
	arr := [32]byte{}
	copy(arr[:], raw[:])
	is(arr == raw, "array equality")
	is(string(arr[:]) == string(raw[:]), "string equality")
	is(*(*[32]byte)(cl) == raw, "slice to array pointer")
	sym.Reach("done")
}

func IdiomBufio() {
	x := sym.Fr("x")
	p := G2(x)
	f, err := os.Create("f")
	must(err)
	rw := bufio.NewReadWriter(bufio.NewReader(f), bufio.NewWriter(f))
	enc := bn254.NewEncoder(rw)
	is(enc.Encode(&p) == nil, "Encode")
	fmt.Fprintf(rw, "%d\n", 12)
	is(rw.Writer.Buffered() == 67, "Buffered")
	rw.WriteByte('z')
	rw.WriteString("yy\nlast")
	is(rw.Flush() == nil, "Flush")
	f.Seek(0, io.SeekStart)
	pk, err := rw.Peek(3)
	is(err == nil && len(pk) == 3, "Peek")
	dec := bn254.NewDecoder(rw)
	var q bn254.G2Affine
	is(dec.Decode(&q) == nil && q.Equal(&p), "Decode")
	s, err := rw.ReadString('\n')
	is(err == nil && s == "12\n", "ReadString")
	n, err := rw.Discard(1)
	is(n == 1 && err == nil, "Discard")
	sc := bufio.NewScanner(rw)
	is(sc.Scan() && sc.Text() == "yy" && sc.Scan() && sc.Text() == "last" && !sc.Scan() && sc.Err() == nil, "Scanner")
	br := bufio.NewReaderSize(f, 100)
	br.Reset(f)
	_, err = br.ReadByte()
	is(err == io.EOF, "ReadByte at the end")
	is(br.Size() == 100, "Size")
	is(f.Close() == nil && f.Close() != nil, "Close")
	g, err := os.OpenFile("f", os.O_RDWR|os.O_APPEND, 0600)
	must(err)
	g.WriteString("tail")
	bw := bufio.NewWriter(g)
	k, err := bw.ReadFrom(strings.NewReader("more"))
	is(k == 4 && err == nil && bw.Flush() == nil, "ReadFrom")
	b4 := make([]byte, 8)
	st, err := g.Stat()
	is(err == nil && st.Size() == 64+3+7+1+8 && !st.IsDir() && st.Mode().IsRegular() && st.Name() == "f", "Stat")
	_, err = g.ReadAt(b4, st.Size()-8)
	is(err == nil && string(b4) == "tailmore", "ReadAt")
	is(g.Sync() == nil, "Sync")
	is(g.Name() == "f", "Name")
	is(g.Truncate(64) == nil, "Truncate")
	must(g.Close())
	b, err := os.ReadFile("f")
	is(err == nil && len(b) == 64, "ReadFile")
	h, err := os.OpenFile("f", os.O_RDWR, 0)
	must(err)
	_, err = h.WriteAt([]byte("x"), 70)
	is(err == nil, "WriteAt")
	e, err := h.Seek(0, io.SeekEnd)
	is(err == nil && e == 71, "SeekEnd")
	h.Close()
	d, err := os.Open("f")
	must(err)
	o, err := os.Create("o")
	must(err)
	cn, err := io.Copy(o, d)
	is(cn == 71 && err == nil, "Copy of files")
	o.Close()
	d.Close()
	sym.Reach("done")
}

type idiomErr struct{ n int }

func (e *idiomErr) Error() string { return "idiom " + strconv.Itoa(e.n) }

func IdiomErrors() {
	_, err := os.Open("none")
	is(os.IsNotExist(err), "IsNotExist")
	is(errors.Is(err, fs.ErrNotExist) && errors.Is(err, os.ErrNotExist), "ErrNotExist")
	var pe *os.PathError
	is(errors.As(err, &pe) && pe.Path == "none" && pe.Op == "open", "PathError")
	w := fmt.Errorf("wrapped: %w", err)
	is(errors.Is(w, fs.ErrNotExist) && errors.Unwrap(w) == err, "wrap")
	is(errors.As(fmt.Errorf("a: %w", &idiomErr{3}), new(*idiomErr)), "As")
	j := errors.Join(nil, err, &idiomErr{1})
	is(j != nil && errors.Is(j, fs.ErrNotExist), "Join")
	is(errors.Join(nil, nil) == nil, "Join nil")
	f := func() (err error) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("recovered: %v", r)
			}
		}()
		panic("boom")
	}
	is(f().Error() == "recovered: boom", "recover")
	g := func() (n int, err error) {
		o, err := os.Create("x")
		if err != nil {
			return
		}
		defer func() {
			if cerr := o.Close(); err == nil {
				err = cerr
			}
		}()
		return fmt.Fprintf(o, "abc")
	}
	n, err := g()
	is(n == 3 && err == nil, "deferred close")
	_, err = os.OpenFile("x", os.O_CREATE|os.O_EXCL|os.O_WRONLY, 0644)
	is(os.IsExist(err) && errors.Is(err, fs.ErrExist), "O_EXCL")
	is(os.Rename("x", "y") == nil, "Rename")
	is(os.Remove("y") == nil && os.Remove("y") != nil, "Remove")
	t, err := os.CreateTemp(".", "tmp*")
	is(err == nil, "CreateTemp")
	t.Close()
	is(os.Remove(t.Name()) == nil, "Remove temp")
	is(os.MkdirAll("d/e", 0755) == nil, "MkdirAll")
	is(os.WriteFile(filepath.Join("d", "e", "f"), []byte("1"), 0600) == nil, "WriteFile")
	is(os.RemoveAll("d") == nil, "RemoveAll")
	is(filepath.Base("a/b.c") == "b.c" && filepath.Ext("a/b.c") == ".c" && filepath.Dir("a/b.c") == "a" && path.Join("a", "..", "b") == "b" && filepath.Clean("./a//b") == "a/b", "paths")
	_, err = strconv.Atoi("x1")
	var ne *strconv.NumError
	is(errors.As(err, &ne) && ne.Err == strconv.ErrSyntax, "NumError")
	_, err = strconv.ParseUint("300", 10, 8)
	is(errors.Is(err, strconv.ErrRange), "ErrRange")
	sym.Reach("done")
}

type idiomStr int

func (s idiomStr) String() string { return "S" + strconv.Itoa(int(s)) }

func IdiomFmt() {
	is(fmt.Sprintf("%x %X %02x %d %5d|%-5d|%05d %v %s %q %t %c %U", []byte{1, 0xab}, []byte{0xcd}, 5, 42, 42, 42, 42, []int{1, 2}, "s", "q", true, 'c', 'c') == `01ab CD 05 42    42|42   |00042 [1 2] s "q" true c U+0063`, "Sprintf")
	is(fmt.Sprintf("%v %s %d", idiomStr(2), idiomStr(3), idiomStr(4)) == "S2 S3 4", "Stringer")
	is(fmt.Sprintf("%v|%+v|%T", struct{ A, B int }{1, 2}, struct{ A int }{1}, 1) == "{1 2}|{A:1}|int", "struct")
	is(fmt.Sprintf("%6.2f %g %e", 3.14159, 0.5, 1e6) == "  3.14 0.5 1.000000e+06", "floats")
	is(fmt.Sprint("a", 1, 2, "b") == "a1 2b", "Sprint")
	is(fmt.Sprintln("a", 1) == "a 1\n", "Sprintln")
	is(fmt.Sprintf("%[2]d %[1]d %*d%%", 1, 2, 3, 4) != "", "indexes")
	is(fmt.Sprintf("%s", errors.New("e")) == "e" && fmt.Sprintf("%v", error(nil)) == "<nil>", "errors")
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s-%d", "a", 1)
	sb.WriteByte('!')
	sb.WriteRune('é')
	is(sb.String() == "a-1!é" && sb.Len() == 6, "Builder")
	is(strings.Join([]string{"a", "b"}, ".") == "a.b" && strings.ToLower("AB") == "ab" && strings.ToUpper("ab") == "AB", "strings")
	is(strings.TrimSpace(" a ") == "a" && strings.TrimSuffix("a.b", ".b") == "a" && strings.TrimPrefix("a.b", "a") == ".b", "Trim")
	is(strings.Contains("abc", "bc") && strings.HasSuffix("abc", "c") && strings.Index("abc", "c") == 2 && strings.LastIndex("aba", "a") == 2, "Contains")
	a, b, ok := strings.Cut("k=v", "=")
	is(a == "k" && b == "v" && ok, "Cut")
	is(len(strings.Split("a,b,c", ",")) == 3 && len(strings.Fields(" a b ")) == 2 && strings.Repeat("ab", 2) == "abab" && strings.ReplaceAll("aa", "a", "b") == "bb", "Split")
	is(hex.EncodeToString([]byte{1, 255}) == "01ff", "hex")
	hx := make([]byte, 4)
	hex.Encode(hx, []byte{1, 255})
	is(string(hx) == "01ff", "hex.Encode")
	is(base64.StdEncoding.EncodeToString([]byte("ab")) == "YWI=", "base64")
	v, err := strconv.ParseUint("12", 10, 8)
	is(v == 12 && err == nil, "ParseUint")
	is(strconv.Quote("a") == `"a"` && strconv.FormatInt(-5, 2) == "-101" && strconv.Itoa(7) == "7", "strconv")
	log.SetFlags(0)
	log.SetPrefix("x ")
	log.SetOutput(io.Discard)
	log.Printf("a %d", 1)
	log.Println("b")
	h := sha256.Sum256([]byte{1})
	is(len(fmt.Sprintf("%x", h)) == 64 && fmt.Sprintf("%x", h) == hex.EncodeToString(h[:]), "hash")
	is(fmt.Sprintf("%X", h[:2]) == strings.ToUpper(hex.EncodeToString(h[:2])), "upper")
	is(fmt.Sprintf("%08b|%o|%#x|%+d", 5, 8, 255, 3) == "00000101|10|0xff|+3", "verbs")
	sym.Reach("done")
}

func IdiomBinary() {
	n := uint16(sym.Int("n", 0, 65535))
	b := make([]byte, 8)
	binary.BigEndian.PutUint16(b, n)
	is(binary.BigEndian.Uint16(b) == n, "PutUint16")
	is(uint16(b[0])<<8|uint16(b[1]) == n, "shift")
	b = binary.BigEndian.AppendUint32(nil, uint32(n))
	is(len(b) == 4 && binary.BigEndian.Uint32(b) == uint32(n), "AppendUint32")
	binary.LittleEndian.PutUint64(make([]byte, 8), uint64(n))
	var w bytes.Buffer
	is(binary.Write(&w, binary.BigEndian, n) == nil && w.Len() == 2, "Write")
	var m uint16
	is(binary.Read(&w, binary.BigEndian, &m) == nil && m == n, "Read")
	type hdr struct {
		P byte
		C uint16
	}
	is(binary.Write(&w, binary.BigEndian, hdr{3, n}) == nil && w.Len() == 3, "Write struct")
	var h hdr
	is(binary.Read(&w, binary.BigEndian, &h) == nil && h.P == 3 && h.C == n, "Read struct")
	is(errors.Is(binary.Read(&w, binary.BigEndian, &h), io.EOF), "Read at the end")
	w.Write([]byte{1})
	is(errors.Is(binary.Read(&w, binary.BigEndian, &h), io.ErrUnexpectedEOF), "Read short")
	is(binary.Size(hdr{}) == 3, "Size")
	u := binary.PutUvarint(make([]byte, 10), 300)
	is(u == 2, "PutUvarint")
	is(binary.Write(&w, binary.LittleEndian, []uint64{1, 2}) == nil && w.Len() == 16, "Write slice")
	sym.Reach("done")
}

func IdiomMath() {
	is(int(math.Pow(2, 5)) == 32 && int(math.Min(3, 4)) == 3 && math.Max(3, 4) == 4 && math.Ceil(1.2) == 2 && math.Floor(1.8) == 1 && math.Log2(8) == 3 && math.Exp2(3) == 8 && math.Sqrt(9) == 3 && math.Abs(-1) == 1, "math")
	is(bits.Len(8) == 4 && bits.TrailingZeros(8) == 3 && bits.OnesCount(7) == 3 && bits.LeadingZeros64(1) == 63 && bits.Reverse64(1) == 1<<63 && bits.Len64(5) == 3, "bits")
	n := sym.Int("n", 1, 9)
	is(1<<uint(bits.Len(uint(n-1))) >= n, "Len symbolic")
	is((n&(n-1) == 0) == (bits.OnesCount(uint(n)) == 1), "OnesCount symbolic")
	a := big.NewInt(7)
	b, ok := new(big.Int).SetString("100000000000000000000", 10)
	is(ok && b.Cmp(a) > 0 && b.Sign() == 1, "SetString")
	c := new(big.Int).Add(a, b)
	c.Sub(c, b)
	is(c.Cmp(a) == 0 && c.Int64() == 7 && c.IsInt64() && c.Uint64() == 7, "Add, Sub")
	c.Mul(a, a).Mod(c, big.NewInt(10))
	is(c.String() == "9", "Mul, Mod")
	c.Exp(a, big.NewInt(3), big.NewInt(100))
	is(c.Text(10) == "43", "Exp")
	c.ModInverse(a, big.NewInt(10))
	is(c.Int64() == 3, "ModInverse")
	is(new(big.Int).SetBytes([]byte{1, 0}).Int64() == 256 && len(big.NewInt(256).Bytes()) == 2, "Bytes")
	is(new(big.Int).Lsh(a, 2).Int64() == 28 && new(big.Int).Rsh(a, 1).Int64() == 3 && new(big.Int).Neg(a).Sign() == -1 && a.BitLen() == 3 && a.Bit(1) == 1, "bits")
	var q, r big.Int
	q.DivMod(b, a, &r)
	is(new(big.Int).Add(new(big.Int).Mul(&q, a), &r).Cmp(b) == 0, "DivMod")
	buf := make([]byte, 4)
	is(bytes.Equal(a.FillBytes(buf), []byte{0, 0, 0, 7}), "FillBytes")
	is(new(big.Int).Set(a).Cmp(a) == 0 && new(big.Int).SetUint64(9).Int64() == 9 && new(big.Int).SetInt64(-1).Sign() < 0, "Set")
	sym.Reach("done")
}

func IdiomFr() {
	x, y := sym.NzFr("x"), sym.NzFr("y")
	var z, w fr.Element
	z.Inverse(&x)
	z.Mul(&z, &x)
	is(z.IsOne(), "Inverse")
	z.Div(&y, &x)
	z.Mul(&z, &x)
	is(z.Equal(&y), "Div")
	z.Square(&x)
	w.Mul(&x, &x)
	is(z.Equal(&w), "Square")
	z.Double(&x)
	w.Add(&x, &x)
	is(z.Equal(&w), "Double")
	z.Halve()
	is(z.Equal(&x), "Halve")
	z.Neg(&x).Add(&z, &x)
	is(z.IsZero(), "Neg")
	z.Sub(&x, &y).Add(&z, &y)
	is(z == x, "Sub")
	z.Exp(x, big.NewInt(5))
	w.Square(&x)
	w.Square(&w)
	w.Mul(&w, &x)
	is(z.Equal(&w), "Exp")
	in := fr.BatchInvert([]fr.Element{x, y})
	is(len(in) == 2, "BatchInvert")
	z.Mul(&in[0], &x)
	is(z.IsOne(), "BatchInvert")
	z.SetUint64(5)
	w.SetInt64(-5)
	z.Add(&z, &w)
	is(z.IsZero(), "SetInt64")
	o := fr.One()
	w = fr.NewElement(1)
	is(o.Equal(&w), "One")
	z.SetZero()
	is(z.IsZero() && !o.IsZero(), "SetZero")
	z.SetInterface(3)
	is(z.Uint64() == 3 && z.IsUint64(), "SetInterface")
	var bi big.Int
	x.BigInt(&bi)
	z.SetBigInt(&bi)
	is(z.Equal(&x), "SetBigInt")
	x.ToBigIntRegular(&bi)
	z.SetBigInt(&bi)
	is(z.Equal(&x), "ToBigIntRegular")
	bi.Mod(&bi, fr.Modulus())
	z.SetBigInt(&bi)
	is(z.Equal(&x), "Mod")
	raw := x.Bytes()
	z.SetBytes(raw[:])
	is(z.Equal(&x), "Bytes")
	z.SetBytes(x.Marshal())
	is(z.Equal(&x), "Marshal")
	z.SetString("7")
	is(z.String() == "7", "SetString")
	fr.Butterfly(&x, &y)
	m := map[fr.Element]int{o: 1}
	is(m[fr.One()] == 1, "map")
	is(o.Cmp(&z) < 0, "Cmp")
	var rnd fr.Element
	if _, err := rnd.SetRandom(); err != nil {
		panic(err)
	}
	is(!rnd.Equal(&z), "SetRandom")
	k, err := rand.Int(rand.Reader, fr.Modulus())
	is(err == nil && k.Sign() >= 0, "rand.Int")
	b32 := make([]byte, 48)
	_, err = io.ReadFull(rand.Reader, b32)
	is(err == nil, "ReadFull")
	w.SetBytes(b32)
	is(!w.Equal(&rnd), "SetBytes of random")
	_, err = rand.Read(b32)
	is(err == nil, "Read")
	sym.Reach("done")
}

func IdiomPoints() {
	x, y := sym.NzFr("x"), sym.NzFr("y")
	p, q := G1(x), G1(y)
	var j, k bn254.G1Jac
	j.FromAffine(&p)
	k.FromAffine(&q)
	j.AddAssign(&k)
	var s, t bn254.G1Affine
	s.FromJacobian(&j)
	t.Add(&p, &q)
	is(s.Equal(&t), "AddAssign")
	j.SubAssign(&k)
	j.AddMixed(&q)
	s.FromJacobian(&j)
	is(s.Equal(&t), "AddMixed")
	j.DoubleAssign()
	k.Double(&k)
	k.Neg(&k)
	j.AddAssign(&k)
	s.FromJacobian(&j)
	t.Add(&p, &p)
	is(s.Equal(&t), "Double")
	var bi big.Int
	x.BigInt(&bi)
	g1j, g2j, g1, g2 := bn254.Generators()
	s.ScalarMultiplicationBase(&bi)
	is(s.Equal(&p), "ScalarMultiplicationBase")
	j.ScalarMultiplication(&g1j, &bi)
	s.FromJacobian(&j)
	is(s.Equal(&p), "ScalarMultiplication")
	k.ScalarMultiplicationAffine(&g1, &bi)
	is(j.Equal(&k), "ScalarMultiplicationAffine")
	j.Set(&g1j)
	ps := bn254.BatchScalarMultiplicationG1(&g1, []fr.Element{x, y})
	is(ps[0].Equal(&p) && ps[1].Equal(&q), "BatchScalarMultiplicationG1")
	qs := bn254.BatchScalarMultiplicationG2(&g2, []fr.Element{x, y})
	e := G2(x)
	is(qs[0].Equal(&e), "BatchScalarMultiplicationG2")
	aff := bn254.BatchJacobianToAffineG1([]bn254.G1Jac{j, k})
	is(aff[1].Equal(&p) && aff[0].Equal(&g1), "BatchJacobianToAffineG1")
	var mj bn254.G1Jac
	mj.MultiExp([]bn254.G1Affine{g1, p}, []fr.Element{x, num(2)}, ecc.MultiExpConfig{NbTasks: 2})
	s.FromJacobian(&mj)
	t.Add(&p, &p)
	t.Add(&t, &p)
	is(s.Equal(&t), "MultiExp")
	is(p.IsOnCurve() && p.IsInSubGroup() && !p.IsInfinity(), "checks")
	var z bn254.G1Affine
	is(z.IsInfinity() && z.X.IsZero() && z.Y.IsZero(), "infinity")
	s.Neg(&p)
	s.Add(&s, &p)
	is(s.IsInfinity(), "Neg")
	is(s == z, "infinity by value")
	b := p.Marshal()
	is(s.Unmarshal(b) == nil && s.Equal(&p), "Unmarshal")
	c := p.Bytes()
	n, err := s.SetBytes(c[:])
	is(n == 32 && err == nil && s == p, "SetBytes")
	var j2 bn254.G2Jac
	j2.FromAffine(&e)
	j2.AddAssign(&g2j)
	var s2 bn254.G2Affine
	s2.FromJacobian(&j2)
	s2.Sub(&s2, &g2)
	is(s2.Equal(&e), "G2")
	a1, err1 := bn254.Pair([]bn254.G1Affine{p}, []bn254.G2Affine{g2})
	a2, err2 := bn254.Pair([]bn254.G1Affine{g1}, []bn254.G2Affine{e})
	is(err1 == nil && err2 == nil && a1.Equal(&a2), "Pair")
	m, err := bn254.MillerLoop([]bn254.G1Affine{p}, []bn254.G2Affine{g2})
	is(err == nil, "MillerLoop")
	m = bn254.FinalExponentiation(&m)
	is(m.Equal(&a1), "FinalExponentiation")
	var gt bn254.GT
	gt.Mul(&a1, &a2)
	gt.Inverse(&gt)
	a1.Mul(&a1, &gt)
	a1.Mul(&a1, &a2)
	var one bn254.GT
	one.SetOne()
	is(a1.Equal(&one), "GT")
	buf := make([]bn254.G1Affine, 3)
	copy(buf, ps)
	is(buf[0] == p && buf[2] == z, "copy")
	_ = p.String()
	sym.Reach("done")
}

type idiomPt interface {
	bn254.G1Affine | bn254.G2Affine
}

func idiomDecode[T idiomPt](d *bn254.Decoder, n int) ([]T, error) {
	r := make([]T, 0, n)
	for len(r) < n {
		var x T
		if err := d.Decode(any(&x)); err != nil {
			return nil, err
		}
		r = append(r, x)
	}
	return r, nil
}

func idiomMap[S, T any](s []S, f func(S) T) []T {
	r := make([]T, len(s))
	for i, x := range s {
		r[i] = f(x)
	}
	return r
}

type idiomStack[T comparable] struct{ items []T }

func (s *idiomStack[T]) push(x T) *idiomStack[T] { s.items = append(s.items, x); return s }
func (s idiomStack[T]) has(x T) bool {
	for _, y := range s.items {
		if x == y {
			return true
		}
	}
	return false
}

type idiomReader struct {
	io.Reader
	n int
}

func (r *idiomReader) Read(b []byte) (int, error) {
	n, err := r.Reader.Read(b)
	r.n += n
	return n, err
}

type idiomBase struct{ a int }

func (b *idiomBase) inc()    { b.a++ }
func (b idiomBase) get() int { return b.a }

type idiomEmb struct {
	*idiomBase
	idiomStr
}

func IdiomLang() {
	p, q := G1(sym.Fr("x")), G2(sym.Fr("y"))
	w := &buf{}
	w.g1(p)
	w.g1(p)
	w.g2(q)
	rd := &idiomReader{Reader: bytes.NewReader(w.b)}
	d := bn254.NewDecoder(rd)
	a, err := idiomDecode[bn254.G1Affine](d, 2)
	is(err == nil && len(a) == 2 && a[1] == p, "generic G1")
	b, err := idiomDecode[bn254.G2Affine](d, 1)
	is(err == nil && b[0] == q && rd.n == 128, "generic G2")
	_, err = idiomDecode[bn254.G2Affine](d, 1)
	is(err != nil, "generic error")
	var s idiomStack[string]
	s.push("a").push("b")
	is(s.has("b") && !s.has("c"), "generic type")
	is(len(idiomMap([]int{1, 2}, func(i int) string { return strconv.Itoa(i) })) == 2, "generic function")
	e := idiomEmb{&idiomBase{1}, 4}
	e.inc()
	f := e.get
	g := (*idiomBase).inc
	g(e.idiomBase)
	is(e.get() == 3 && f() == 2 && e.String() == "S4", "embedding")
	n := 0
outer:
	for i := 0; ; i++ {
		switch {
		case i == 2:
			continue outer
		case i > 4:
			break outer
		case i == 1:
			fallthrough
		default:
			n += i
		}
	}
	is(n == 8, "labels")
	arr := [...]int{2: 5, 0: 1}
	brr := arr
	brr[0] = 9
	is(arr[0] == 1 && arr != brr && len(arr) == 3, "arrays")
	for i := range &arr {
		arr[i]++
	}
	is(arr == [3]int{2, 1, 6}, "range over array pointer")
	sl := arr[0:1:2]
	sl = append(sl, 7)
	is(arr[1] == 7 && cap(sl) == 2, "full slice")
	sl = append(sl, 8)
	is(arr[2] == 6, "append grows")
	m := map[string][]int{}
	m["x"] = append(m["x"], 1, 2)
	delete(m, "y")
	v, ok := m["z"]
	is(len(m) == 1 && v == nil && !ok, "map")
	type key struct {
		a int
		b string
	}
	mk := map[key]bool{{1, "a"}: true}
	is(mk[key{1, "a"}] && !mk[key{2, "a"}], "struct key")
	ks := make([]string, 0)
	for k := range map[string]int{"b": 1, "a": 2, "c": 3} {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	is(strings.Join(ks, "") == "abc", "map range")
	is(sort.SearchInts([]int{1, 3, 5}, 3) == 1, "Search")
	xs := []int{3, 1, 2}
	sort.Slice(xs, func(i, j int) bool { return xs[i] < xs[j] })
	sort.Sort(sort.Reverse(sort.IntSlice(xs)))
	is(xs[0] == 3 && xs[2] == 1, "Sort")
	var i any = p
	switch t := i.(type) {
	case *bn254.G1Affine:
		is(false, "type switch")
	case bn254.G1Affine, bn254.G2Affine:
		_ = t
	}
	_, isW := i.(io.Writer)
	is(!isW, "assertion")
	fs := []func() int{}
	for i := 0; i < 3; i++ {
		i := i
		fs = append(fs, func() int { return i })
	}
	is(fs[0]()+fs[2]() == 2, "closures")
	rs := 0
	for _, r := range "aé" {
		rs += int(r)
	}
	is(rs == 'a'+'é' && len([]rune("aé")) == 2, "runes")
	var sum func(n int) int
	sum = func(n int) int {
		if n == 0 {
			return 0
		}
		return n + sum(n-1)
	}
	is(sum(4) == 10, "recursion")
	var np *idiomBase
	func() {
		defer func() { is(recover() != nil, "nil dereference") }()
		np.a = 1
	}()
	func() {
		defer func() {
			r, ok := recover().(runtime.Error)
			is(ok && strings.Contains(r.Error(), "index out of range"), "index")
		}()
		_ = xs[n]
	}()
	order := ""
	func() {
		for i := 0; i < 3; i++ {
			defer func(i int) { order += strconv.Itoa(i) }(i)
		}
	}()
	is(order == "210", "defers")
	c := make(chan int)
	done := make(chan struct{})
	go func() {
		defer close(done)
		for {
			select {
			case x, ok := <-c:
				if !ok {
					return
				}
				n += x
			case <-time.After(time.Hour):
				return
			}
		}
	}()
	c <- 1
	c <- 2
	close(c)
	<-done
	is(n == 11, "select")
	var h hash.Hash = sha256.New()
	h.Write(w.b)
	h.Reset()
	h.Write(w.b[:5])
	io.Copy(h, bytes.NewReader(w.b[5:]))
	is(bytes.Equal(h.Sum(nil), sha(w.b)) && h.Size() == 32 && len(h.Sum([]byte{1})) == 33, "hash")
	hh := sha256.Sum256(w.b)
	is(bytes.Equal(hh[:], sha(w.b)), "Sum256")
	sym.Reach("done")
}

// IdiomChance: single bytes of hashes can be equal, whole ones cannot.
func IdiomChance() {
	a, b := sym.RndFr("a"), sym.RndFr("b")
	x, y := a.Bytes(), b.Bytes()
	g, h := sha(x[:]), sha(y[:])
	equal := func() bool {
		for i := range g {
			if g[i] != h[i] {
				return false
			}
		}
		return true
	}
	is(!equal(), "byte by byte")
	var d byte
	for i := range g {
		d |= g[i] ^ h[i]
	}
	is(d != 0, "constant time")
	is(!bytes.Equal(g, h) && string(g) != string(h), "hashes")
	switch sym.Choose("how", 3) {
	case 0:
		if bytes.Equal(g[:1], h[:1]) {
			sym.Reach("equal")
		}
	case 1:
		if g[31] == 0 {
			sym.Reach("zero")
		}
	default:
		if string(g[3:4]) == string(h[3:4]) {
			sym.Reach("string")
		}
	}
	sym.Reach("done")
}

// IdiomSlow: what is not waited for is seen.
func IdiomSlow() {
	var wg sync.WaitGroup
	var n, m int32
	for i := 0; i < 3; i++ {
		wg.Add(1)
		i := i
		go func() {
			if i == 1 {
				sym.Slow()
			}
			atomic.AddInt32(&n, 1)
			wg.Done()
		}()
	}
	c := make(chan int)
	go func() {
		c <- 1
		sym.Slow()
		atomic.AddInt32(&m, 1)
	}()
	<-c
	wg.Wait()
	is(atomic.LoadInt32(&n) == 3, "waiting")
	if atomic.LoadInt32(&m) == 0 {
		sym.Reach("early")
	}
	sym.Reach("done")
}

func IdiomStrconv() {
	show := func(v any, err error) string {
		s := fmt.Sprint(v)
		if err != nil {
			if !errors.Is(err, strconv.ErrSyntax) && !errors.Is(err, strconv.ErrRange) {
				return "bad error"
			}
			s += "!"
			if errors.Is(err, strconv.ErrRange) {
				s += "range"
			}
		}
		return s
	}
	in := []string{"10", "010", "+10", "-10", "0x1f", "0X1F", "0b11", "0o17", "1_0", "", "x", "300", "-129", "99999999999999999999", "08"}
	want := map[string]string{}
	for i, w := range []string{
		"10 10 10 10 16 2", "10 10 8 10 16 2", "10 0! 10 10 16 2", "-10 0! -10 -10 -16 -2", "0! 0! 31 0! 0! 0!", "0! 0! 31 0! 0! 0!", "0! 0! 3 0! 2833 0!", "0! 0! 15 0! 0! 0!", "0! 0! 10 0! 0! 0!",
		"0! 0! 0! 0! 0! 0!", "0! 0! 0! 0! 0! 0!", "300 300 300 127!range 768 0!", "-129 0! -129 -128!range -297 0!",
		"9223372036854775807!range 18446744073709551615!range 9223372036854775807!range 127!range 9223372036854775807!range 0!", "8 8 0! 8 8 0!"} {
		want[in[i]] = w
	}
	for _, s := range in {
		var r []string
		a, err := strconv.Atoi(s)
		r = append(r, show(a, err))
		b, err := strconv.ParseUint(s, 10, 64)
		r = append(r, show(b, err))
		c, err := strconv.ParseInt(s, 0, 64)
		r = append(r, show(c, err))
		d, err := strconv.ParseInt(s, 10, 8)
		r = append(r, show(d, err))
		e, err := strconv.ParseInt(s, 16, 64)
		r = append(r, show(e, err))
		f, err := strconv.ParseInt(s, 2, 64)
		r = append(r, show(f, err))
		is(strings.Join(r, " ") == want[s], "parsing "+s+": "+strings.Join(r, " "))
	}
	is(strconv.FormatInt(-255, 16) == "-ff" && strconv.Itoa(-7) == "-7" && strconv.Quote("a\"b") == `"a\"b"`, "formatting")
	sym.Reach("done")
}

// IdiomSlices: the packages of generic helpers.
func IdiomSlices() {
	a := []int{5, 2, 9, 2}
	b := slices.Clone(a)
	slices.Sort(b)
	is(slices.Equal(b, []int{2, 2, 5, 9}) && slices.IsSorted(b) && !slices.IsSorted(a), "Sort")
	is(slices.Contains(a, 9) && !slices.Contains(a, 4) && slices.Index(a, 2) == 1 && slices.IndexFunc(a, func(x int) bool { return x > 5 }) == 2, "Index")
	i, ok := slices.BinarySearch(b, 5)
	is(ok && i == 2, "BinarySearch")
	slices.Reverse(b)
	is(b[0] == 9 && slices.Max(b) == 9 && slices.Min(b) == 2, "Reverse")
	is(len(slices.Compact([]int{1, 1, 2})) == 2 && len(slices.Insert(a, 1, 7, 8)) == 6 && len(slices.Delete(slices.Clone(a), 0, 2)) == 2, "Compact")
	g := slices.Grow([]byte(nil), 10)
	is(len(g) == 0 && cap(g) >= 10, "Grow")
	m := map[string]int{"b": 2, "a": 1, "c": 3}
	is(slices.Equal(slices.Sorted(maps.Keys(m)), []string{"a", "b", "c"}), "Keys")
	c := maps.Clone(m)
	delete(c, "a")
	is(len(c) == 2 && !maps.Equal(c, m), "Clone")
	slices.SortFunc(a, func(x, y int) int { return y - x })
	is(a[0] == 9 && a[3] == 2, "SortFunc")
	n := 0
	for _, v := range m {
		n = n*10 + v
	}
	is(n == 123 || n == 132 || n == 213 || n == 231 || n == 312 || n == 321, "range")
	// fields of symbolic values
	x, y := sym.RndFr("x"), sym.RndFr("y")
	fs := []fr.Element{x, y}
	is(slices.Contains(fs, y) && slices.Index(fs, x) == 0, "elements")
	ps := []bn254.G1Affine{G1(x), G1(y)}
	is(slices.IndexFunc(ps, func(p bn254.G1Affine) bool { return p.Equal(&ps[1]) }) == 1, "points")
	ck := slices.Chunk([]int{1, 2, 3, 4, 5}, 2)
	k := 0
	ck(func(c []int) bool { k = k*10 + len(c); return true })
	is(k == 221, "Chunk")
	clear := func(v []fr.Element) {
		for i := range v {
			v[i] = fr.Element{}
		}
	}
	clear(fs)
	is(fs[0].IsZero() && fs[1].IsZero(), "clear")
	is(cmp.Compare(1, 2) < 0 && cmp.Less("a", "b"), "cmp")
	is(bytes.Contains([]byte("abc"), []byte("bc")) && bytes.IndexByte([]byte("abc"), 'c') == 2 && len(bytes.Split([]byte("a,b"), []byte(","))) == 2, "bytes")
	is(strings.Map(unicode.ToUpper, "ab1") == "AB1", "Map")
	is(strings.Count("aab", "a") == 2, "Count")
	is(strings.TrimLeft("001", "0") == "1", "TrimLeft")
	is(strings.EqualFold("Ab", "aB"), "EqualFold")
	sym.Reach("done")
}
