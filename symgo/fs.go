package main

import (
	"fmt"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
)

// File system model: a flat in-memory store of byte cells. Two kinds of
// faults: a per-file size limit (disk quota) and "full device" paths.

type File struct {
	data store
	full bool // every write fails from now on
	dev  bool // full device
	dir  bool
	link bool
	gen  int
	// mtime is the time of the last change
	mtime int64
}

const epoch = 63900000000 // the clock starts in 2025

// tick advances the clock.
func (it *Interp) tick() int64 {
	it.clock++
	return epoch + it.clock
}

// timeOf is a time.Time: nanoseconds and seconds of year one.
func (it *Interp) timeOf(t int64) Value {
	s := zero(it.ld.pkg("time").Type("Time").Type()).(Struct)
	s[1] = t
	return s
}

// nanos is a time relative to the epoch.
func (fr *Frame) nanos(v Value) int64 {
	s := v.(Struct)
	if x := fr.concInt(s[1]); x < epoch-9000000000 {
		return -9000000000000000000
	}
	return (fr.concInt(s[1])-epoch)*1000000000 + fr.concInt(s[0])
}

func (it *Interp) timeAt(n int64) Value {
	s, r := n/1000000000, n%1000000000
	if r < 0 {
		s, r = s-1, r+1000000000
	}
	t := it.timeOf(epoch + s).(Struct)
	t[0] = r
	return t
}

const unixEpoch = 62135596800

func regTime() {
	T := "(time.Time)."
	reg("time.Now", func(fr *Frame, a []Value) Value { return fr.it.timeOf(fr.it.tick()) })
	reg("time.Since", func(fr *Frame, a []Value) Value { return fr.nanos(fr.it.timeOf(fr.it.tick())) - fr.nanos(a[0]) })
	reg("time.Until", func(fr *Frame, a []Value) Value { return fr.nanos(a[0]) - fr.nanos(fr.it.timeOf(fr.it.tick())) })
	reg("time.Unix", func(fr *Frame, a []Value) Value {
		return fr.it.timeAt((fr.concInt(a[0])+unixEpoch-epoch)*1000000000 + fr.concInt(a[1]))
	})
	reg(T+"Sub", func(fr *Frame, a []Value) Value { return fr.nanos(a[0]) - fr.nanos(a[1]) })
	reg(T+"After", func(fr *Frame, a []Value) Value { return fr.nanos(a[0]) > fr.nanos(a[1]) })
	reg(T+"Before", func(fr *Frame, a []Value) Value { return fr.nanos(a[0]) < fr.nanos(a[1]) })
	reg(T+"Equal", func(fr *Frame, a []Value) Value { return fr.nanos(a[0]) == fr.nanos(a[1]) })
	reg(T+"IsZero", func(fr *Frame, a []Value) Value {
		s := a[0].(Struct)
		return fr.concInt(s[1]) == 0 && fr.concInt(s[0]) == 0
	})
	reg(T+"Add", func(fr *Frame, a []Value) Value { return fr.it.timeAt(fr.nanos(a[0]) + fr.concInt(a[1])) })
	for _, n := range []string{"Round", "Truncate", "UTC", "Local"} {
		reg(T+n, func(fr *Frame, a []Value) Value { return a[0] })
	}
	unix := func(fr *Frame, v Value) int64 { return fr.concInt(v.(Struct)[1]) - unixEpoch }
	for n, k := range map[string]int64{"Unix": 1, "UnixMilli": 1e3, "UnixMicro": 1e6, "UnixNano": 1e9} {
		k := k
		reg(T+n, func(fr *Frame, a []Value) Value {
			return unix(fr, a[0])*k + fr.concInt(a[0].(Struct)[0])/(1000000000/k)
		})
	}
}

// store is the content of a file in pages; a missing page is a hole of zeros.
type store struct {
	n     int64
	pages map[int64][]Value
}

const pageSize = 4096

func (s *store) size() int64 { return s.n }

func (s *store) read(buf []Value, off int64) int {
	if off >= s.n {
		return 0
	}
	if int64(len(buf)) > s.n-off {
		buf = buf[:s.n-off]
	}
	for i := 0; i < len(buf); {
		at := off + int64(i)
		k := int(at % pageSize)
		e := pageSize - k
		if e > len(buf)-i {
			e = len(buf) - i
		}
		if p := s.pages[at/pageSize]; p != nil {
			copy(buf[i:i+e], p[k:])
		} else {
			for j := i; j < i+e; j++ {
				buf[j] = int64(0)
			}
		}
		i += e
	}
	return len(buf)
}

func (s *store) write(off int64, cells []Value) {
	if s.pages == nil {
		s.pages = map[int64][]Value{}
	}
	for i := 0; i < len(cells); {
		at := off + int64(i)
		k := int(at % pageSize)
		p := s.pages[at/pageSize]
		if p == nil {
			p = make([]Value, pageSize)
			for j := range p {
				p[j] = int64(0)
			}
			s.pages[at/pageSize] = p
		}
		i += copy(p[k:], cells[i:])
	}
	if end := off + int64(len(cells)); end > s.n {
		s.n = end
	}
}

func (s *store) truncate(n int64) {
	for k, p := range s.pages {
		switch {
		case k*pageSize >= n:
			delete(s.pages, k)
		case (k+1)*pageSize > n:
			for j := n - k*pageSize; j < pageSize; j++ {
				p[j] = int64(0)
			}
		}
	}
	s.n = n
}

func (s *store) piece(off, n int64) Slice {
	out := make(Slice, n)
	s.read(out, off)
	return out
}

// all is the whole content.
func (s *store) all() []Value {
	if s.n > 1<<27 {
		unsupported("reading a file of %d bytes at once", s.n)
	}
	out := make([]Value, s.n)
	s.read(out, 0)
	return out
}

type FS struct {
	files map[string]*File
	links map[string]string // symbolic links
	limit *Term             // per-file size limit (64-bit), nil = none
}

type FileObj struct {
	f      *File
	name   string
	off    int64
	rd, wr bool
	app    bool
	closed bool
	std    int // 1 stdout, 2 stderr
}

func newFS() *FS {
	return &FS{files: map[string]*File{".": {dir: true}, "/tmp": {dir: true}}, links: map[string]string{}}
}

// cleanPath is the name of a directory entry.
func cleanPath(p string) string {
	p = filepath.Clean(p)
	if p == "/cwd" {
		return "."
	}
	return strings.TrimPrefix(p, "/cwd/")
}

// res follows symbolic links (not those of directories).
func (fs *FS) res(p string) string {
	p = cleanPath(p)
	for i := 0; i < 40; i++ {
		t, ok := fs.links[p]
		if !ok {
			break
		}
		if !filepath.IsAbs(t) {
			t = filepath.Join(filepath.Dir(p), t)
		}
		p = cleanPath(t)
	}
	return p
}

func (it *Interp) globalByName(pkg, name string) Value {
	p := it.ld.pkg(pkg)
	return *it.global(p.Var(name))
}

func (it *Interp) pathError(op, path string, cause Value) Value {
	p := it.ld.pkg("io/fs")
	t := p.Type("PathError")
	return Iface{t: types.NewPointer(t.Type()), v: newCell(Struct{op, path, cause})}
}

func (it *Interp) errno(name string) Value {
	switch name {
	case "ENOENT":
		return it.globalByName("io/fs", "ErrNotExist")
	case "EEXIST":
		return it.globalByName("io/fs", "ErrExist")
	case "EBADF":
		return it.globalByName("io/fs", "ErrClosed")
	}
	return it.mkError(map[string]string{
		"EFBIG": "file too large", "ENOSPC": "no space left on device", "EISDIR": "is a directory",
		"EINVAL": "invalid argument", "ENOTDIR": "not a directory",
	}[name])
}

func (it *Interp) openFile(path string, flag int64) (Value, Value) {
	const (
		oWRONLY = 1
		oRDWR   = 2
		oCREATE = 0x40
		oEXCL   = 0x80
		oTRUNC  = 0x200
		oAPPEND = 0x400
	)
	p := it.fs.res(path)
	if path == "" {
		return (*Value)(nil), it.pathError("open", path, it.errno("ENOENT"))
	}
	f := it.fs.files[p]
	wr := flag&(oWRONLY|oRDWR) != 0
	if wr || flag&oCREATE != 0 {
		it.touch(path)
	}
	if f != nil && f.dir && (wr || flag&oCREATE != 0) {
		return (*Value)(nil), it.pathError("open", path, it.errno("EISDIR"))
	}
	if f == nil {
		if d := filepath.Dir(p); d != "." && (it.fs.files[d] == nil || !it.fs.files[d].dir) {
			return (*Value)(nil), it.pathError("open", path, it.errno("ENOENT"))
		}
		if flag&oCREATE == 0 {
			return (*Value)(nil), it.pathError("open", path, it.errno("ENOENT"))
		}
		f = &File{mtime: it.tick()}
		it.fs.files[p] = f
	} else if flag&oCREATE != 0 && flag&oEXCL != 0 {
		return (*Value)(nil), it.pathError("open", path, it.errno("EEXIST"))
	}
	if flag&oTRUNC != 0 && wr && !f.dev {
		f.data = store{}
		f.mtime = it.tick()
		f.full = false
		f.gen++
	}
	fo := &FileObj{f: f, name: path, wr: wr, rd: flag&oWRONLY == 0, app: flag&oAPPEND != 0}
	return newCell(fo), nilErr
}

// touch records that the file of that name may be changed.
func (it *Interp) touch(paths ...string) {
	if it.touched != nil {
		for _, p := range paths {
			it.touched[cleanPath(p)] = true
		}
	}
}

// write appends/overwrites cells at off; returns the number written and error.
func (it *Interp) fileWrite(fo *FileObj, off int64, cells []Value) (int64, Value) {
	if fo.closed {
		return 0, it.pathError("write", fo.name, it.errno("EBADF"))
	}
	if fo.std == 1 {
		it.stdout = append(it.stdout, cells...)
		return int64(len(cells)), nilErr
	}
	if fo.std == 2 {
		return int64(len(cells)), nilErr
	}
	if !fo.wr {
		return 0, it.pathError("write", fo.name, it.mkError("bad file descriptor"))
	}
	f := fo.f
	if len(cells) == 0 {
		return 0, nilErr
	}
	if f.dev || f.full {
		return 0, it.pathError("write", fo.name, it.errno("ENOSPC"))
	}
	end := off + int64(len(cells))
	if it.fs.limit != nil {
		if it.path.branch(tBV("bvslt", it.fs.limit, tConst(64, uint64(end)))) {
			f.full = true
			return 0, it.pathError("write", fo.name, it.errno("EFBIG"))
		}
	}
	if off < 0 {
		return 0, it.pathError("write", fo.name, it.errno("EINVAL"))
	}
	f.data.write(off, cells)
	f.gen++
	f.mtime = it.tick()
	return int64(len(cells)), nilErr
}

func (fr *Frame) file(p Value) *FileObj {
	c, ok := p.(*Value)
	if !ok || c == nil {
		return nil
	}
	fo, ok := (*c).(*FileObj)
	if !ok {
		unsupported("os.File value of type %T", *c)
	}
	return fo
}

func (fr *Frame) str(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		return fr.concStr(v)
	}
	unsupported("string expected, got %T", v)
	return ""
}

func (fr *Frame) concStr(v *SymStr) string {
	b := make([]byte, 0, len(v.cells))
	for _, c := range v.cells {
		switch c := c.(type) {
		case int64:
			b = append(b, byte(c))
		case *Term:
			b = append(b, byte(fr.it.path.concretize(c)))
		case DecTok:
			b = append(b, decStr(int64(fr.it.path.concretize(c.t)))...)
		default:
			unsupported("concrete string expected in %s", fr.where())
		}
	}
	return string(b)
}

func init() {
	F := "(*os.File)."
	reg("os.Open", func(fr *Frame, a []Value) Value {
		f, e := fr.it.openFile(fr.str(a[0]), 0)
		return Tuple{f, e}
	})
	reg("os.Create", func(fr *Frame, a []Value) Value {
		f, e := fr.it.openFile(fr.str(a[0]), 2|0x40|0x200)
		return Tuple{f, e}
	})
	reg("os.OpenFile", func(fr *Frame, a []Value) Value {
		f, e := fr.it.openFile(fr.str(a[0]), fr.concInt(a[1]))
		return Tuple{f, e}
	})
	reg("os.CreateTemp", func(fr *Frame, a []Value) Value {
		dir, pat := fr.str(a[0]), fr.str(a[1])
		if dir == "" {
			dir = "/tmp"
		}
		fr.it.nrand++
		n := decStr(int64(900000 + fr.it.nrand))
		if i := strings.LastIndex(pat, "*"); i >= 0 {
			pat = pat[:i] + n + pat[i+1:]
		} else {
			pat += n
		}
		old := fr.it.touched
		fr.it.touched = nil // nobody else knows the name
		f, e := fr.it.openFile(filepath.Join(dir, pat), 2|0x40|0x80)
		fr.it.touched = old
		return Tuple{f, e}
	})
	remove := func(fr *Frame, a []Value) Value {
		n := fr.str(a[0])
		p := cleanPath(n)
		fr.it.touch(p)
		if _, ok := fr.it.fs.links[p]; ok {
			delete(fr.it.fs.links, p)
			return nilErr
		}
		if fr.it.fs.files[p] == nil {
			return fr.it.pathError("remove", n, fr.it.errno("ENOENT"))
		}
		delete(fr.it.fs.files, p)
		return nilErr
	}
	reg("os.Remove", remove)
	reg("os.RemoveAll", func(fr *Frame, a []Value) Value {
		p := cleanPath(fr.str(a[0]))
		fr.it.touch(p)
		for n := range fr.it.fs.files {
			if n == p || strings.HasPrefix(n, p+"/") {
				delete(fr.it.fs.files, n)
			}
		}
		return nilErr
	})
	reg("os.Rename", func(fr *Frame, a []Value) Value {
		o, n := cleanPath(fr.str(a[0])), cleanPath(fr.str(a[1]))
		fr.it.touch(o, n)
		if t, ok := fr.it.fs.links[o]; ok {
			delete(fr.it.fs.links, o)
			delete(fr.it.fs.files, n)
			fr.it.fs.links[n] = t
			return nilErr
		}
		f := fr.it.fs.files[o]
		if f == nil {
			return fr.it.pathError("rename", o, fr.it.errno("ENOENT"))
		}
		if o == n || fr.it.fs.files[n] == f {
			return nilErr
		}
		delete(fr.it.fs.files, o)
		delete(fr.it.fs.links, n)
		fr.it.fs.files[n] = f
		return nilErr
	})
	reg("os.Symlink", func(fr *Frame, a []Value) Value {
		p := cleanPath(fr.str(a[1]))
		if _, ok := fr.it.fs.links[p]; ok || fr.it.fs.files[p] != nil {
			return fr.it.pathError("symlink", p, fr.it.errno("EEXIST"))
		}
		fr.it.fs.links[p] = fr.str(a[0])
		return nilErr
	})
	reg("os.Link", func(fr *Frame, a []Value) Value {
		o, n := cleanPath(fr.str(a[0])), cleanPath(fr.str(a[1]))
		if _, ok := fr.it.fs.links[n]; ok || fr.it.fs.files[n] != nil {
			return fr.it.pathError("link", n, fr.it.errno("EEXIST"))
		}
		f := fr.it.fs.files[fr.it.fs.res(o)]
		if f == nil {
			return fr.it.pathError("link", o, fr.it.errno("ENOENT"))
		}
		fr.it.fs.files[n] = f
		return nilErr
	})
	reg("os.MkdirAll", func(fr *Frame, a []Value) Value {
		p := cleanPath(fr.str(a[0]))
		for ; p != "." && p != "/"; p = filepath.Dir(p) {
			if fr.it.fs.files[p] == nil {
				fr.it.fs.files[p] = &File{dir: true}
			}
		}
		return nilErr
	})
	reg("os.Mkdir", intrinsics["os.MkdirAll"])
	reg("os.TempDir", func(fr *Frame, a []Value) Value { return "/tmp" })
	reg("os.ReadFile", func(fr *Frame, a []Value) Value {
		n := fr.str(a[0])
		f := fr.it.fs.files[fr.it.fs.res(n)]
		if f == nil || f.dir {
			return Tuple{Slice(nil), fr.it.pathError("open", n, fr.it.errno("ENOENT"))}
		}
		return Tuple{Slice(f.data.all()), nilErr}
	})
	reg("os.WriteFile", func(fr *Frame, a []Value) Value {
		f, e := fr.it.openFile(fr.str(a[0]), 1|0x40|0x200)
		if e.(Iface).t != nil {
			return e
		}
		_, e = fr.it.fileWrite(fr.file(f), 0, a[1].(Slice))
		return e
	})
	fileInfo := func(fr *Frame, name string, f *File) Value {
		t := fr.it.ld.pkg("os").Type("fileStat")
		return Iface{t: types.NewPointer(t.Type()), v: newCell(&statObj{name, f, f.data.size(), f.mtime})}
	}
	stat := func(fr *Frame, a []Value) Value {
		n := fr.str(a[0])
		f := fr.it.fs.files[fr.it.fs.res(n)]
		if f == nil {
			return Tuple{Iface{}, fr.it.pathError("stat", n, fr.it.errno("ENOENT"))}
		}
		return Tuple{fileInfo(fr, n, f), nilErr}
	}
	reg("os.Stat", stat)
	reg("os.Lstat", func(fr *Frame, a []Value) Value {
		n := fr.str(a[0])
		if _, ok := fr.it.fs.links[cleanPath(n)]; ok {
			return Tuple{fileInfo(fr, n, &File{link: true}), nilErr}
		}
		return stat(fr, a)
	})
	st := func(fr *Frame, v Value) *statObj { return fr.ldv(v).(*statObj) }
	nat := func(name string, f func(fr *Frame, a []Value) Value) {
		nativeMethods["*os.fileStat."+name] = &Native{name: name, f: f}
		reg("(*os.fileStat)."+name, f)
	}
	nat("Size", func(fr *Frame, a []Value) Value { return st(fr, a[0]).size })
	nat("Name", func(fr *Frame, a []Value) Value { return filepath.Base(st(fr, a[0]).name) })
	nat("IsDir", func(fr *Frame, a []Value) Value { return st(fr, a[0]).f.dir })
	nat("Mode", func(fr *Frame, a []Value) Value {
		if st(fr, a[0]).f.dir {
			return int64(1<<31 | 0o755)
		}
		if st(fr, a[0]).f.link {
			return int64(1<<27 | 0o777)
		}
		if st(fr, a[0]).f.dev {
			return int64(1<<26 | 1<<21 | 0o666)
		}
		return int64(0o644)
	})
	nat("ModTime", func(fr *Frame, a []Value) Value { return fr.it.timeOf(st(fr, a[0]).mtime) })
	reg("os.Chtimes", func(fr *Frame, a []Value) Value {
		n := fr.str(a[0])
		f := fr.it.fs.files[fr.it.fs.res(n)]
		if f == nil {
			return fr.it.pathError("chtimes", n, fr.it.errno("ENOENT"))
		}
		f.mtime = fr.concInt(a[2].(Struct)[1])
		return nilErr
	})
	reg("os.SameFile", func(fr *Frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		return st(fr, x.v).f == st(fr, y.v).f
	})
	reg("os.Exit", func(fr *Frame, a []Value) Value {
		panic(targetExit{int(fr.concInt(a[0]))})
	})
	reg("os.Getenv", func(fr *Frame, a []Value) Value { return getenv(fr, a[0])[0] })
	reg("os.LookupEnv", func(fr *Frame, a []Value) Value { return getenv(fr, a[0]) })
	reg("os.Getwd", func(fr *Frame, a []Value) Value { return Tuple{"/cwd", nilErr} })

	inval := func(fr *Frame) Value { return fr.it.globalByName("os", "ErrInvalid") }
	_ = inval
	eInvalid := func(fr *Frame) Value { return fr.it.globalByName("io/fs", "ErrInvalid") }
	reg(F+"Name", func(fr *Frame, a []Value) Value {
		fo := fr.file(a[0])
		if fo == nil {
			fr.rtPanic("invalid memory address or nil pointer dereference")
		}
		return fo.name
	})
	reg(F+"Close", func(fr *Frame, a []Value) Value {
		fo := fr.file(a[0])
		if fo == nil {
			return eInvalid(fr)
		}
		if fo.closed {
			return fr.it.pathError("close", fo.name, fr.it.errno("EBADF"))
		}
		fo.closed = true
		return nilErr
	})
	reg(F+"Sync", func(fr *Frame, a []Value) Value {
		if fo := fr.file(a[0]); fo == nil {
			return eInvalid(fr)
		} else if fo.closed {
			return fr.it.pathError("sync", fo.name, fr.it.errno("EBADF"))
		}
		return nilErr
	})
	reg(F+"Stat", func(fr *Frame, a []Value) Value {
		fo := fr.file(a[0])
		if fo == nil {
			return Tuple{Iface{}, eInvalid(fr)}
		}
		return Tuple{fileInfo(fr, fo.name, fo.f), nilErr}
	})
	read := func(fr *Frame, fo *FileObj, off int64, buf Slice) (int64, Value) {
		if fo.closed {
			return 0, fr.it.pathError("read", fo.name, fr.it.errno("EBADF"))
		}
		if fo.f.dir {
			return 0, fr.it.pathError("read", fo.name, fr.it.errno("EISDIR"))
		}
		if len(buf) == 0 {
			return 0, nilErr
		}
		if off >= fo.f.data.size() {
			return 0, fr.it.globalByName("io", "EOF")
		}
		if off < 0 {
			return 0, fr.it.pathError("read", fo.name, fr.it.errno("EINVAL"))
		}
		return int64(fo.f.data.read(buf, off)), nilErr
	}
	reg(F+"Read", func(fr *Frame, a []Value) Value {
		if fo := fr.file(a[0]); fo != nil && fo.name == "/dev/urandom" {
			b := a[1].(Slice)
			if !fr.it.draw() {
				return Tuple{int64(0), fr.it.randErr()}
			}
			copy(b, fr.it.randBytes(len(b)))
			return Tuple{int64(len(b)), nilErr}
		}
		fo := fr.file(a[0])
		if fo == nil {
			return Tuple{int64(0), eInvalid(fr)}
		}
		n, e := read(fr, fo, fo.off, a[1].(Slice))
		fo.off += n
		return Tuple{n, e}
	})
	reg(F+"ReadAt", func(fr *Frame, a []Value) Value {
		fo := fr.file(a[0])
		buf := a[1].(Slice)
		n, e := read(fr, fo, fr.concInt(a[2]), buf)
		if e.(Iface).t == nil && n < int64(len(buf)) {
			e = fr.it.globalByName("io", "EOF")
		}
		return Tuple{n, e}
	})
	write := func(fr *Frame, p Value, cells []Value) Value {
		fo := fr.file(p)
		if fo == nil {
			return Tuple{int64(0), eInvalid(fr)}
		}
		off := fo.off
		if fo.app {
			off = fo.f.data.size()
		}
		n, e := fr.it.fileWrite(fo, off, cells)
		fo.off = off + n
		return Tuple{n, e}
	}
	reg(F+"Write", func(fr *Frame, a []Value) Value { return write(fr, a[0], a[1].(Slice)) })
	reg(F+"WriteString", func(fr *Frame, a []Value) Value { return write(fr, a[0], strCells(a[1])) })
	reg(F+"WriteAt", func(fr *Frame, a []Value) Value {
		fo := fr.file(a[0])
		if fo == nil {
			return Tuple{int64(0), eInvalid(fr)}
		}
		n, e := fr.it.fileWrite(fo, fr.concInt(a[2]), a[1].(Slice))
		return Tuple{n, e}
	})
	reg(F+"Seek", func(fr *Frame, a []Value) Value {
		fo := fr.file(a[0])
		if fo == nil {
			return Tuple{int64(0), eInvalid(fr)}
		}
		if fo.closed {
			return Tuple{int64(0), fr.it.pathError("seek", fo.name, fr.it.errno("EBADF"))}
		}
		off := fr.concInt(a[1])
		switch fr.concInt(a[2]) {
		case 1:
			off += fo.off
		case 2:
			off += fo.f.data.size()
		}
		if off < 0 {
			return Tuple{int64(0), fr.it.pathError("seek", fo.name, fr.it.errno("EINVAL"))}
		}
		fo.off = off
		return Tuple{off, nilErr}
	})
	reg(F+"Truncate", func(fr *Frame, a []Value) Value {
		fo := fr.file(a[0])
		n := fr.concInt(a[1])
		if fo == nil {
			return eInvalid(fr)
		}
		if n < 0 || !fo.wr || fo.closed {
			return fr.it.pathError("truncate", fo.name, fr.it.errno("EINVAL"))
		}
		if n > 0 && (fo.f.dev || fo.f.full) {
			return fr.it.pathError("truncate", fo.name, fr.it.errno("ENOSPC"))
		}
		if l := fr.it.fs.limit; l != nil && n > fo.f.data.size() && fr.it.path.branch(tBV("bvslt", l, tConst(64, uint64(n)))) {
			return fr.it.pathError("truncate", fo.name, fr.it.errno("EFBIG"))
		}
		fo.f.data.truncate(n)
		return nilErr
	})
	reg(F+"ReadFrom", func(fr *Frame, a []Value) Value {
		return copyLoop(fr, a[0], a[1].(Iface))
	})
	reg(F+"WriteTo", func(fr *Frame, a []Value) Value {
		fo := fr.file(a[0])
		w := a[1].(Iface)
		total := int64(0)
		for fo.off < fo.f.data.size() {
			n := fo.f.data.size() - fo.off
			if n > 4096 {
				n = 4096
			}
			r := fr.it.call(fr, fr.it.method(w.t, nil, "Write"), []Value{w.v, fo.f.data.piece(fo.off, n)}).(Tuple)
			m := r[0].(int64)
			fo.off += m
			total += m
			if r[1].(Iface).t != nil {
				return Tuple{total, r[1]}
			}
		}
		return Tuple{total, nilErr}
	})
	for _, n := range []string{"Name", "Close", "Read", "Write", "Seek", "WriteString", "ReadAt", "WriteAt", "Stat", "Sync", "Truncate", "ReadFrom", "WriteTo"} {
		nativeMethods["*os.File."+n] = &Native{name: n, f: intrinsics[F+n]}
	}
}

type statObj struct {
	name string
	f    *File
	size int64
	// mtime is the time of the last change
	mtime int64
}

type targetExit struct{ code int }

// copyLoop implements (*os.File).ReadFrom.
func copyLoop(fr *Frame, dst Value, src Iface) Value {
	total := int64(0)
	for i := 0; ; i++ {
		buf := make(Slice, 4096)
		for j := range buf {
			buf[j] = int64(0)
		}
		r := fr.it.call(fr, fr.it.method(src.t, nil, "Read"), []Value{src.v, buf}).(Tuple)
		n := fr.concInt(r[0])
		if n > 0 {
			w := fr.it.call(fr, &Native{f: intrinsics["(*os.File).Write"]}, []Value{dst, buf[:n]}).(Tuple)
			total += w[0].(int64)
			if w[1].(Iface).t != nil {
				return Tuple{total, w[1]}
			}
		}
		if e := r[1].(Iface); e.t != nil {
			if boolOf(fr, fr.it.eqVals(nil, e, fr.it.globalByName("io", "EOF"))) {
				return Tuple{total, nilErr}
			}
			return Tuple{total, e}
		}
	}
}

func boolOf(fr *Frame, t *Term) bool { return fr.it.path.branch(t) }

func (fs *FS) names() []string {
	var out []string
	for n, f := range fs.files {
		if !f.dir {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// getenv is the value of an environment variable, which can be any one if the
// repository asks for it.
func getenv(fr *Frame, name Value) Tuple {
	fn := fr.fn
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	n, ok := name.(string)
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || !ok {
		return Tuple{"", false}
	}
	if fr.it.environ == nil {
		fr.it.environ = map[string]Tuple{}
	}
	if v, ok := fr.it.environ[n]; ok {
		return v
	}
	values := []string{"", "1", "true", "0", "3"}
	p := fr.it.path
	in := p.inputName("env-index-" + n)
	t := tVar(64, fmt.Sprintf("b%d_%s", len(p.inputs), sanitize(in)))
	p.addInput(input{name: in, kind: "bv", t: t})
	i := p.choose(t, len(values))
	v := Tuple{values[i], i > 0}
	fr.it.environ[n] = v
	if i > 0 {
		p.addInput(input{name: "env:" + n, kind: "str", s: values[i]})
	}
	return v
}
