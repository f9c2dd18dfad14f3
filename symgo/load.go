package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/bnb-chain/zkbnb-setup"

type Loaded struct {
	mu      sync.Mutex
	prog    *ssa.Program
	byPath  map[string]*ssa.Package
	built   map[*ssa.Package]bool
	overlay map[string][]byte // scaled files of the code under test
	scaled  []string
}

type Harness struct{ Name string }

func (l *Loaded) build(p *ssa.Package) {
	if p == nil {
		return
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.built[p] {
		l.built[p] = true
		p.Build()
	}
}

func (l *Loaded) pkg(path string) *ssa.Package {
	p := l.byPath[path]
	if p == nil {
		unsupported("package %s is not part of the program", path)
	}
	return p
}

// ---- scaling of large constants

const (
	scaleLo    = 1 << 17
	scaleHi    = 1 << 22
	scaleShift = 18
)

func scaleConst(v int64) (int64, bool) {
	if v < scaleLo || v > scaleHi {
		return v, false
	}
	n := v >> scaleShift
	if n < 2 {
		n = 2
	}
	return n, true
}

func evalConst(e ast.Expr) (int64, bool) {
	switch e := e.(type) {
	case *ast.BasicLit:
		if e.Kind == token.INT {
			v, err := strconv.ParseInt(e.Value, 0, 64)
			return v, err == nil
		}
		if e.Kind == token.FLOAT {
			f, err := strconv.ParseFloat(e.Value, 64)
			if err == nil && f == math.Trunc(f) && math.Abs(f) < 1<<53 {
				return int64(f), true
			}
		}
	case *ast.ParenExpr:
		return evalConst(e.X)
	case *ast.BinaryExpr:
		x, ok := evalConst(e.X)
		if !ok {
			return 0, false
		}
		y, ok := evalConst(e.Y)
		if !ok {
			return 0, false
		}
		switch e.Op {
		case token.ADD:
			return x + y, true
		case token.SUB:
			return x - y, true
		case token.MUL:
			return x * y, true
		case token.SHL:
			if y >= 0 && y < 62 {
				return x << uint(y), true
			}
		}
	case *ast.CallExpr:
		if s, ok := e.Fun.(*ast.SelectorExpr); ok && len(e.Args) == 2 && s.Sel.Name == "Pow" {
			if id, ok := s.X.(*ast.Ident); ok && id.Name == "math" {
				x, ok1 := evalConst(e.Args[0])
				y, ok2 := evalConst(e.Args[1])
				if ok1 && ok2 && x == 2 && y >= 0 && y < 62 {
					return 1 << uint(y), true
				}
			}
		}
		if id, ok := e.Fun.(*ast.Ident); ok && len(e.Args) == 1 {
			switch id.Name {
			case "int", "int64", "uint64", "uint", "float64", "uint32", "int32":
				return evalConst(e.Args[0])
			}
		}
	}
	return 0, false
}

// scaleFile rewrites integer constants in [2^17, 2^22] to value>>18 so that
// batch boundaries and buffer sizes are reached by small instances.
func scaleFile(path string) ([]byte, []string, error) {
	src, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	type edit struct {
		lo, hi int
		s      string
	}
	var edits []edit
	var notes []string
	ast.Inspect(f, func(n ast.Node) bool {
		e, ok := n.(ast.Expr)
		if !ok {
			return true
		}
		v, ok := evalConst(e)
		if !ok {
			return true
		}
		if s, ok := scaleConst(v); ok {
			lo, hi := fset.Position(e.Pos()).Offset, fset.Position(e.End()).Offset
			lit := strconv.FormatInt(s, 10)
			if c, ok := e.(*ast.CallExpr); ok {
				if sel, ok := c.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "Pow" {
					lit = "math.Pow(" + lit + ", 1)"
				} else {
					return true // a conversion: descend
				}
			}
			edits = append(edits, edit{lo, hi, lit})
			notes = append(notes, fmt.Sprintf("%s:%d: %s -> %s", filepath.Base(path), fset.Position(e.Pos()).Line, string(src[lo:hi]), lit))
		}
		return false
	})
	if len(edits) == 0 {
		return nil, nil, nil
	}
	sort.Slice(edits, func(i, j int) bool { return edits[i].lo < edits[j].lo })
	var out bytes.Buffer
	p := 0
	for _, e := range edits {
		out.Write(src[p:e.lo])
		out.WriteString(e.s)
		p = e.hi
	}
	out.Write(src[p:])
	return out.Bytes(), notes, nil
}

func repoOverlay(repo string) (map[string][]byte, []string) {
	ov := map[string][]byte{}
	var notes []string
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() && (strings.HasPrefix(info.Name(), ".") && p != repo || info.Name() == "test") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			if b, n, err := scaleFile(p); err == nil && b != nil {
				ov[p] = b
				notes = append(notes, n...)
			}
		}
		return nil
	})
	return ov, notes
}

func cryptoOverlay(hdir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	cmd := exec.Command("go", "list", "-f", "{{.Dir}}", pBN)
	cmd.Dir = hdir
	out, err := cmd.Output()
	if err != nil {
		return nil, err
	}
	p := filepath.Join(strings.TrimSpace(string(out)), "marshal.go")
	b, _, err := scaleFile(p)
	if err != nil {
		return nil, err
	}
	if b != nil {
		ov[p] = b
	}
	return ov, nil
}

// load type-checks the harness, the repository and every dependency from
// source and prepares their SSA form.
//
// With whole, no constant is scaled.
func load(hdir, repo string, whole bool) (*Loaded, error) {
	ld := &Loaded{byPath: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}}
	var cov map[string][]byte
	if !whole {
		ld.overlay, ld.scaled = repoOverlay(repo)
		var err error
		if cov, err = cryptoOverlay(hdir); err != nil {
			return nil, err
		}
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     hdir,
		Overlay: ld.overlay,
		ParseFile: func(fset *token.FileSet, name string, src []byte) (*ast.File, error) {
			if b, ok := cov[name]; ok {
				src = b
			}
			return parser.ParseFile(fset, name, src, parser.SkipObjectResolution)
		},
		Env: append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, "./h", modPath)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	ld.prog, _ = ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	for _, p := range ld.prog.AllPackages() {
		ld.byPath[p.Pkg.Path()] = p
	}
	_ = types.Typ
	return ld, nil
}

// writeOverlay writes the scaled sources and a go build overlay file.
func (l *Loaded) writeOverlay(dir string) (string, error) {
	rep := map[string]string{}
	i := 0
	for p, b := range l.overlay {
		f := filepath.Join(dir, fmt.Sprintf("ov%d_%s", i, filepath.Base(p)))
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return "", err
		}
		rep[p] = f
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, b, 0o644)
}
