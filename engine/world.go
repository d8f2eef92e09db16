package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const repoMod = "github.com/kwilteam/kuneiform"

// World is the loaded program: shared by all machines.
type World struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	mu        sync.Mutex
	rtypes    typeutil.Map
	nrt       int
	repl      map[string]*ssa.Function // full name of the replaced function -> replacement
	initOK    func(path string) bool
	rtErrType *RType
	methCache map[methKey]*ssa.Function
	overlay   map[string][]byte
	repo      string
	sizes     types.Sizes
}

type methKey struct {
	t  *RType
	id string
}

func methID(f *types.Func) string {
	if f.Exported() {
		return f.Name()
	}
	return f.Pkg().Path() + "." + f.Name()
}

func (w *World) rtype(t types.Type) *RType {
	w.mu.Lock()
	defer w.mu.Unlock()
	if r := w.rtypes.At(t); r != nil {
		return r.(*RType)
	}
	w.nrt++
	r := &RType{t: t, id: w.nrt, name: types.TypeString(t, func(p *types.Package) string { return p.Name() }), impl: map[*RType]bool{}}
	w.rtypes.Set(t, r)
	return r
}

var implMu sync.RWMutex
var implCache = map[implKey]bool{}

type implKey struct {
	t *RType
	i *types.Interface
}

func (w *World) implements(t *RType, it *types.Interface) bool {
	k := implKey{t, it}
	implMu.RLock()
	r, ok := implCache[k]
	implMu.RUnlock()
	if ok {
		return r
	}
	r = types.Implements(t.t, it)
	implMu.Lock()
	implCache[k] = r
	implMu.Unlock()
	return r
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Parent() != nil {
		return pkgPathOf(f.Parent())
	}
	return ""
}

func (w *World) inRepo(f *ssa.Function) bool {
	p := pkgPathOf(f)
	return (p == repoMod || strings.HasPrefix(p, repoMod+"/")) && !strings.HasPrefix(p, repoMod+"/zzverif")
}

func (w *World) replacement(f *ssa.Function) *ssa.Function {
	if len(w.repl) == 0 {
		return nil
	}
	name := f.String()
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	return w.repl[name]
}

func (m *Machine) findMethod(t *RType, meth *types.Func, id string, from *ssa.Function) *Closure {
	w := m.w
	k := methKey{t, id}
	w.mu.Lock()
	f, ok := w.methCache[k]
	w.mu.Unlock()
	if !ok {
		f = w.prog.LookupMethod(t.t, meth.Pkg(), meth.Name())
		w.mu.Lock()
		w.methCache[k] = f
		w.mu.Unlock()
	}
	if f == nil {
		m.unsupported("no method %s on %s", meth.Name(), t.name)
	}
	return m.closureFor(f, from)
}

// loadWorld type-checks and builds SSA for the packages matching patterns.
func loadWorld(repo string, overlay map[string][]byte, patterns []string, env ...string) (*World, error) {
	base := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "CGO_ENABLED", "GOTOOLCHAIN", "GOOS", "GOARCH", "GO111MODULE":
			continue
		}
		base = append(base, e)
	}
	// a copy of go.mod and go.sum, so that the go command leaves the originals alone
	modDir, err := os.MkdirTemp("", "kfverif-mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(modDir)
	for _, n := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(modDir, n), b, 0o644); err != nil {
			return nil, err
		}
	}
	cfg := &packages.Config{
		BuildFlags: []string{"-modfile=" + filepath.Join(modDir, "go.mod")},
		Mode:       packages.LoadAllSyntax,
		Dir:        repo,
		Overlay:    overlay,
		Env:        append(append(base, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GO111MODULE=on"), env...),
	}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", patterns, strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, repl: map[string]*ssa.Function{}, methCache: map[methKey]*ssa.Function{}, overlay: overlay, repo: repo}
	w.rtypes.SetHasher(typeutil.MakeHasher())
	for _, p := range prog.AllPackages() {
		w.pkgs[p.Pkg.Path()] = p
	}
	w.initOK = initWhitelist
	// replacement directives
	packages.Visit(pk, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, repoMod+"/zzverif") {
			return
		}
		for _, file := range p.Syntax {
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil || fd.Recv != nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if t, ok := strings.CutPrefix(c.Text, "//gosym:replace "); ok {
						f := w.pkgs[p.PkgPath].Func(fd.Name.Name)
						for _, n := range strings.Fields(t) {
							w.repl[n] = f
						}
					}
				}
			}
		}
	})
	if rt := w.pkgs[repoMod+"/zzverif/rt"]; rt != nil {
		if t := rt.Type("RuntimeError"); t != nil {
			w.rtErrType = w.rtype(types.NewPointer(t.Type()))
		}
	}
	return w, nil
}

func initWhitelist(path string) bool {
	switch path {
	case "io", "strconv", "strings", "bytes", "sort", "slices", "maps", "cmp", "unicode/utf8", "math/bits", "path/filepath", "path", "io/fs", "internal/oserror", "regexp", "regexp/syntax", "context", "flag", "bufio", "text/tabwriter", "math", "internal/filepathlite", "internal/stringslite", "internal/bytealg", "strings/internal", "iter", "unicode/utf16", "internal/godebugs", "encoding/csv", "encoding/base64", "encoding/base32", "encoding/hex", "container/list", "container/heap", "container/ring", "hash/fnv", "hash/crc32", "math/big", "math/rand", "text/scanner", "encoding/binary":
		return true
	}
	if strings.Contains(path, ".") { // a module path
		if strings.HasPrefix(path, "github.com/kwilteam/sql-grammar-go") || strings.HasPrefix(path, "golang.org/x/sys") {
			return false
		}
		return true
	}
	return false
}

// gatherOverlay maps files of the harness directory into the repository tree.
func gatherOverlay(repo, harness string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	where := map[string]string{}
	err := filepath.Walk(harness, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(harness, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(repo, rel)
		ov[dst] = b
		where[dst] = p
		return nil
	})
	// the main packages of the repository once more, under a name that can be imported
	for dir, name := range map[string]string{".": "kuneiform", "wasm": "wasm"} {
		files, _ := filepath.Glob(filepath.Join(repo, dir, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, e := os.ReadFile(f)
			if e != nil {
				continue
			}
			if g := importable(b, name); g != nil {
				ov[filepath.Join(repo, "zzverif/gen", name, filepath.Base(f))] = g
			}
		}
	}
	return ov, where, err
}

// importable is a file of a main package with another package name and an
// exported Main.
func importable(src []byte, name string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "", src, parser.ParseComments)
	if err != nil || f.Name.Name != "main" {
		return nil
	}
	type edit struct {
		at   int
		n    int
		text string
	}
	edits := []edit{{fs.Position(f.Name.Pos()).Offset, 4, name}}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
			edits = append(edits, edit{fs.Position(fd.Name.Pos()).Offset, 4, "Main"})
		}
	}
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(append(out, src[last:e.at]...), e.text...)
		last = e.at + e.n
	}
	return append(out, src[last:]...)
}

func (w *World) funcByName(pkg, name string) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// initMachine runs the package initialisers the entry package needs.
func (m *Machine) initMachine(pkg string) error {
	p := m.w.pkgs[pkg]
	if p == nil {
		return fmt.Errorf("no package %s", pkg)
	}
	in := p.Func("init")
	m.logging = false
	m.top = nil
	m.pushCall(m.closureFor(in, nil), nil, -1)
	end := m.runPath()
	if end.kind != "done" {
		return fmt.Errorf("package initialisation: %s: %s", end.kind, end.msg)
	}
	return nil
}

func (m *Machine) encodedNames(all bool) []string {
	var out []string
	for f := range m.encoded {
		if all || m.w.inRepo(f) {
			out = append(out, f.String())
		}
	}
	sort.Strings(out)
	return out
}

var _ = token.NoPos
