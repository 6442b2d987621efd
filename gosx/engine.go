package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type Engine struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	fset     *token.FileSet
	stubPkg  *ssa.Package
	machines []*Machine
	cur      *explorer
	mu       sync.Mutex
	built    map[*ssa.Package]bool
	impl     map[[2]*TI]bool
	implMu   sync.Mutex
	harnessF map[string]bool // harness file names
	initPkgs []*ssa.Package
	initErrs map[string]string
	methMu   sync.Mutex
	tier     int
	solver   string
	svFile   string
	rtErr    types.Type
	sizes    types.Sizes
}

// implCache is per machine in effect: TI pointers are machine specific.
func (e *Engine) implCache(k [2]*TI) (bool, bool) {
	e.implMu.Lock()
	defer e.implMu.Unlock()
	r, ok := e.impl[k]
	return r, ok
}
func (e *Engine) setImpl(k [2]*TI, v bool) {
	e.implMu.Lock()
	e.impl[k] = v
	e.implMu.Unlock()
}

func (e *Engine) isRepoPkg(p string) bool {
	return strings.HasPrefix(p, "github.com/xhd2015/xgo")
}

func (e *Engine) fileOf(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pos() == token.NoPos {
		return ""
	}
	return e.fset.Position(f.Pos()).Filename
}

func (e *Engine) isHarnessFunc(f *ssa.Function) bool {
	return strings.HasPrefix(filepath.Base(e.fileOf(f)), "zz_sv_")
}

func (e *Engine) isSVFunc(f *ssa.Function) bool {
	return filepath.Base(e.fileOf(f)) == "zz_sv_rt.go"
}

func (e *Engine) build(f *ssa.Function) {
	e.mu.Lock()
	defer e.mu.Unlock()
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p != nil && !e.built[p] {
		e.built[p] = true
		p.Build()
	}
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.methMu.Lock()
	defer e.methMu.Unlock()
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

func (e *Engine) fnByName(m *Machine, pkg, name string) *Fn {
	for _, p := range e.prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if f := p.Func(name); f != nil {
				return m.fnOf(f)
			}
		}
	}
	panic("gosx: function not loaded: " + pkg + "." + name)
}

func (e *Engine) rtErrTI(m *Machine) *TI {
	if e.rtErr == nil {
		return nil
	}
	return m.ti(e.rtErr)
}

type loadSpec struct {
	dir      string // module dir
	patterns []string
	overlay  map[string][]byte
}

func (e *Engine) load(ls loadSpec) error {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax | packages.NeedModule, Dir: ls.dir, Overlay: ls.overlay,
		BuildFlags: []string{"-tags=math_big_pure_go,purego"}, // std without assembly
		Env:        append(os.Environ(), "GOWORK=off", "CGO_ENABLED=0", "GOFLAGS=")}
	ps, err := packages.Load(cfg, append(ls.patterns, "runtime", "zzsvstub")...)
	if err != nil {
		return err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			errs = append(errs, fmt.Sprintf("%s: %v", p.PkgPath, er))
		}
	})
	if len(errs) > 0 {
		return fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	e.pkgs = ps
	e.prog, _ = ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	e.fset = e.prog.Fset
	e.built = map[*ssa.Package]bool{}
	e.impl = map[[2]*TI]bool{}
	e.initErrs = map[string]string{}
	for _, p := range e.prog.AllPackages() {
		switch p.Pkg.Path() {
		case "zzsvstub":
			e.stubPkg = p
		case "runtime":
			if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
				e.rtErr = o.Type()
			}
		}
	}
	if e.stubPkg == nil {
		return fmt.Errorf("stub package not loaded")
	}
	// dependency order for init
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, q := range imps {
			visit(q)
		}
		if sp := e.prog.Package(p); sp != nil {
			e.initPkgs = append(e.initPkgs, sp)
		}
	}
	for _, p := range ps {
		visit(p.Types)
	}
	return nil
}

// Packages whose initialisers are not executed (their behaviour is modelled).
func skipInit(p string) bool {
	switch p {
	case "runtime", "reflect", "sync", "syscall", "os/exec", "os/signal", "net", "unsafe", "internal/reflectlite", "os/user",
		"net/http", "mime", "log", "crypto/tls", "crypto/x509", "testing", "internal/poll", "internal/syscall/unix", "runtime/debug", "vendor/golang.org/x/net/http2/hpack":
		return true
	}
	if strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "internal/runtime/") || strings.HasPrefix(p, "crypto/") || strings.HasPrefix(p, "vendor/") ||
		strings.HasPrefix(p, "net/http/") || strings.HasPrefix(p, "math/rand") || strings.HasPrefix(p, "internal/godebug") || strings.HasPrefix(p, "internal/cpu") {
		return true
	}
	return false
}

func (e *Engine) newMachine() (*Machine, error) {
	m := &Machine{eng: e, tb: newTB(), tis: map[types.Type]*TI{}, tiCanon: &typeutil.Map{}, fns: map[*ssa.Function]*Fn{},
		fvals: map[*ssa.Function]*Closure{}, globals: map[*ssa.Global]*Obj{}, maxSteps: 20_000_000}
	m.tByte = m.ti(types.Typ[types.Uint8])
	m.tInt = m.ti(types.Typ[types.Int])
	m.tString = m.ti(types.Typ[types.String])
	m.tBytes = m.ti(types.NewSlice(types.Typ[types.Uint8]))
	m.tRune = m.ti(types.Typ[types.Int32])
	m.tErr = m.ti(types.Universe.Lookup("error").Type())
	m.tAny = m.ti(types.Universe.Lookup("any").Type())
	var err error
	m.solver, err = newSolver(m.tb, e.solver, 20000)
	return m, err
}

func (m *Machine) ensureInit() {
	if m.epoch > 0 {
		return
	}
	m.exploreReset() // epoch 1
	m.inInit = true
	ms := m.maxSteps
	for _, p := range m.eng.initPkgs {
		if skipInit(p.Pkg.Path()) {
			continue
		}
		f := p.Func("init")
		if f == nil {
			continue
		}
		m.steps = 0
		m.maxSteps = 50_000_000
		func() {
			defer func() {
				if r := recover(); r != nil {
					msg := fmt.Sprint(r)
					switch r := r.(type) {
					case *pathAbort:
						msg = r.kind + ": " + r.msg
					case *targetPanic:
						msg = m.panicText(r) + r.stack
					}
					m.eng.mu.Lock()
					m.eng.initErrs[p.Pkg.Path()] = msg
					m.eng.mu.Unlock()
					if os.Getenv("GOSX_DEBUG") != "" {
						fmt.Println("init", p.Pkg.Path(), "failed:", firstLine(msg, 6))
					}
				}
			}()
			m.curFrame, m.depth = nil, 0
			m.initPkg(p)
		}()
	}
	m.inInit = false
	m.maxSteps = ms
	m.undo = nil
	m.epoch = 1
}

// initPkg runs p's synthesized init function without recursing into imports.
func (m *Machine) initPkg(p *ssa.Package) {
	fn := m.fnOf(p.Func("init"))
	m.call(fn, nil, nil)
}

func (m *Machine) isInitCall(fn *Fn) bool { return false }

func loadOverlayFile(path string) (map[string]string, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	var o struct{ Replace map[string]string }
	if err := json.Unmarshal(b, &o); err != nil {
		return nil, err
	}
	return o.Replace, nil
}

var _ ast.Node
var _ = time.Now
