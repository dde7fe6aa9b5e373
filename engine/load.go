package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

type override struct {
	native func(w *Worker, g *G, args []Value, ci *cinstr) (Value, bool)
	model  *ssa.Function
	sync   bool
}

type Engine struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	harness *ssa.Package
	models  *ssa.Package
	repoMod string

	mu      sync.RWMutex
	ovCache map[*ssa.Function]*override
	mCache  map[mkey]*ssa.Function
	iCache  map[ikey]bool
	canonM  typeutil.Map
	canonID int
	cCache  map[types.Type]types.Type
	ids     map[types.Type]int
	rtErr   types.Type
	fnMu    sync.Mutex
	fnSeen  map[*ssa.Function]bool
	buildMu sync.Mutex
	mutOnce sync.Once
	mutable map[*types.Var]bool // fields written outside the function that creates the value
}

type mkey struct {
	t types.Type
	m *types.Func
}
type ikey struct {
	t types.Type
	i *types.Interface
}

func LoadEngine(dir string) (*Engine, error) {
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        dir,
		Env:        append(os.Environ(), "CGO_ENABLED=0"),
		BuildFlags: []string{"-tags=verif"},
	}
	pkgs, err := packages.Load(cfg, "verif/harness/h", "verif/harness/models")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, "verif/") || strings.Contains(p.PkgPath, "secs4go") {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, ovCache: map[*ssa.Function]*override{}, mCache: map[mkey]*ssa.Function{},
		iCache: map[ikey]bool{}, cCache: map[types.Type]types.Type{}, ids: map[types.Type]int{}, fnSeen: map[*ssa.Function]bool{}}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.harness = e.pkgs["verif/harness/h"]
	e.models = e.pkgs["verif/harness/models"]
	if e.harness == nil || e.models == nil {
		return nil, fmt.Errorf("harness packages not loaded")
	}
	e.models.Build()
	e.harness.Build()
	if t := e.models.Type("RuntimeError"); t != nil {
		e.rtErr = e.canon(t.Type())
	}
	if err := initOverrides(e); err != nil {
		return nil, err
	}
	return e, nil
}

func (e *Engine) ensureBuilt(fn *ssa.Function) {
	// Build runs once per package and waits for a build another worker has begun: a function that
	// already has blocks may still be under construction.
	if o := fn.Origin(); fn.Pkg == nil && o != nil && o.Pkg != nil {
		o.Pkg.Build()
		return
	}
	for p := fn; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			p.Pkg.Build()
			return
		}
	}
}

func (e *Engine) canon(t types.Type) types.Type {
	e.mu.RLock()
	c, ok := e.cCache[t]
	e.mu.RUnlock()
	if ok {
		return c
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if x := e.canonM.At(t); x != nil {
		e.cCache[t] = x.(types.Type)
		return x.(types.Type)
	}
	e.canonM.Set(t, t)
	e.cCache[t] = t
	e.canonID++
	e.ids[t] = e.canonID
	return t
}

func (e *Engine) typeID(t types.Type) int {
	c := e.canon(t)
	e.mu.RLock()
	defer e.mu.RUnlock()
	return e.ids[c]
}

func (e *Engine) identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	return e.canon(a) == e.canon(b)
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	k := ikey{t, it}
	e.mu.RLock()
	v, ok := e.iCache[k]
	e.mu.RUnlock()
	if ok {
		return v
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	v = types.Implements(t, it)
	e.iCache[k] = v
	return v
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	e.mu.RLock()
	f, ok := e.mCache[k]
	e.mu.RUnlock()
	if ok {
		return f
	}
	e.buildMu.Lock()
	f = e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.buildMu.Unlock()
	e.mu.Lock()
	e.mCache[k] = f
	e.mu.Unlock()
	return f
}

func (e *Engine) noteFn(w *Worker, fn *ssa.Function) {
	w.fnUse[fn] = true
}

func pkgPathOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return obj.Pkg().Path()
	}
	return ""
}

const repoPath = "github.com/younglifestyle/secs4go"

func isRepoPath(p string) bool { return p == repoPath || strings.HasPrefix(p, repoPath+"/") }

// eager packages get their init run at the start of every path.
func (e *Engine) eager(path string) bool {
	return isRepoPath(path) || strings.HasPrefix(path, "verif/harness")
}

var noInit = map[string]bool{"os": true, "runtime": true, "syscall": true, "reflect": true, "internal/reflectlite": true, "net": true, "log": true,
	"internal/godebug": true, "internal/poll": true, "internal/cpu": true, "math/rand": true, "math/rand/v2": true, "internal/testlog": true, "sync": true, "sync/atomic": true, "fmt": true, "regexp": true, "regexp/syntax": true,
	"internal/bytealg": true, "crypto/rand": true, "encoding/json": true, "internal/sync": true, "unique": true, "unsafe": true}

func (e *Engine) wantsInit(p *ssa.Package) bool {
	path := p.Pkg.Path()
	if noInit[path] {
		return false
	}
	return true
}

var persistentPkgs = map[string]bool{"unicode": true, "strconv": true, "unicode/utf8": true, "math/bits": true, "encoding/hex": true, "io": true, "bytes": true, "strings": true,
	"errors": true, "math": true, "time": true, "bufio": true, "encoding/binary": true, "internal/stringslite": true, "context": true, "sort": true, "slices": true, "internal/fmtsort": true}

func (e *Engine) persistent(p *ssa.Package) bool { return persistentPkgs[p.Pkg.Path()] }

// initOrder lists the eager packages in dependency order.
func (e *Engine) initOrder() []*ssa.Package {
	var out []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		imps := append([]*types.Package{}, p.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if e.eager(p.Path()) {
			if sp := e.pkgs[p.Path()]; sp != nil {
				out = append(out, sp)
			}
		}
	}
	visit(e.harness.Pkg)
	return out
}
