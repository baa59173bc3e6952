package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	repo, verif   string
	overlay       map[string][]byte
	overlayFiles  map[string]string
	prog          *ssa.Program
	fset          *token.FileSet
	main          *ssa.Package // the harness package (x in package app)
	models        map[string]*ssa.Function
	runtimeErrT   types.Type
	solverBin     string
	solverTimeout int
	maxSteps      int
	verbose       bool
	thorough      bool
	workersN      int
	budget        time.Duration
	stacks        bool
	buildMu       sync.Mutex
	sinkMu        sync.Mutex
	sunk          map[*ssa.Function]bool
	built         sync.Map
	methMu        sync.Mutex
	loadS         float64
	setupS        float64
	witnessN      int
	indexFile     string
}

const modPath = "github.com/arterynetwork/artr"

// overlayMap: harness sources under /verif/harness mapped into /repo.
func (e *Engine) readOverlay() error {
	e.overlay = map[string][]byte{}
	e.overlayFiles = map[string]string{}
	root := filepath.Join(e.verif, "harness")
	defer e.genIndex()
	return filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		dst := filepath.Join(e.repo, rel)
		e.overlay[dst] = b
		e.overlayFiles[dst] = p
		return nil
	})
}

func (e *Engine) load() error {
	t0 := time.Now()
	if err := e.readOverlay(); err != nil {
		return err
	}
	ov := map[string][]byte{}
	for k, v := range e.overlay {
		if !strings.HasSuffix(k, "_test.go") {
			ov[k] = v
		}
	}
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax,
		Dir:        e.repo,
		Env:        append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off"),
		BuildFlags: []string{"-tags=testing"},
		Overlay:    ov,
	}
	pkgs, err := packages.Load(cfg, "./app")
	if err != nil {
		return err
	}
	bad := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, er := range p.Errors {
			if strings.HasPrefix(p.PkgPath, modPath) {
				fmt.Println("load:", er)
				bad++
			}
		}
	})
	if bad > 0 {
		return fmt.Errorf("%d errors while loading /repo with the harness", bad)
	}
	prog, ssaPkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	e.prog = prog
	e.fset = prog.Fset
	e.main = ssaPkgs[0]
	if e.main == nil {
		return fmt.Errorf("no SSA for ./app")
	}
	if rt := prog.ImportedPackage("runtime"); rt != nil {
		e.runtimeErrT = rt.Type("errorString").Object().Type()
	}
	e.models = map[string]*ssa.Function{}
	mp := prog.ImportedPackage(modPath + "/verifrt")
	if mp == nil {
		return fmt.Errorf("verifrt not loaded")
	}
	e.build(mp)
	for name, target := range modelTable {
		f := mp.Func(name)
		if f == nil {
			return fmt.Errorf("model %s missing", name)
		}
		for _, t := range strings.Split(target, " | ") {
			e.models[t] = f
		}
	}
	e.loadS = time.Since(t0).Seconds()
	return nil
}

func (e *Engine) build(p *ssa.Package) {
	if _, ok := e.built.Load(p); ok {
		return
	}
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	if _, ok := e.built.Load(p); ok {
		return
	}
	p.Build()
	e.built.Store(p, true)
}

func (e *Engine) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	e.methMu.Lock()
	defer e.methMu.Unlock()
	ms := e.prog.MethodSets.MethodSet(t)
	var sel *types.Selection
	if token.IsExported(name) {
		sel = ms.Lookup(nil, name)
	} else {
		sel = ms.Lookup(pkg, name)
	}
	if sel == nil {
		return nil
	}
	return e.prog.MethodValue(sel)
}

// isStub: functions with no bearing on any property (metrics, registration, routing); they return zero values.
func (e *Engine) isStub(fn *ssa.Function, name string) bool {
	if stubFuncs[name] {
		return true
	}
	p := pkgOf(fn)
	for _, s := range stubPkgs {
		if p == s || (strings.HasSuffix(s, "/...") && (p == s[:len(s)-4] || strings.HasPrefix(p, s[:len(s)-3]))) {
			return true
		}
	}
	for _, s := range stubPrefixes {
		if strings.HasPrefix(name, s) {
			return true
		}
	}
	return false
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

// initAllowed: packages whose initialisers are executed.
func initAllowed(path string) bool {
	if strings.HasPrefix(path, modPath) {
		return !strings.Contains(path, "/client") && !strings.Contains(path, "/cmd/")
	}
	for _, p := range initPkgs {
		if path == p || (strings.HasSuffix(p, "/...") && strings.HasPrefix(path, p[:len(p)-3])) {
			return true
		}
	}
	return false
}

func (w *Worker) initPackage(p *ssa.Package) {
	if w.initDone[p] {
		return
	}
	w.initDone[p] = true
	imps := p.Pkg.Imports()
	sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
	for _, ip := range imps {
		if sp := w.eng.prog.Package(ip); sp != nil {
			w.initPackage(sp)
		}
	}
	if !initAllowed(p.Pkg.Path()) {
		return
	}
	w.eng.build(p)
	f := p.Func("init")
	if f == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupportedErr:
				if w.eng.verbose && w.id == 0 {
					fmt.Printf("init of %s stopped: %s (in %s)\n", p.Pkg.Path(), r.msg, w.lastFn)
				}
			case targetPanic:
				if w.eng.verbose && w.id == 0 {
					fmt.Printf("init of %s panicked: %s\n", p.Pkg.Path(), w.panicString(r))
				}
			default:
				panic(r)
			}
		}
	}()
	w.steps = 0
	w.maxSteps = 1 << 40
	w.call(nil, f, nil, nil)
}

// setup runs the package initialisers and the harness's own set-up once; the result is the base heap of every path.
func (w *Worker) setup() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupportedErr:
				err = fmt.Errorf("setup: %s", r.msg)
			case targetPanic:
				err = fmt.Errorf("setup panicked: %s", w.panicString(r))
			default:
				panic(r)
			}
		}
	}()
	w.h = newHarness("setup", nil)
	w.varN = map[string]int{}
	w.keyed = map[string]*Term{}
	w.deadline = time.Now().Add(time.Hour)
	w.initPackage(w.eng.main)
	w.steps = 0
	w.maxSteps = 1 << 40
	f := w.eng.main.Func("VerifSetup")
	if f != nil {
		w.eng.build(w.eng.main)
		w.call(nil, f, nil, nil)
	}
	w.baseDone = true
	return nil
}

func (e *Engine) harnesses(match func(string) bool) []*Harness {
	var out []*Harness
	for name, m := range e.main.Members {
		if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(name, "Verif_") && match(name) {
			out = append(out, newHarness(name, f))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// explore runs all harnesses to completion or until the budget is used up.
func (e *Engine) explore(hs []*Harness) ([]*Worker, error) {
	e.build(e.main)
	deadline := time.Now().Add(e.budget)
	n := e.workersN
	ws := make([]*Worker, n)
	var wg sync.WaitGroup
	errs := make([]error, n)
	var initial []item
	for _, h := range hs {
		h.pending = 1
		initial = append(initial, item{h: h})
	}
	var imu sync.Mutex
	t0 := time.Now()
	var ready sync.WaitGroup
	ready.Add(n)
	for i := range ws {
		ws[i] = e.newWorker(i)
	}
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := ws[i]
			err := w.setup()
			if i == 0 {
				e.setupS = time.Since(t0).Seconds()
			}
			ready.Done()
			if err != nil {
				errs[i] = err
				return
			}
			for time.Now().Before(deadline) {
				it, ok := func() (item, bool) {
					w.mu.Lock()
					if k := len(w.stack); k > 0 {
						it := w.stack[k-1]
						w.stack[k-1] = item{}
						w.stack = w.stack[:k-1]
						w.mu.Unlock()
						return it, true
					}
					w.mu.Unlock()
					imu.Lock()
					defer imu.Unlock()
					if len(initial) > 0 {
						it := initial[0]
						initial = initial[1:]
						return it, true
					}
					for d := 1; d < n; d++ {
						v := ws[(i+d)%n]
						v.mu.Lock()
						if len(v.stack) > 0 {
							it := v.stack[0]
							v.stack = v.stack[1:]
							v.mu.Unlock()
							return it, true
						}
						v.mu.Unlock()
					}
					return item{}, false
				}()
				if !ok {
					left := 0
					for _, h := range hs {
						h.mu.Lock()
						left += h.pending
						h.mu.Unlock()
					}
					if left == 0 {
						return
					}
					time.Sleep(2 * time.Millisecond)
					continue
				}
				it.h.mu.Lock()
				if it.h.started.IsZero() {
					it.h.started = time.Now()
				}
				it.h.mu.Unlock()
				w.deadline = deadline
				w.runItem(it)
			}
		}(i)
	}
	wg.Wait()
	for _, w := range ws {
		w.solver.Close()
	}
	for _, err := range errs {
		if err != nil {
			return ws, err
		}
	}
	for _, h := range hs {
		if h.pending > 0 {
			h.inconclusive(fmt.Sprintf("time budget: %d subtrees not explored", h.pending))
		}
	}
	return ws, nil
}

// genIndex: the native replay needs the harnesses by name.
func (e *Engine) genIndex() {
	re := regexp.MustCompile(`(?m)^func (Verif_\w+)\(\) \{`)
	var sb strings.Builder
	sb.WriteString("package app\n\nvar verifHarnesses = map[string]func(){\n")
	var names []string
	for _, b := range e.overlay {
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			names = append(names, m[1])
		}
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "\t%q: %s,\n", n, n)
	}
	sb.WriteString("}\n")
	dst := filepath.Join(e.repo, "app", "zz_verif_index.go")
	f := filepath.Join(os.TempDir(), fmt.Sprintf("verif-index-%d.go", os.Getpid()))
	os.WriteFile(f, []byte(sb.String()), 0o644)
	e.indexFile = f
	e.overlay[dst] = []byte(sb.String())
	e.overlayFiles[dst] = f
}
