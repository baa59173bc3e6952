package main

import (
	"fmt"
	"go/types"
	"math/big"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// A trace is the list of everything a path decided; a prefix of a trace identifies a subtree of the exploration.
type entry struct {
	kind byte     // 'b' branch taken with both sides feasible, 'f' forced branch, 'c' choice, 'v' candidate value, 'a' assertion outcome
	val  int64    // 0/1, choice index
	big  *big.Int // candidate value
}

func (e entry) same(o entry) bool {
	if e.kind != o.kind || e.val != o.val {
		return false
	}
	if e.big != nil && o.big != nil {
		return e.big.Cmp(o.big) == 0
	}
	return (e.big == nil) == (o.big == nil)
}

type item struct {
	h      *Harness
	prefix []entry
	model  map[string]*big.Int // by variable name, satisfies the prefix
}

type input struct {
	Name  string `json:"name"`
	Value string `json:"value"`
	term  *Term
	fixed *big.Int
}

type abortPath struct{ reason string }

type Worker struct {
	eng       *Engine
	id        int
	ts        *Terms
	solver    *Solver
	fns       map[*ssa.Function]*fnInfo
	globals   map[*ssa.Global]*value
	consts    map[*ssa.Const]value
	methods   map[methKey]*ssa.Function
	impls     map[implKey]bool
	specCache map[*types.Named]special
	zeroTime  *Term
	beOrigin  map[beKey]*Term

	undo    []undoRec
	logging bool

	// exploration state of the current path
	h              *Harness
	prefix         []entry
	trace          []entry
	common         int   // trace entries whose assertions are already on the solver stack
	levels         []int // solver level after i trace entries (index = number of entries)
	prev           []entry
	prevH          *Harness
	model          Model
	inputs         []input
	vars           []*Term
	varN           map[string]int
	keyed          map[string]*Term
	steps          int
	maxSteps       int
	mapOrderNondet bool
	reached        map[string]bool
	notes          map[string]string
	deadline       time.Time
	baseDone       bool
	initDone       map[*ssa.Package]bool

	onces                 map[string]bool
	lastFn                string
	noStringers, decimals bool

	seed  map[string]*big.Int
	stack []item
	mu    sync.Mutex
}

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{eng: e, id: id, ts: NewTerms(), fns: map[*ssa.Function]*fnInfo{}, globals: map[*ssa.Global]*value{}, consts: map[*ssa.Const]value{},
		methods: map[methKey]*ssa.Function{}, impls: map[implKey]bool{}, specCache: map[*types.Named]special{}, initDone: map[*ssa.Package]bool{}, onces: map[string]bool{}}
	w.zeroTime = w.ts.Big(zeroTimeNs)
	w.beOrigin = map[beKey]*Term{}
	w.solver = NewSolver(e.solverBin, e.solverTimeout)
	return w
}

// ---------- decisions

func (w *Worker) replaying() bool { return len(w.trace) < len(w.prefix) }

// emit asserts t at the current solver level unless it is already there.
func (w *Worker) emit(t *Term) {
	if len(w.trace) <= w.common && w.common > 0 {
		return
	}
	w.solver.Assert(t)
}

func (w *Worker) pushEntry(e entry, t *Term) {
	w.trace = append(w.trace, e)
	if len(w.trace) > w.common {
		if e.kind == 'b' || e.kind == 'c' || (e.kind == 'a' && e.val == 1) {
			w.solver.Push()
		}
		if t != nil {
			w.solver.Assert(t)
		}
		w.levels = append(w.levels[:len(w.trace)], w.solver.Level())
	}
}

func (w *Worker) evalB(t *Term) bool {
	e := evaluator{m: w.model, memo: map[int]*big.Int{}}
	return e.eval(t).Sign() != 0
}

func (w *Worker) sat(t *Term) (SatResult, Model) {
	if time.Now().After(w.deadline) {
		panic(abortPath{"time budget"})
	}
	r, m := w.solver.Check(t, w.vars)
	if r == Unknown {
		w.h.noteUnknown()
	}
	return r, m
}

// branch decides a condition, forking the exploration when both outcomes are feasible.
func (w *Worker) branch(c *Term) bool {
	if c.op == OBoolConst {
		return c.b
	}
	if !w.logging {
		panic(unsupported("symbolic branch during initialisation"))
	}
	if w.replaying() {
		e := w.prefix[len(w.trace)]
		if e.kind != 'b' && e.kind != 'f' {
			panic(unsupported("replay divergence: branch vs %c in %s", e.kind, w.h.Name))
		}
		v := e.val == 1
		var t *Term
		if e.kind == 'b' {
			t = c
			if !v {
				t = w.ts.Not(c)
			}
		}
		w.pushEntry(e, t)
		return v
	}
	var feasT, feasF SatResult
	var mT, mF Model
	if w.model != nil {
		if w.evalB(c) {
			feasT, mT = Sat, w.model
			feasF, mF = w.sat(w.ts.Not(c))
		} else {
			feasF, mF = Sat, w.model
			feasT, mT = w.sat(c)
		}
	} else {
		feasT, mT = w.sat(c)
		if feasT == Unsat {
			feasF = Sat
		} else {
			feasF, mF = w.sat(w.ts.Not(c))
		}
	}
	switch {
	case feasF == Unsat:
		w.pushEntry(entry{kind: 'f', val: 1}, nil)
		if mT != nil {
			w.model = mT
		}
		return true
	case feasT == Unsat:
		w.pushEntry(entry{kind: 'f', val: 0}, nil)
		if mF != nil {
			w.model = mF
		}
		return false
	}
	// both sides: keep the side of the current model (or true), queue the other one
	takeT := true
	if w.model != nil && mF != nil && sameModel(w.model, mF) {
		takeT = false
	}
	alt := int64(0)
	am := mF
	w.model = mT
	if !takeT {
		alt, am = 1, mT
		w.model = mF
	}
	w.queue(entry{kind: 'b', val: alt}, am)
	v := int64(1)
	t := c
	if !takeT {
		v = 0
		t = w.ts.Not(c)
	}
	w.h.addFork(w)
	w.pushEntry(entry{kind: 'b', val: v}, t)
	return takeT
}

func sameModel(a, b Model) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		o, ok := b[k]
		if !ok || o.Cmp(v) != 0 {
			return false
		}
	}
	return true
}

func (w *Worker) modelByName(m Model) map[string]*big.Int {
	if m == nil {
		return nil
	}
	r := map[string]*big.Int{}
	for _, v := range w.vars {
		if x, ok := m[v.id]; ok {
			r[v.name] = x
		}
	}
	return r
}

func (w *Worker) queue(e entry, m Model) {
	p := make([]entry, len(w.trace)+1)
	copy(p, w.trace)
	p[len(w.trace)] = e
	w.h.pendingAdd(1)
	w.mu.Lock()
	w.stack = append(w.stack, item{h: w.h, prefix: p, model: w.modelByName(m)})
	w.mu.Unlock()
}

// choose forks into n alternatives.
func (w *Worker) choose(name string, n int) int {
	if n <= 0 {
		panic(abortPath{"empty choice"})
	}
	if w.replaying() {
		e := w.prefix[len(w.trace)]
		if e.kind != 'c' {
			panic(unsupported("replay divergence: choice vs %c", e.kind))
		}
		w.pushEntry(e, nil)
		return int(e.val)
	}
	for k := n - 1; k >= 1; k-- {
		w.queue(entry{kind: 'c', val: int64(k)}, w.model)
	}
	w.pushEntry(entry{kind: 'c', val: 0}, nil)
	return 0
}

// concInt enumerates the feasible values of t (used for sizes and indices).
func (w *Worker) concInt(t *Term) int64 {
	for n := 0; ; n++ {
		if t.small {
			return t.i64
		}
		if t.op == OIntConst {
			panic(unsupported("huge size"))
		}
		if n > 64 {
			panic(unsupported("too many values of a size or index"))
		}
		var v *big.Int
		if w.replaying() {
			e := w.prefix[len(w.trace)]
			if e.kind != 'v' {
				panic(unsupported("replay divergence: value vs %c", e.kind))
			}
			v = e.big
			w.pushEntry(e, nil)
		} else {
			if w.model == nil {
				r, m := w.sat(w.ts.T)
				if r != Sat {
					panic(abortPath{"infeasible"})
				}
				w.model = m
			}
			ev := evaluator{m: w.model, memo: map[int]*big.Int{}}
			v = ev.eval(t)
			w.pushEntry(entry{kind: 'v', big: v}, nil)
		}
		if w.branch(w.ts.Eq(t, w.ts.Big(v))) {
			if !v.IsInt64() {
				panic(unsupported("huge size"))
			}
			return v.Int64()
		}
	}
}

// assume restricts the path.
func (w *Worker) assume(c *Term) {
	if c.op == OBoolConst {
		if !c.b {
			panic(abortPath{"assume"})
		}
		return
	}
	if w.replaying() {
		w.emit(c)
		return
	}
	w.emit(c)
	if w.model != nil && w.evalB(c) {
		return
	}
	r, m := w.sat(w.ts.T)
	if r == Unsat {
		panic(abortPath{"assume"})
	}
	w.model = m
}

// assumeDef adds the definition of a fresh variable (always satisfiable together with the path).
func (w *Worker) assumeDef(c *Term) { w.assume(c) }

// assert checks that c holds for every value on this path.
func (w *Worker) assert(c *Term, label string) {
	w.h.reach(label)
	if c.op == OBoolConst && c.b {
		w.h.assertOK(true)
		return
	}
	if w.replaying() { // decided when the parent path went through here
		e := w.prefix[len(w.trace)]
		if e.kind != 'a' {
			panic(unsupported("replay divergence: assertion vs %c", e.kind))
		}
		if e.val == 1 {
			w.pushEntry(e, c)
		} else {
			w.pushEntry(e, nil)
		}
		return
	}
	if c.op == OBoolConst {
		w.violation(label, nil)
		panic(abortPath{"after violation"})
	}
	r, m := w.sat(w.ts.Not(c))
	switch r {
	case Unsat:
		w.h.assertOK(false)
		w.pushEntry(entry{kind: 'a'}, nil)
		return
	case Unknown:
		w.h.inconclusive("solver gave no answer on assertion " + label)
		w.pushEntry(entry{kind: 'a'}, nil)
		return
	}
	w.violation(label, m)
	// continue on the part of the path where the assertion holds
	if r, m = w.sat(c); r == Unsat {
		panic(abortPath{"after violation"})
	}
	w.model = m
	w.pushEntry(entry{kind: 'a', val: 1}, c)
}

func (w *Worker) violation(label string, m Model) {
	if m == nil {
		m = w.model
	}
	if m == nil {
		r, mm := w.sat(w.ts.T)
		if r == Unsat {
			return // the path was kept only because the solver could not refute it earlier
		}
		if r != Sat {
			w.h.inconclusive("no model for violation " + label)
			return
		}
		m = mm
	}
	ev := evaluator{m: m, memo: map[int]*big.Int{}}
	v := &Violation{Harness: w.h.Name, Label: label}
	for _, in := range w.inputs {
		x := in
		if in.fixed != nil {
			x.Value = in.fixed.String()
		} else {
			x.Value = ev.eval(in.term).String()
		}
		v.Inputs = append(v.Inputs, x)
	}
	w.h.addViolation(v)
}

// ---------- variables

func (w *Worker) freshVar(name string, lo, hi *big.Int) *Term {
	k := w.varN[name]
	w.varN[name] = k + 1
	t := w.ts.Var(fmt.Sprintf("%s#%d", name, k), false, lo, hi)
	w.vars = append(w.vars, t)
	w.adopt(t)
	return t
}

// adopt: give a newly created variable its value in the seed model / keep the current model total.
func (w *Worker) adopt(t *Term) {
	if w.model == nil {
		return
	}
	if _, ok := w.model[t.id]; ok {
		return
	}
	if v, ok := w.seed[t.name]; ok {
		w.model[t.id] = v
	}
}

func (w *Worker) freshVarKeyed(key string, lo, hi *big.Int) *Term {
	if t, ok := w.keyed[key]; ok {
		return t
	}
	t := w.freshVar("aux", lo, hi)
	w.keyed[key] = t
	return t
}

func (w *Worker) freshBool(name string) *Term {
	k := w.varN[name]
	w.varN[name] = k + 1
	t := w.ts.Var(fmt.Sprintf("%s#%d", name, k), true, nil, nil)
	w.vars = append(w.vars, t)
	w.adopt(t)
	return t
}

func (w *Worker) addInput(name string, t *Term) {
	w.inputs = append(w.inputs, input{Name: name, term: t})
}

func (w *Worker) addFixedInput(name string, v int64) {
	w.inputs = append(w.inputs, input{Name: name, fixed: big.NewInt(v)})
}

// ---------- running one path

func (w *Worker) runItem(it item) {
	h := it.h
	w.h = h
	w.prefix = it.prefix
	w.trace = w.trace[:0]
	c := 0
	if w.prevH == h {
		for c < len(w.prev) && c < len(w.prefix) && w.prev[c].same(w.prefix[c]) {
			c++
		}
	}
	if c == 0 {
		w.solver.PopTo(0)
		w.solver.Push() // level 1 holds what comes before the first decision
		w.levels = []int{1}
	} else if len(w.prev) > c {
		w.levels = w.levels[:c+1]
		w.solver.PopTo(w.levels[c])
	} else {
		// nothing after entry c may be assumed to be on the stack: start over
		w.solver.PopTo(0)
		w.solver.Push()
		w.levels = []int{1}
		c = 0
	}
	w.common = c
	w.seed = it.model
	w.model = nil
	if it.model != nil {
		w.model = Model{}
	}
	w.inputs = w.inputs[:0]
	w.vars = nil
	w.varN = map[string]int{}
	w.keyed = map[string]*Term{}
	w.steps = 0
	w.maxSteps = w.eng.maxSteps
	w.mapOrderNondet, w.decimals = false, false
	w.logging = true
	outcome := w.runBody(h)
	if outcome == "done" {
		w.keepWitness()
	}
	w.rollback()
	w.logging = false
	w.prev = append(w.prev[:0], w.trace...)
	w.prevH = h
	if outcome == "poison" {
		w.prevH = nil
	}
	h.pathDone(w, outcome)
}

func (w *Worker) runBody(h *Harness) (outcome string) {
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
		case abortPath:
			outcome = "pruned"
			if r.reason == "time budget" {
				outcome = "budget"
			}
		case targetPanic:
			msg := w.panicString(r)
			outcome = "panic"
			func() {
				defer func() {
					if e := recover(); e != nil {
						if _, ok := e.(abortPath); !ok {
							h.inconclusive(fmt.Sprint("while reporting a panic: ", e))
						}
					}
				}()
				if w.replaying() {
					h.inconclusive("panic while replaying: " + msg)
					return
				}
				w.violation("unexpected panic: "+msg, nil)
			}()
		case unsupportedErr:
			outcome = "unsupported"
			if w.eng.verbose {
				fmt.Printf("unsupported in %s: %s\n", h.Name, r.msg)
			}
			h.inconclusive("not encodable: " + r.msg)
		default:
			outcome = "poison"
			h.inconclusive(fmt.Sprintf("engine error: %v", r))
			if w.eng.verbose {
				fmt.Printf("engine error: %v\n%s\n", r, debug.Stack())
			}
		}
	}()
	w.call(nil, h.Fn, nil, nil)
	return "done"
}

func (w *Worker) panicString(tp targetPanic) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = w.show(tp.v)
		}
	}()
	if i, ok := tp.v.(iface); ok && i.t != nil {
		if s, ok := i.v.(string); ok {
			return s
		}
		if f := w.eng.lookupMethod(i.t, nil, "Error"); f != nil {
			return w.show(w.call(nil, f, []value{i.v}, nil))
		}
	}
	return w.show(tp.v)
}

// ---------- harness bookkeeping

type Violation struct {
	Harness string    `json:"harness"`
	Label   string    `json:"label"`
	Inputs  []input   `json:"inputs"`
	Count   int       `json:"-"`
	Alts    [][]input `json:"-"`
	Status  string    `json:"-"`
}

type Harness struct {
	Name string
	Fn   *ssa.Function
	mu   sync.Mutex

	pending        int
	paths          map[string]int
	forks          int
	asserts        int
	assertsTriv    int
	labels         map[string]int
	violations     map[string]*Violation
	inconcl        map[string]int
	unknown        int
	steps          int64
	bounds         map[string]string
	covered        map[string]int
	maxTrace       int
	witnesses      []replayCase
	wseen          int
	started, ended time.Time
}

func newHarness(name string, fn *ssa.Function) *Harness {
	return &Harness{Name: name, Fn: fn, paths: map[string]int{}, labels: map[string]int{}, violations: map[string]*Violation{}, inconcl: map[string]int{}, bounds: map[string]string{}, covered: map[string]int{}}
}

func (h *Harness) pendingAdd(n int)  { h.mu.Lock(); h.pending += n; h.mu.Unlock() }
func (h *Harness) noteUnknown()      { h.mu.Lock(); h.unknown++; h.mu.Unlock() }
func (h *Harness) addFork(w *Worker) { h.mu.Lock(); h.forks++; h.mu.Unlock() }
func (h *Harness) reach(l string)    { h.mu.Lock(); h.labels[l]++; h.mu.Unlock() }
func (h *Harness) assertOK(triv bool) {
	h.mu.Lock()
	h.asserts++
	if triv {
		h.assertsTriv++
	}
	h.mu.Unlock()
}
func (h *Harness) inconclusive(m string) {
	h.mu.Lock()
	h.inconcl[m]++
	h.mu.Unlock()
}
func (h *Harness) addViolation(v *Violation) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if o := h.violations[v.Label]; o != nil {
		o.Count++
		if len(o.Alts) < 8 {
			o.Alts = append(o.Alts, v.Inputs)
		}
		return
	}
	v.Count = 1
	h.violations[v.Label] = v
}
func (h *Harness) pathDone(w *Worker, outcome string) {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.paths[outcome]++
	h.steps += int64(w.steps)
	h.pending--
	if len(w.trace) > h.maxTrace {
		h.maxTrace = len(w.trace)
	}
	h.ended = time.Now()
}

func (h *Harness) summary() string {
	var ps []string
	for k, v := range h.paths {
		ps = append(ps, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ps)
	return fmt.Sprintf("%-46s paths[%s] asserts=%d(%d trivially) forks=%d steps=%d unknown=%d inconclusive=%d violations=%d %.1fs", h.Name, strings.Join(ps, " "), h.asserts, h.assertsTriv, h.forks, h.steps, h.unknown, len(h.inconcl), len(h.violations), h.ended.Sub(h.started).Seconds())
}

// keepWitness records a model of a finished path, spread over the exploration.
func (w *Worker) keepWitness() {
	h := w.h
	want := w.eng.witnessN
	if want < 1 {
		want = 1
	}
	h.mu.Lock()
	h.wseen++
	take := h.wseen&(h.wseen-1) == 0 || h.wseen%97 == 0
	h.mu.Unlock()
	if !take {
		return
	}
	defer func() { recover() }()
	m := w.model
	ev := evaluator{m: m, memo: map[int]*big.Int{}}
	if m == nil {
		return
	}
	var ins []input
	for _, in := range w.inputs {
		x := in
		if in.fixed != nil {
			x.Value = in.fixed.String()
		} else {
			x.Value = ev.eval(in.term).String()
		}
		ins = append(ins, x)
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if len(h.witnesses) < want {
		h.witnesses = append(h.witnesses, replayCase{Harness: h.Name, Inputs: ins})
	} else {
		h.witnesses[h.wseen%want] = replayCase{Harness: h.Name, Inputs: ins}
	}
}
