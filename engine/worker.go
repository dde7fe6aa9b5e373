package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Options of one job.
type Options struct {
	Sched         bool  `json:"sched"`
	Preempt       int   `json:"preempt"`
	Switches      int   `json:"switches"`
	TimerRace     bool  `json:"timer_race"`
	MapOrder      int   `json:"map_order"`
	MapOrderForks int   `json:"map_order_forks"`
	MaxSteps      int64 `json:"max_steps"`
	MaxAlloc      int64 `json:"max_alloc"`
	MaxPaths      int64 `json:"max_paths"`
	MaxTimeS      int64 `json:"max_virtual_s"`
	SolverMS      int   `json:"solver_ms"`
	LeakCheck     bool  `json:"leak"`
	Race          bool  `json:"race"`
	FixRand       bool  `json:"fix_rand"` // random numbers are 1000
	FreezeAny     bool  `json:"freeze_any"`
	Freeze        int   `json:"freeze"` // goroutines stopped after an access without a lock until nothing else can run
}

type decision struct {
	v        int64
	asserted bool
	lit      *Term // only for the local worker; nil in shipped prefixes
}

// pending is a path still to be explored: the decision prefix and a model of its path condition.
type pending struct {
	dec   []int64 // value<<1 | asserted
	model map[string]uint64
}

type obsRec struct {
	label string
	vals  []Value
}

type Worker struct {
	id     int
	eng    *Engine
	tt     *TermTab
	sol    *Solver
	genCtr uint32

	infos     map[*ssa.Function]*fnInfo
	pglobals  map[*ssa.Global]Ptr
	pinitDone map[*ssa.Package]bool
	fnUse     map[*ssa.Function]bool
	qcache    map[string]qres
	cacheHits int64

	job  *Job
	opts Options

	// per path
	globals    map[*ssa.Global]Ptr
	initDone   map[*ssa.Package]bool
	gs         []*G
	cur        *G
	nextG      int
	lastG      int
	chanCtr    int
	steps      int64
	maxSteps   int64
	maxAlloc   int64
	maxTime    int64
	now        int64
	timers     []*timer
	timerSeq   int
	yieldNow   bool
	forceNext  *G
	resume     map[*G]bool
	resumed    *G
	preempts   int
	freezes    int
	switches   int
	mapForks   int
	panicWhere string
	violated   bool
	symStores  map[Ptr]func(Value)
	side       map[Ptr]interface{} // mutexes, timers, wait groups ...
	natives    map[string]interface{}
	syncs      map[Ptr]*syncVar
	shadows    map[Ptr]*shadow
	raced      map[string]bool
	timerVC    vclock

	prefix   []int64
	dpos     int
	dec      []int64
	pc       []*Term
	pcSet    map[*Term]bool
	model    *Model
	varCtr   map[string]int
	lastName string
	inputs   []inputVar
	asserts  []pendAssert
	obs      []obsRec
	covers   []string
	bounds   map[string]int
	forksAt  map[string]int64
	local    []pending
}

type inputVar struct {
	name string
	t    *Term
	w    uint8
}

type pendAssert struct {
	c     *Term
	label string
	where string
}

func NewWorker(e *Engine, id int, job *Job) *Worker {
	w := &Worker{id: id, eng: e, job: job, opts: job.Opts}
	w.reset()
	w.fnUse = map[*ssa.Function]bool{}
	w.forksAt = map[string]int64{}
	return w
}

// reset drops all terms and compiled functions (they hold terms).
func (w *Worker) reset() {
	if w.sol != nil {
		w.job.addSolver(w.sol)
		w.sol.Close()
	}
	w.tt = NewTermTab()
	for wd := 0; wd <= 64; wd++ {
		w.tt.Const(uint8(wd), 0)
	}
	to := w.opts.SolverMS
	if to == 0 {
		to = 30000
	}
	w.sol = NewSolver(w.job.Solver, w.tt, to)
	w.qcache = map[string]qres{}
	w.infos = map[*ssa.Function]*fnInfo{}
	w.pglobals = map[*ssa.Global]Ptr{}
	w.pinitDone = map[*ssa.Package]bool{}
}

func (w *Worker) startPath(p pending) {
	w.globals = map[*ssa.Global]Ptr{}
	w.initDone = map[*ssa.Package]bool{}
	w.gs = nil
	w.cur = nil
	w.nextG, w.lastG, w.chanCtr = 0, -1, 0
	w.steps, w.now, w.timers, w.timerSeq = 0, 0, nil, 0
	w.maxSteps = w.opts.MaxSteps
	if w.maxSteps == 0 {
		w.maxSteps = 20_000_000
	}
	w.maxAlloc = w.opts.MaxAlloc
	if w.maxAlloc == 0 {
		w.maxAlloc = 1 << 20
	}
	w.maxTime = w.opts.MaxTimeS * 1e9
	if w.maxTime == 0 {
		w.maxTime = 600 * 1e9
	}
	w.yieldNow, w.forceNext, w.resumed = false, nil, nil
	w.resume = map[*G]bool{}
	w.preempts, w.switches, w.mapForks, w.freezes = 0, 0, 0, 0
	w.panicWhere, w.violated = "", false
	w.timerVC = nil
	if w.opts.Race {
		w.syncs, w.shadows, w.raced = map[Ptr]*syncVar{}, map[Ptr]*shadow{}, map[string]bool{}
		w.job.noteAssert("no-data-race")
	}
	w.symStores = map[Ptr]func(Value){}
	w.side = map[Ptr]interface{}{}
	w.natives = map[string]interface{}{}
	w.prefix, w.dpos, w.dec = p.dec, 0, nil
	w.pc, w.pcSet = nil, map[*Term]bool{}
	w.model = w.newModel(p.model)
	w.varCtr = map[string]int{}
	w.inputs = nil
	w.asserts = nil
	w.obs = nil
	w.covers = nil
	w.bounds = map[string]int{}
}

func (w *Worker) addPC(c *Term) {
	if c.isTrue() {
		return
	}
	if c.op == OpAnd {
		w.addPC(c.a[0])
		w.addPC(c.a[1])
		return
	}
	if w.pcSet[c] {
		return
	}
	w.pcSet[c] = true
	w.pc = append(w.pc, c)
}

// implied decides conditions syntactically where possible.
func (w *Worker) implied(c *Term) (bool, bool) {
	if w.pcSet[c] {
		return true, true
	}
	if w.pcSet[w.tt.Not(c)] {
		return false, true
	}
	return false, false
}

func (w *Worker) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	if v, ok := w.implied(c); ok {
		return v
	}
	if w.dpos < len(w.prefix) {
		d := w.prefix[w.dpos]
		w.dpos++
		w.dec = append(w.dec, d)
		v := d>>1 == 1
		if d&1 == 1 {
			if v {
				w.addPC(c)
			} else {
				w.addPC(w.tt.Not(c))
			}
		}
		return v
	}
	v := w.model.eval(c) == 1
	lit, other := c, w.tt.Not(c)
	if !v {
		lit, other = other, lit
	}
	w.job.tick(w)
	t0 := time.Now()
	res, m := w.check(other)
	if forkProf != nil {
		forkProf.add(w.where(), res, time.Since(t0))
	}
	dv := int64(0)
	if v {
		dv = 1
	}
	switch res {
	case Sat:
		alt := append(append([]int64{}, w.dec...), (1-dv)<<1|1)
		w.fork(pending{dec: alt, model: m})
		w.dec = append(w.dec, dv<<1|1)
		w.addPC(lit)
	case Unsat:
		w.dec = append(w.dec, dv<<1)
	default:
		w.job.inconclusive("solver unknown on a branch" + w.where())
		w.dec = append(w.dec, dv<<1|1)
		w.addPC(lit)
	}
	return v
}

func (w *Worker) fork(p pending) {
	if w.job.Debug {
		w.forksAt[w.where()]++
	}
	w.local = append(w.local, p)
}

// choose picks 0..n-1 nondeterministically (a bounded symbolic variable, decided by forking).
func (w *Worker) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	v := w.freshVar(name, 32)
	w.inputs = append(w.inputs, inputVar{w.lastName, v, 32})
	var k int64
	if w.dpos < len(w.prefix) {
		k = w.prefix[w.dpos] >> 1
		w.dpos++
	} else {
		if len(w.local) < 1<<20 {
			for i := n - 1; i >= 1; i-- {
				m := make(map[string]uint64, len(w.model.vals)+1)
				for a, b := range w.model.vals {
					m[a] = b
				}
				m[v.name] = uint64(i)
				w.fork(pending{dec: append(append([]int64{}, w.dec...), int64(i)<<1|1), model: m})
			}
		}
		k = 0
		if w.model.vals[v.name] != 0 {
			m := make(map[string]uint64, len(w.model.vals)+1)
			for a, b := range w.model.vals {
				m[a] = b
			}
			m[v.name] = 0
			w.model = w.newModel(m)
		}
	}
	w.dec = append(w.dec, k<<1|1)
	w.addPC(w.tt.Eq(v, w.tt.Const(32, uint64(k))))
	return int(k)
}

func (w *Worker) freshVar(name string, width uint8) *Term {
	n := w.varCtr[name]
	w.varCtr[name] = n + 1
	full := name
	if n > 0 {
		full = fmt.Sprintf("%s#%d", name, n)
	}
	w.lastName = full
	return w.tt.Var(fmt.Sprintf("%s:%d", full, width), width)
}

// concInt turns a term into a concrete value within [lo,hi] by forking over its feasible values.
func (w *Worker) concInt(t *Term, lo, hi int64, why string) int64 {
	if t.isConst() {
		v := sext64(t.val, t.w)
		if v > hi && (why == "make len" || why == "make cap") {
			panic(pathEnd{"cut", fmt.Sprintf("%s %d exceeds the bound %d%s", why, v, hi, w.where())})
		}
		return v
	}
	tt := w.tt
	if w.dpos < len(w.prefix) {
		d := w.prefix[w.dpos]
		w.dpos++
		w.dec = append(w.dec, d)
		v := d >> 1
		if d&1 == 1 {
			w.addPC(tt.Eq(t, tt.Const(t.w, uint64(v))))
		}
		return v
	}
	w.job.tick(w)
	inRange := tt.And(tt.Sle(tt.Const(t.w, uint64(lo)), t), tt.Sle(t, tt.Const(t.w, uint64(hi))))
	if !inRange.isTrue() {
		// values outside are a stated bound of the exploration
		res, _ := w.check(tt.Not(inRange))
		if res != Unsat {
			w.job.cut(fmt.Sprintf("%s beyond %d%s", why, hi, w.where()))
		}
	}
	type alt struct {
		v int64
		m map[string]uint64
	}
	var alts []alt
	excl := inRange
	first := w.model.eval(inRange) == 1
	for len(alts) <= w.job.MaxConc {
		if first {
			first = false
			v := sext64(w.model.eval(t), t.w)
			alts = append(alts, alt{v, w.model.vals})
			excl = tt.And(excl, tt.Not(tt.Eq(t, tt.Const(t.w, uint64(v)))))
			continue
		}
		res, m := w.check(excl)
		if res == Unsat {
			break
		}
		if res == Unknown {
			w.job.inconclusive("solver unknown while enumerating" + w.where())
			break
		}
		mm := w.newModel(m)
		v := sext64(mm.eval(t), t.w)
		alts = append(alts, alt{v, m})
		excl = tt.And(excl, tt.Not(tt.Eq(t, tt.Const(t.w, uint64(v)))))
	}
	if len(alts) > w.job.MaxConc {
		w.job.cut(fmt.Sprintf("more than %d values for %s%s", w.job.MaxConc, why, w.where()))
	}
	if len(alts) == 0 {
		panic(pathEnd{"cut", why + " out of bound" + w.where()})
	}
	sort.Slice(alts, func(i, j int) bool { return alts[i].v < alts[j].v })
	if len(alts) == 1 && inRange.isTrue() {
		w.dec = append(w.dec, alts[0].v<<1)
		return alts[0].v
	}
	for i := len(alts) - 1; i >= 1; i-- {
		w.fork(pending{dec: append(append([]int64{}, w.dec...), alts[i].v<<1|1), model: alts[i].m})
	}
	a := alts[0]
	w.model = w.newModel(a.m)
	w.dec = append(w.dec, a.v<<1|1)
	w.addPC(tt.Eq(t, tt.Const(t.w, uint64(a.v))))
	return a.v
}

// pickValue makes a term concrete where an operation has no symbolic model: up to six of its feasible values
// are tried, each on a path of its own, and the exploration is marked incomplete.
func (w *Worker) pickValue(t *Term, why string) uint64 {
	if t.isConst() {
		return t.val
	}
	tt := w.tt
	if w.dpos+1 < len(w.prefix) {
		h, l := w.prefix[w.dpos], w.prefix[w.dpos+1]
		w.dpos += 2
		w.dec = append(w.dec, h, l)
		v := uint64(h>>1)<<32 | uint64(l>>1)
		w.addPC(tt.Eq(t, tt.Const(t.w, v)))
		return v
	}
	w.job.tick(w)
	w.job.unsupported("only some values tried: " + why + w.where())
	first := w.model.eval(t)
	excl := tt.Not(tt.Eq(t, tt.Const(t.w, first)))
	for i := 0; i < 5; i++ {
		res, m := w.check(excl)
		if res != Sat {
			break
		}
		v := w.newModel(m).eval(t)
		w.fork(pending{dec: append(append([]int64{}, w.dec...), int64(v>>32)<<1|1, int64(v&0xffffffff)<<1|1), model: m})
		excl = tt.And(excl, tt.Not(tt.Eq(t, tt.Const(t.w, v))))
	}
	w.dec = append(w.dec, int64(first>>32)<<1|1, int64(first&0xffffffff)<<1|1)
	w.addPC(tt.Eq(t, tt.Const(t.w, first)))
	return first
}

func (w *Worker) assume(c *Term) {
	if c.isTrue() {
		return
	}
	w.flushAsserts()
	if c.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	if w.dpos < len(w.prefix) {
		// assumption already checked when this prefix was first explored
		w.addPC(c)
		return
	}
	if w.model.eval(c) == 1 {
		w.addPC(c)
		return
	}
	res, m := w.check(c)
	switch res {
	case Sat:
		w.addPC(c)
		w.model = w.newModel(m)
	case Unsat:
		panic(pathEnd{"assume", ""})
	default:
		w.job.inconclusive("solver unknown on an assumption" + w.where())
		panic(pathEnd{"assume", ""})
	}
}

func (w *Worker) assert(c *Term, label string) {
	w.job.noteAssert(label)
	if c.isTrue() {
		return
	}
	w.asserts = append(w.asserts, pendAssert{c, label, w.where()})
	if c.isFalse() || len(w.asserts) >= 40 {
		w.flushAsserts()
	}
}

// flushAsserts decides all pending assertions under the current path condition.
func (w *Worker) flushAsserts() {
	if len(w.asserts) == 0 {
		return
	}
	as := w.asserts
	w.asserts = nil
	if w.dpos < len(w.prefix) {
		return // this flush was done, under the same path condition, by the path this one forked from
	}
	all := w.tt.True
	var rest []pendAssert
	for _, a := range as {
		if w.pcSet[a.c] {
			continue
		}
		if w.cachedUnsat(w.tt.Not(a.c)) {
			continue
		}
		if w.model.eval(a.c) == 0 {
			w.violation(a, w.model.vals)
			continue
		}
		rest = append(rest, a)
		all = w.tt.And(all, a.c)
	}
	if len(rest) == 0 {
		return
	}
	if all.isTrue() {
		return
	}
	w.job.tick(w)
	res, m := w.check(w.tt.Not(all))
	if res == Unsat {
		for _, a := range rest {
			w.cacheUnsat(w.tt.Not(a.c))
		}
		return
	}
	if len(rest) == 1 {
		if res == Sat {
			w.violation(rest[0], m)
		} else {
			w.job.inconclusive("solver unknown on assertion " + rest[0].label)
		}
		return
	}
	for _, a := range rest {
		res, m := w.check(w.tt.Not(a.c))
		switch res {
		case Sat:
			w.violation(a, m)
		case Unknown:
			w.job.inconclusive("solver unknown on assertion " + a.label)
		}
	}
}

func (w *Worker) inputVals(m map[string]uint64) map[string]uint64 {
	r := map[string]uint64{}
	for _, i := range w.inputs {
		r[i.name] = m[i.t.name] & mask(i.w)
	}
	return r
}

func (w *Worker) violation(a pendAssert, m map[string]uint64) {
	w.violated = true
	w.job.addViolation(Violation{Harness: w.job.Harness, Params: w.job.Params, Label: a.label, Where: strings.TrimSpace(a.where), Inputs: w.inputVals(m), Kind: "assert"})
}

// runPath explores one path to its end.
func (w *Worker) runPath(p pending) {
	if len(w.tt.byID) > 2_500_000 {
		w.reset()
	}
	w.startPath(p)
	end := w.runPathInner()
	switch end.kind {
	case "crash":
		w.flushAsserts()
		w.job.noteAssert("no-crash")
		w.job.addViolation(Violation{Harness: w.job.Harness, Params: w.job.Params, Label: "no-crash", Where: end.msg, Inputs: w.inputVals(w.model.vals), Kind: "crash"})
	case "deadlock":
		w.flushAsserts()
		w.job.noteAssert("no-deadlock")
		w.job.addViolation(Violation{Harness: w.job.Harness, Params: w.job.Params, Label: "no-deadlock", Where: end.msg, Inputs: w.inputVals(w.model.vals), Kind: "deadlock"})
	case "limit":
		w.flushAsserts()
		w.job.limit(end.msg, w.inputVals(w.model.vals))
	case "unsupported":
		w.flushAsserts()
		w.job.unsupportedPath(end.msg, w.inputVals(w.model.vals))
	case "cut":
		w.flushAsserts()
		w.job.cut(end.msg)
	case "done":
		w.flushAsserts()
	}
	w.job.pathDone(w, end)
}

func (w *Worker) runPathInner() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x
			case goPanicSig:
				end = pathEnd{"crash", w.panicString(x.val)}
			case needInit:
				end = pathEnd{"unsupported", "init of " + x.pkg.Pkg.Path() + " needed in engine context"}
			default:
				if w.job.Debug {
					panic(r)
				}
				end = pathEnd{"unsupported", fmt.Sprintf("engine: %v%s", r, w.where())}
			}
		}
	}()
	if !w.job.Deadline.IsZero() && time.Now().After(w.job.Deadline) {
		return pathEnd{"time", "time budget"}
	}
	for _, pkg := range w.eng.initOrder() {
		w.markInit(pkg)
		w.callTop(pkg.Func("init"))
	}
	fn := w.eng.harness.Func(w.job.Harness)
	if fn == nil {
		return pathEnd{"unsupported", "no harness " + w.job.Harness}
	}
	main := w.spawn(fn, nil, nil)
	w.schedule(main)
	return pathEnd{"done", ""}
}

func (w *Worker) callTop(fn *ssa.Function) {
	g := &G{id: -1}
	w.push(g, w.newFrame(w.info(fn), nil, nil))
	for !g.done {
		if g.ready != nil {
			w.unsupported("init blocks")
		}
		w.run(g, 1<<40)
	}
}
