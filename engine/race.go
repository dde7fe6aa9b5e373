package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Data races: every access of the library to memory shared by goroutines is checked against
// the earlier conflicting accesses with vector clocks (happens-before as the Go memory model
// has it). The verdict does not depend on which of the two accesses the explored schedule
// runs first, so few schedules cover many.

type vclock []int32

func (v vclock) at(id int) int32 {
	if id < len(v) {
		return v[id]
	}
	return 0
}

func (v *vclock) set(id int, n int32) {
	for len(*v) <= id {
		*v = append(*v, 0)
	}
	(*v)[id] = n
}

func (v *vclock) join(o vclock) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v vclock) clone() vclock { return append(vclock{}, v...) }

type epoch struct {
	g   int
	clk int32
	at  *cinstr
	fn  *ssa.Function
}

type shadow struct {
	wr    epoch
	hasW  bool
	reads []epoch
}

// syncVar is what a mutex, an atomic cell or a wait group hands from one goroutine to the next.
type syncVar struct {
	vc  vclock // released by writers
	rvc vclock // released by readers (RWMutex)
}

func (w *Worker) syncOf(p Ptr) *syncVar {
	s := w.syncs[p]
	if s == nil {
		s = &syncVar{}
		w.syncs[p] = s
	}
	return s
}

func (w *Worker) raceOn(g *G) bool { return w.opts.Race && g != nil && g.id >= 0 }

func (g *G) tick() { g.vc.set(g.id, g.vc.at(g.id)+1) }

func (w *Worker) hbAcquire(g *G, p Ptr) {
	if w.raceOn(g) {
		g.vc.join(w.syncOf(p).vc)
	}
}

func (w *Worker) hbAcquireAll(g *G, p Ptr) {
	if w.raceOn(g) {
		s := w.syncOf(p)
		g.vc.join(s.vc)
		g.vc.join(s.rvc)
	}
}

func (w *Worker) hbRelease(g *G, p Ptr) {
	if w.raceOn(g) {
		w.syncOf(p).vc.join(g.vc)
		g.tick()
	}
}

func (w *Worker) hbReleaseRead(g *G, p Ptr) {
	if w.raceOn(g) {
		w.syncOf(p).rvc.join(g.vc)
		g.tick()
	}
}

func (w *Worker) hbAtomic(g *G, p Ptr) {
	if w.raceOn(g) {
		s := w.syncOf(p)
		g.vc.join(s.vc)
		s.vc.join(g.vc)
		g.tick()
	}
}

// hbMeet: a goroutine completes an operation the other one was blocked in.
func (w *Worker) hbMeet(a, b *G) {
	if w.raceOn(a) && w.raceOn(b) {
		a.vc.join(b.vc)
		b.vc.join(a.vc)
		a.tick()
		b.tick()
	}
}

func (w *Worker) hbBufSend(g *G, ch *Chan) {
	if w.raceOn(g) {
		g.vc.join(ch.rvc)
		ch.svc.join(g.vc)
		g.tick()
	}
}

func (w *Worker) hbBufRecv(g *G, ch *Chan) {
	if w.raceOn(g) {
		g.vc.join(ch.svc)
		ch.rvc.join(g.vc)
		g.tick()
	}
}

func (w *Worker) hbSpawn(g *G) {
	if !w.opts.Race {
		return
	}
	var p vclock
	if w.timerVC != nil {
		p = w.timerVC
	} else if w.cur != nil && w.cur.id >= 0 {
		p = w.cur.vc
		defer w.cur.tick()
	}
	g.vc = p.clone()
	g.tick()
}

// raceFn tells whether accesses made by a function count: the library's own functions, and
// the containers of the standard library it hands its memory to.
func raceFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return false
	}
	p := fn.Pkg.Pkg.Path()
	switch p {
	case "bytes", "container/list", "container/heap", "container/ring", "maps", "slices", "sort", "bufio":
		return true
	}
	return strings.HasPrefix(p, repoPath)
}

func (w *Worker) tracks(g *G, f *Frame) bool {
	return w.opts.Race && w.nextG > 1 && g.id >= 0 && f.info.track
}

func (w *Worker) touch(g *G, f *Frame, ci *cinstr, p Ptr, write bool) {
	switch x := (*p).(type) {
	case Struct:
		for i := range x {
			w.touch(g, f, ci, &x[i], write)
		}
		return
	case Array:
		for i := range x {
			w.touch(g, f, ci, &x[i], write)
		}
		return
	}
	if w.opts.Freeze > 0 && g.held <= 0 && w.eng.changes(ci.ins) {
		g.bare = true
	}
	s := w.shadows[p]
	if s == nil {
		s = &shadow{}
		w.shadows[p] = s
	}
	w.touchSh(g, f, ci, s, write, "")
}

func (w *Worker) touchMap(g *G, f *Frame, ci *cinstr, m *MapObj, write bool) {
	if m == nil {
		return
	}
	if w.opts.Freeze > 0 && g.held <= 0 {
		g.bare = true
	}
	if m.sh == nil {
		m.sh = &shadow{}
	}
	w.touchSh(g, f, ci, m.sh, write, "map ")
}

func (w *Worker) touchSh(g *G, f *Frame, ci *cinstr, s *shadow, write bool, what string) {
	me := epoch{g.id, g.vc.at(g.id), ci, f.info.fn}
	if s.hasW && s.wr.g != g.id && s.wr.clk > g.vc.at(s.wr.g) {
		w.race(what, s.wr, true, me, write)
	}
	if !write {
		for i := range s.reads {
			if s.reads[i].g == g.id {
				s.reads[i] = me
				return
			}
		}
		s.reads = append(s.reads, me)
		return
	}
	for _, r := range s.reads {
		if r.g != g.id && r.clk > g.vc.at(r.g) {
			w.race(what, r, false, me, true)
		}
	}
	s.reads = s.reads[:0]
	s.wr, s.hasW = me, true
}

func (e epoch) String() string {
	pos := e.fn.Prog.Fset.Position(e.at.ins.Pos())
	fn := pos.Filename
	if k := strings.LastIndexByte(fn, '/'); k >= 0 {
		fn = fn[k+1:]
	}
	n := e.fn.String()
	if k := strings.LastIndexByte(n, '/'); k >= 0 {
		n = n[k+1:]
	}
	return fmt.Sprintf("%s(%s:%d)", n, fn, pos.Line)
}

func (w *Worker) race(what string, a epoch, aw bool, b epoch, bw bool) {
	rw := func(x bool) string {
		if x {
			return "write"
		}
		return "read"
	}
	s := fmt.Sprintf("%s%s in %s, %s in %s", what, rw(aw), a, rw(bw), b)
	if w.raced[s] {
		return
	}
	w.raced[s] = true
	w.flushAsserts()
	w.violated = true
	w.job.addViolation(Violation{Harness: w.job.Harness, Params: w.job.Params, Label: "no-data-race", Where: s, Inputs: w.inputVals(w.model.vals), Kind: "race"})
}

// builtinFrame is the frame of a tracked function that calls a builtin, or nil.
func (w *Worker) builtinFrame(g *G, ci *cinstr) *Frame {
	if !w.opts.Race || g == nil || ci == nil || len(g.fr) == 0 {
		return nil
	}
	if f := g.top(); w.tracks(g, f) {
		return f
	}
	return nil
}

// builtinTouch records what delete, clear, append and copy read and write.
func (w *Worker) builtinTouch(g *G, ci *cinstr, m *MapObj, wr, rd []Value) {
	f := w.builtinFrame(g, ci)
	if f == nil {
		return
	}
	if m != nil {
		w.touchMap(g, f, ci, m, true)
	}
	for i := range rd {
		w.touch(g, f, ci, &rd[i], false)
	}
	for i := range wr {
		w.touch(g, f, ci, &wr[i], true)
	}
}

// freezePoint offers to stop a goroutine that touched memory without a lock, before its next
// synchronisation, until nothing else can run: what others do to the memory meanwhile is then
// not ordered by the goroutine's later synchronisation.
func (w *Worker) freezePoint(g *G) bool {
	if w.resumed == g || !g.bare {
		g.bare = false
		return false
	}
	g.bare = false
	if n := len(w.covers); !w.opts.FreezeAny && (n == 0 || w.covers[n-1] != "at-once") { // harnesses say when
		return false
	}
	if w.freezes >= w.opts.Freeze || g.id < 0 || w.choose("freeze", 2) == 0 {
		return false
	}
	w.freezes++
	g.frozen = true
	w.resume[g] = true
	w.yieldNow = true
	return true
}

// changes tells whether an instruction accesses a field that the library writes outside the
// function that creates the value.
func (e *Engine) changes(ins ssa.Instruction) bool {
	e.mutOnce.Do(func() {
		e.mutable = map[*types.Var]bool{}
		for path, p := range e.pkgs {
			if !strings.HasPrefix(path, repoPath) {
				continue
			}
			p.Build()
		}
		for fn := range ssautil.AllFunctions(e.prog) {
			if !raceFn(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if st, ok := i.(*ssa.Store); ok {
						if v, fresh := fieldOf(st.Addr); v != nil && !fresh {
							e.mutable[v] = true
						}
					}
				}
			}
		}
	})
	switch x := ins.(type) {
	case *ssa.UnOp:
		v, _ := fieldOf(x.X)
		return v != nil && e.mutable[v]
	case *ssa.Store:
		v, fresh := fieldOf(x.Addr)
		return v != nil && !fresh
	}
	return false
}

func fieldOf(a ssa.Value) (*types.Var, bool) {
	f, ok := a.(*ssa.FieldAddr)
	if !ok {
		return nil, false
	}
	base := f.X
	for {
		if g, ok := base.(*ssa.FieldAddr); ok {
			base = g.X
			continue
		}
		break
	}
	_, fresh := base.(*ssa.Alloc)
	t := f.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	return t.Field(f.Field), fresh
}
