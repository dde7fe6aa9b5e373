package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Chan struct {
	buf    []Value
	capn   int
	recvq  []*sudog
	sendq  []*sudog
	closed bool
	id     int
	svc    vclock // released by senders
	rvc    vclock // released by receivers
}

type sudog struct {
	g    *G
	val  Value
	ok   bool
	sel  *selState
	idx  int
	done bool
}

type selState struct{ fired bool }

func (s *sudog) stale() bool { return s.done || (s.sel != nil && s.sel.fired) }

func deq(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		s := (*q)[0]
		*q = (*q)[1:]
		if !s.stale() {
			return s
		}
	}
	return nil
}

func (s *sudog) complete(v Value, ok bool) {
	s.val, s.ok, s.done = v, ok, true
	if s.sel != nil {
		s.sel.fired = true
	}
	s.g.wake = s
	s.g.ready = func() bool { return true }
}

func (w *Worker) nextChan() int { w.chanCtr++; return w.chanCtr }

func (w *Worker) block(g *G, why string, ready func() bool) {
	g.waitFor = why
	g.ready = ready
}

func never() bool { return false }

// tryRecv: returns value, ok, done
func (w *Worker) tryRecv(g *G, ch *Chan) (Value, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value{}, ch.buf[1:]...)
		w.hbBufRecv(g, ch)
		if s := deq(&ch.sendq); s != nil {
			ch.buf = append(ch.buf, s.val)
			w.hbBufSend(s.g, ch)
			s.complete(nil, true)
		}
		return v, true, true
	}
	if s := deq(&ch.sendq); s != nil {
		v := s.val
		w.hbMeet(g, s.g)
		s.complete(nil, true)
		return v, true, true
	}
	if ch.closed {
		w.hbBufRecv(g, ch)
		return nil, false, true
	}
	return nil, false, false
}

func (w *Worker) trySend(g *G, ch *Chan, v Value) bool {
	if ch.closed {
		w.panicWhere = ""
		w.goPanic("send on closed channel")
	}
	if s := deq(&ch.recvq); s != nil {
		w.hbMeet(g, s.g)
		s.complete(v, true)
		return true
	}
	if len(ch.buf) < ch.capn {
		w.hbBufSend(g, ch)
		ch.buf = append(ch.buf, v)
		return true
	}
	return false
}

func (w *Worker) chanRecv(g *G, ch *Chan) (v Value, ok bool, blocked bool) {
	if g.wake != nil {
		s := g.wake
		g.wake = nil
		return s.val, s.ok, false
	}
	if ch == nil {
		w.block(g, "recv on nil chan", never)
		return nil, false, true
	}
	if w.schedPoint(g) {
		return nil, false, true
	}
	if v, ok, done := w.tryRecv(g, ch); done {
		return v, ok, false
	}
	s := &sudog{g: g}
	ch.recvq = append(ch.recvq, s)
	w.block(g, "chan recv", never)
	return nil, false, true
}

func (w *Worker) chanSend(g *G, ch *Chan, v Value) (blocked bool) {
	if g.wake != nil {
		s := g.wake
		g.wake = nil
		if !s.ok {
			w.goPanic("send on closed channel")
		}
		return false
	}
	if ch == nil {
		w.block(g, "send on nil chan", never)
		return true
	}
	if w.schedPoint(g) {
		return true
	}
	if w.trySend(g, ch, v) {
		return false
	}
	s := &sudog{g: g, val: v}
	ch.sendq = append(ch.sendq, s)
	w.block(g, "chan send", never)
	return true
}

func (w *Worker) chanClose(g *G, ch *Chan) {
	if ch == nil {
		w.goPanic("close of nil channel")
	}
	if ch.closed {
		w.goPanic("close of closed channel")
	}
	ch.closed = true
	w.hbBufSend(g, ch)
	for {
		s := deq(&ch.recvq)
		if s == nil {
			break
		}
		w.hbMeet(s.g, g)
		s.complete(nil, false)
	}
	for {
		s := deq(&ch.sendq)
		if s == nil {
			break
		}
		w.hbMeet(s.g, g)
		s.complete(nil, false)
	}
}

func (w *Worker) doSelect(g *G, f *Frame, ci *cinstr, ins *ssa.Select) bool {
	// operand order: for each state Chan, Send(if any)
	type st struct {
		ch   *Chan
		val  Value
		send bool
		et   types.Type
	}
	sts := make([]st, len(ins.States))
	k := 0
	for i, s := range ins.States {
		c, _ := w.get(f, &ci.op[k]).(*Chan)
		k++
		sts[i] = st{ch: c, send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if s.Send != nil {
			sts[i].val = copyVal(w.get(f, &ci.op[k]))
		}
		k++ // Operands always lists Send (possibly nil)
	}
	finish := func(idx int, v Value, ok bool) bool {
		t := Tuple{w.tt.Const(64, uint64(int64(idx))), w.tt.Bool(ok)}
		for i, s := range sts {
			if s.send {
				continue
			}
			if i == idx && v != nil {
				t = append(t, v)
			} else {
				t = append(t, w.zero(s.et))
			}
		}
		f.regs[ci.dst] = t
		f.pc++
		return true
	}
	if g.wake != nil {
		s := g.wake
		g.wake = nil
		if sts[s.idx].send && !s.ok {
			w.goPanic("send on closed channel")
		}
		return finish(s.idx, s.val, s.ok)
	}
	if w.schedPoint(g) {
		return false
	}
	var ready []int
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		if s.send {
			live := false
			for _, q := range s.ch.recvq {
				if !q.stale() {
					live = true
				}
			}
			if s.ch.closed || live || len(s.ch.buf) < s.ch.capn {
				ready = append(ready, i)
			}
		} else {
			live := false
			for _, q := range s.ch.sendq {
				if !q.stale() {
					live = true
				}
			}
			if s.ch.closed || live || len(s.ch.buf) > 0 {
				ready = append(ready, i)
			}
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && w.opts.Sched {
			k = w.choose("select", len(ready))
		}
		i := ready[k]
		if sts[i].send {
			w.trySend(g, sts[i].ch, sts[i].val)
			return finish(i, nil, false)
		}
		v, ok, _ := w.tryRecv(g, sts[i].ch)
		return finish(i, v, ok)
	}
	if !ins.Blocking {
		return finish(-1, nil, false)
	}
	sel := &selState{}
	any := false
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		any = true
		sd := &sudog{g: g, sel: sel, idx: i, val: s.val}
		if s.send {
			s.ch.sendq = append(s.ch.sendq, sd)
		} else {
			s.ch.recvq = append(s.ch.recvq, sd)
		}
	}
	_ = any
	w.block(g, "select", never)
	return false
}

// ---- timers

type timer struct {
	when   int64
	seq    int
	fire   func()
	active bool
	period int64
	vc     vclock
}

func (w *Worker) addTimer(d int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	t := &timer{when: w.now + d, seq: w.timerSeq, fire: fire, active: true}
	w.timerSeq++
	if w.opts.Race && w.cur != nil {
		t.vc = w.cur.vc.clone()
		if w.cur.id >= 0 {
			w.cur.tick()
		}
	}
	w.timers = append(w.timers, t)
	return t
}

func (w *Worker) nextTimer() *timer {
	var best *timer
	j := 0
	for _, t := range w.timers {
		if !t.active {
			continue
		}
		w.timers[j] = t
		j++
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	w.timers = w.timers[:j]
	return best
}

func (w *Worker) fireTimer(t *timer) {
	if t.when > w.now {
		w.now = t.when
	}
	if t.period > 0 {
		t.when += t.period
		t.seq = w.timerSeq
		w.timerSeq++
	} else {
		t.active = false
	}
	w.timerVC = t.vc
	t.fire()
	w.timerVC = nil
}

// ---- scheduler

// schedPoint offers the scheduler a chance to preempt g. true: g must retry the instruction later.
func (w *Worker) schedPoint(g *G) bool {
	if !w.opts.Sched {
		return false
	}
	if g.steps == w.steps { // resumed at this very point: do not ask again
	}
	if w.resumed == g {
		w.resumed = nil
		return false
	}
	if w.preempts >= w.opts.Preempt {
		return false
	}
	var others []*G
	for _, o := range w.gs {
		if o != g && !o.done && !o.frozen && (o.ready == nil || o.ready()) {
			others = append(others, o)
		}
	}
	nt := 0
	var tm *timer
	if w.opts.TimerRace {
		if tm = w.nextTimer(); tm != nil {
			nt = 1
		}
	}
	if len(others)+nt == 0 {
		return false
	}
	k := w.choose("sched", 1+len(others)+nt)
	if k == 0 {
		return false
	}
	w.preempts++
	if k-1 < len(others) {
		w.forceNext = others[k-1]
	} else {
		w.fireTimer(tm)
	}
	w.resume[g] = true
	w.yieldNow = true
	return true
}

// preemptPoint is called before calls; only synchronisation intrinsics are preemption points.
func (w *Worker) preemptPoint(g *G, f *Frame, ci *cinstr) bool {
	if !w.opts.Sched || ci.ov == nil || !ci.ov.sync {
		return false
	}
	if w.opts.Freeze > 0 && w.freezePoint(g) {
		return true
	}
	return w.schedPoint(g)
}

func (w *Worker) pick() *G {
	if n := w.forceNext; n != nil {
		w.forceNext = nil
		if !n.done && (n.ready == nil || n.ready()) {
			return n
		}
	}
	var cand []*G
	n := len(w.gs)
	j := 0
	for _, g := range w.gs {
		if !g.done {
			w.gs[j] = g
			j++
		}
	}
	w.gs = w.gs[:j]
	n = j
	start := 0
	for i, g := range w.gs {
		if g.id > w.lastG {
			start = i
			break
		}
	}
	for i := 0; i < n; i++ {
		g := w.gs[(start+i)%n]
		if g.frozen {
			continue
		}
		if g.ready == nil || g.ready() {
			if !w.opts.Sched {
				return g
			}
			cand = append(cand, g)
		}
	}
	if len(cand) == 0 {
		for _, g := range w.gs {
			if g.frozen {
				g.frozen = false
				return g
			}
		}
		return nil
	}
	if len(cand) > 1 && w.switches < w.opts.Switches {
		w.switches++
		return cand[w.choose("pick", len(cand))]
	}
	return cand[0]
}

// schedule runs goroutines until the main one is done.
func (w *Worker) schedule(main *G) {
	for !main.done {
		g := w.pick()
		if g == nil {
			t := w.nextTimer()
			if t == nil {
				panic(pathEnd{"deadlock", w.deadlockInfo()})
			}
			if t.when > w.maxTime {
				panic(pathEnd{"limit", fmt.Sprintf("virtual time limit, %s", w.deadlockInfo())})
			}
			w.fireTimer(t)
			continue
		}
		g.ready = nil
		w.lastG = g.id
		if w.resume[g] {
			delete(w.resume, g)
			w.resumed = g
		} else {
			w.resumed = nil
		}
		w.run(g, 50000)
	}
}

func (w *Worker) deadlockInfo() string {
	s := "all goroutines blocked:"
	for _, g := range w.gs {
		if !g.done {
			w.cur = g
			s += fmt.Sprintf(" [g%d %s%s]", g.id, g.waitFor, w.where())
		}
	}
	w.cur = nil
	return s
}

var _ = token.ADD
