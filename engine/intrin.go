package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nativeFn func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool)

var natives map[string]nativeFn
var syncPoints = map[string]bool{}

// modelOf maps functions of the standard library (or dependencies) to Go models in verif/harness/models.
var modelOf = map[string]string{
	"fmt.Sprintf": "Sprintf", "fmt.Errorf": "Errorf", "fmt.Sprint": "Sprint", "fmt.Sprintln": "Sprintln",
	"fmt.Fprintf": "Fprintf", "fmt.Fprintln": "Fprintln", "fmt.Fprint": "Fprint",
	"errors.Is": "ErrorsIs", "errors.As": "ErrorsAs", "errors.Unwrap": "ErrorsUnwrap", "errors.Join": "ErrorsJoin",
	"sort.Slice": "SortSlice", "sort.SliceStable": "SortSlice", "sort.Sort": "SortSort", "sort.Stable": "SortSort",
	"(*sync.Once).Do": "OnceDo", "(*sync.Once).doSlow": "OnceDo",
	"(*sync.Pool).Get": "PoolGet", "(*sync.Pool).Put": "PoolPut",
	"(*sync.Map).Load": "MapLoad", "(*sync.Map).Store": "MapStore", "(*sync.Map).LoadOrStore": "MapLoadOrStore", "(*sync.Map).LoadAndDelete": "MapLoadAndDelete", "(*sync.Map).Delete": "MapDelete", "(*sync.Map).Range": "MapRange", "(*sync.Map).Clear": "MapClear",
	"(*sync.Map).CompareAndSwap": "MapCAS", "(*sync.Map).Swap": "MapSwap",
	"(*sync.WaitGroup).Go": "WgGo",
	"strings.Index":        "StringsIndex", "strings.IndexAny": "StringsIndexAny", "strings.ContainsRune": "StringsContainsRune", "strings.LastIndex": "StringsLastIndex", "strings.Count": "StringsCount", "strings.EqualFold": "EqualFold",
	"bytes.Index": "BytesIndex", "bytes.IndexByte": "IndexByte", "bytes.Equal": "BytesEqual", "bytes.Compare": "BytesCompare",
	"internal/bytealg.IndexByte": "IndexByte", "internal/bytealg.IndexByteString": "IndexByteString", "internal/bytealg.Equal": "BytesEqual",
	"internal/bytealg.Compare": "BytesCompare", "internal/bytealg.CompareString": "StringsCompare", "internal/bytealg.CountString": "CountString", "internal/bytealg.Count": "CountBytes",
	"internal/bytealg.LastIndexByteString": "LastIndexByteString", "internal/bytealg.LastIndexByte": "LastIndexByte", "internal/bytealg.IndexString": "StringsIndex", "internal/bytealg.Index": "BytesIndex",
	"internal/stringslite.IndexByte": "IndexByteString", "internal/stringslite.Index": "StringsIndex",
	"strings.Compare": "StringsCompare", "cmp.Compare[string]": "StringsCompare",
	"(*strings.Builder).String": "BuilderString", "(*strings.Builder).Grow": "BuilderGrow",
	"net.Dial": "NetDial", "net.DialTimeout": "NetDialTimeout", "net.Listen": "NetListen", "(*net.Dialer).Dial": "DialerDial", "(*net.Dialer).DialContext": "DialerDialContext",
	"net.JoinHostPort":     "JoinHostPort",
	"(*net.OpError).Error": "OpErrorError",
	"io.ReadAll":           "", // source
	"(*github.com/looplab/fsm.FSM).AvailableTransitions": "",
	"context.contextName":                                "ContextName",
	"(*sync.Cond).Wait":                                  "CondWait", "(*sync.Cond).Signal": "CondSignal", "(*sync.Cond).Broadcast": "CondBroadcast", "sync.NewCond": "",
	"math.Max": "MathMax", "math.Min": "MathMin", "math.Floor": "MathFloor", "math.Ceil": "MathCeil", "math.Trunc": "MathTrunc",
	"time.AfterFunc": "", "time.initLocal": "Nop0",
	"regexp.MustCompile": "",
}

func (e *Engine) overrideFor(fn *ssa.Function) *override {
	e.mu.RLock()
	o, ok := e.ovCache[fn]
	e.mu.RUnlock()
	if ok {
		return o
	}
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	var r *override
	if n, ok := natives[name]; ok {
		r = &override{native: n, sync: syncPoints[name]}
	} else if m, ok := modelOf[name]; ok && m != "" {
		mf := e.models.Func(m)
		if mf == nil {
			fmt.Fprintln(os.Stderr, "missing model", m)
		} else if mf != fn {
			r = &override{model: mf}
		}
	} else {
		p := pkgPathOf(fn)
		switch {
		case fn.Name() == "init" && fn.Synthetic == "package initializer":
			// imported packages are initialised separately
			r = &override{native: nop(nil)}
		case p == "log" || strings.HasPrefix(p, "log/") || strings.HasPrefix(p, "go.uber.org/zap") || strings.HasPrefix(p, "gopkg.in/natefinch"):
			if fn.Signature.Results().Len() == 0 {
				r = &override{native: nop(nil)}
			} else {
				r = &override{native: zeroResult(fn)}
			}
		case p == "internal/race" || p == "internal/msan" || p == "internal/asan":
			r = &override{native: zeroResult(fn)}
		}
	}
	e.mu.Lock()
	e.ovCache[fn] = r
	e.mu.Unlock()
	return r
}

func nop(v Value) nativeFn {
	return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return v, true }
}

func zeroResult(fn *ssa.Function) nativeFn {
	res := fn.Signature.Results()
	return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		switch res.Len() {
		case 0:
			return nil, true
		case 1:
			t := res.At(0).Type()
			if p, ok := t.Underlying().(*types.Pointer); ok {
				// a usable dummy object
				c := new(Value)
				*c = w.zero(p.Elem())
				return Ptr(c), true
			}
			return w.zero(t), true
		}
		return w.zero(res), true
	}
}

func (e *Engine) globalOverride(w *Worker, g *ssa.Global) (Value, bool) {
	switch g.String() {
	case "net.ErrClosed", "os.ErrDeadlineExceeded", "io/fs.ErrClosed", "io/fs.ErrNotExist", "os.ErrNotExist", "os.ErrClosed":
		if t := e.models.Type("ErrString"); t != nil {
			return Iface{t: e.canon(t.Type()), v: Str{s: g.String()}}, true
		}
	case "os.Stdout", "os.Stderr", "os.Stdin":
		c := new(Value)
		*c = w.zero(deref(deref(g.Type())))
		return Ptr(c), true
	}
	return nil, false
}

// ---- mutexes and friends (state kept on the side, keyed by address)

type mutexState struct {
	locked        bool
	readers       int
	writerWaiting int
}

type wgState struct{ n int64 }

func (w *Worker) mtx(p Ptr) *mutexState {
	if s, ok := w.side[p]; ok {
		return s.(*mutexState)
	}
	s := &mutexState{}
	w.side[p] = s
	return s
}

func lockFn(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	m := w.mtx(w.ptr(a[0]))
	if m.locked || m.readers > 0 {
		w.block(g, "mutex", func() bool { return !m.locked && m.readers == 0 })
		return nil, false
	}
	m.locked = true
	w.hbAcquireAll(g, w.ptr(a[0]))
	g.held++
	return nil, true
}
func unlockFn(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	m := w.mtx(w.ptr(a[0]))
	if !m.locked {
		panic(pathEnd{"crash", "fatal error: sync: unlock of unlocked mutex" + w.where()})
	}
	m.locked = false
	w.hbRelease(g, w.ptr(a[0]))
	g.held--
	return nil, true
}
func rlockFn(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	m := w.mtx(w.ptr(a[0]))
	if m.locked {
		w.block(g, "rwmutex", func() bool { return !m.locked })
		return nil, false
	}
	m.readers++
	w.hbAcquire(g, w.ptr(a[0]))
	g.held++
	return nil, true
}
func runlockFn(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	m := w.mtx(w.ptr(a[0]))
	if m.readers == 0 {
		panic(pathEnd{"crash", "fatal error: sync: RUnlock of unlocked RWMutex" + w.where()})
	}
	m.readers--
	w.hbReleaseRead(g, w.ptr(a[0]))
	g.held--
	return nil, true
}
func tryLockFn(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	m := w.mtx(w.ptr(a[0]))
	if m.locked || m.readers > 0 {
		return w.tt.False, true
	}
	m.locked = true
	w.hbAcquireAll(g, w.ptr(a[0]))
	g.held++
	return w.tt.True, true
}

func (w *Worker) wg(p Ptr) *wgState {
	if s, ok := w.side[p]; ok {
		return s.(*wgState)
	}
	s := &wgState{}
	w.side[p] = s
	return s
}

// ---- time

const timeEpoch = 1700000000 // virtual wall clock at path start, seconds since 1970

func (w *Worker) timeVal(ns int64) Value {
	t := w.eng.pkgs["time"].Type("Time").Type()
	s := w.zero(t).(Struct)
	sec := timeEpoch + ns/1e9
	nsec := ns % 1e9
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	s[0] = w.tt.Const(64, uint64(nsec))
	s[1] = w.tt.Const(64, uint64(sec+unixToInternal))
	return s
}

func (w *Worker) timerChanSend(ch *Chan) func() {
	return func() {
		if s := deq(&ch.recvq); s != nil {
			s.complete(w.timeVal(w.now), true)
			return
		}
		if len(ch.buf) < ch.capn {
			ch.buf = append(ch.buf, w.timeVal(w.now))
		}
	}
}

func (w *Worker) concDur(v Value) int64 {
	t := w.tm(v)
	if t.isConst() {
		return int64(t.val)
	}
	// a symbolic duration: the harness must bound it to few values
	return w.concInt(t, math.MinInt64/2, math.MaxInt64/2, "duration")
}

type wtimer struct {
	t  *timer
	ch *Chan
	fn Value
}

func (w *Worker) newTimerObj(tn string, ch *Chan, t *timer, fn Value) Value {
	ty := w.eng.pkgs["time"].Type(tn).Type()
	p := new(Value)
	s := w.zero(ty).(Struct)
	if ch != nil {
		s[0] = ch
	}
	*p = s
	w.side[p] = &wtimer{t, ch, fn}
	return Ptr(p)
}

func (w *Worker) spawnCall(fn Value) func() {
	return func() {
		var ov *override
		switch x := fn.(type) {
		case *ssa.Function:
			ov = w.eng.overrideFor(x)
		case *Closure:
			ov = w.eng.overrideFor(x.fn)
		}
		w.spawn(fn, nil, ov)
	}
}

// ---- nondeterminism

func (w *Worker) constStr(v Value) string {
	s := w.str(v)
	if s.lazy != nil {
		s = w.force(s)
	}
	if s.b != nil {
		b := make([]byte, len(s.b))
		for i, t := range s.b {
			b[i] = byte(w.pickValue(t, "string content"))
		}
		return string(b)
	}
	return s.s
}

func (w *Worker) input(name string, width uint8) *Term {
	v := w.freshVar(name, width)
	w.inputs = append(w.inputs, inputVar{w.lastName, v, width})
	return v
}

func (w *Worker) constInt(v Value) int64 {
	t := w.tm(v)
	if !t.isConst() {
		return sext64(w.pickValue(t, "integer"), t.w)
	}
	return sext64(t.val, t.w)
}

func nondet(width uint8) nativeFn {
	return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.input(w.constStr(a[0]), width), true
	}
}

// ---- atomics

func atomicLoad(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	w.hbAtomic(g, w.ptr(a[0]))
	return copyVal(*w.ptr(a[0])), true
}
func atomicStore(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	w.hbAtomic(g, w.ptr(a[0]))
	*w.ptr(a[0]) = a[1]
	return nil, true
}
func atomicAdd(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	p := w.ptr(a[0])
	w.hbAtomic(g, p)
	r := w.tt.Arith(OpAdd, w.tm(*p), w.tm(a[1]))
	*p = r
	return r, true
}
func atomicSwap(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	p := w.ptr(a[0])
	w.hbAtomic(g, p)
	o := *p
	*p = a[1]
	return o, true
}
func atomicCAS(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
	p := w.ptr(a[0])
	w.hbAtomic(g, p)
	var eq *Term
	if _, ok := (*p).(Ptr); ok {
		x, _ := (*p).(Ptr)
		y, _ := a[1].(Ptr)
		eq = w.tt.Bool(x == y)
	} else {
		eq = w.equal(*p, a[1])
	}
	if w.branch(eq) {
		*p = a[2]
		return w.tt.True, true
	}
	return w.tt.False, true
}

func concFloat1(f func(float64) float64) nativeFn {
	return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		x := w.pickValue(w.tm(a[0]), "float argument")
		return w.tt.Const(64, math.Float64bits(f(math.Float64frombits(x)))), true
	}
}
func concFloat2(f func(a, b float64) float64) nativeFn {
	return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		x, y := w.pickValue(w.tm(a[0]), "float argument"), w.pickValue(w.tm(a[1]), "float argument")
		return w.tt.Const(64, math.Float64bits(f(math.Float64frombits(x), math.Float64frombits(y)))), true
	}
}

func initOverrides(e *Engine) error {
	if natives != nil {
		return nil
	}
	n := map[string]nativeFn{}
	natives = n
	const vp = "verif/harness/vp."
	n[vp+"Bool"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.tt.Eq(w.input(w.constStr(a[0]), 1), w.tt.Const(1, 1)), true
	}
	n[vp+"Byte"] = nondet(8)
	n[vp+"U16"] = nondet(16)
	n[vp+"U32"] = nondet(32)
	n[vp+"U64"] = nondet(64)
	n[vp+"I64"] = nondet(64)
	n[vp+"I32"] = nondet(32)
	n[vp+"Float64"] = nondet(64)
	n[vp+"Float32"] = nondet(32)
	n[vp+"Int"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		lo, hi := w.constInt(a[1]), w.constInt(a[2]) // the input is the distance from lo, as wide as it need be
		if hi < lo {
			w.assume(w.tt.False)
		}
		k := uint8(bits.Len64(uint64(hi) - uint64(lo)))
		if k == 0 {
			return w.tt.Const(64, uint64(lo)), true
		}
		v := w.input(w.constStr(a[0]), k)
		w.assume(w.tt.Ule(v, w.tt.Const(k, uint64(hi)-uint64(lo))))
		return w.tt.Arith(OpAdd, w.tt.Zext(v, 64), w.tt.Const(64, uint64(lo))), true
	}
	n[vp+"Choose"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.tt.Const(64, uint64(w.choose(w.constStr(a[0]), int(w.constInt(a[1]))))), true
	}
	bytesOf := func(w *Worker, a []Value) []*Term {
		name := w.constStr(a[0])
		k := int(w.constInt(a[1]))
		r := make([]*Term, k)
		for i := range r {
			r[i] = w.input(name+"."+strconv.Itoa(i), 8)
		}
		return r
	}
	n[vp+"Bytes"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		ts := bytesOf(w, a)
		c := make([]Value, len(ts))
		for i := range ts {
			c[i] = ts[i]
		}
		return Slice{c}, true
	}
	n[vp+"String"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.normStr(bytesOf(w, a)), true
	}
	n[vp+"Param"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		name := w.constStr(a[0])
		v, ok := w.job.Params[name]
		if !ok {
			w.unsupported("no parameter " + name)
		}
		return w.tt.Const(64, uint64(int64(v))), true
	}
	n[vp+"Assume"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		w.assume(w.tm(a[0]))
		return nil, true
	}
	n[vp+"Assert"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		w.assert(w.tm(a[0]), w.constStr(a[1]))
		return nil, true
	}
	n[vp+"Cover"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		w.covers = append(w.covers, w.constStr(a[0]))
		return nil, true
	}
	n[vp+"Observe"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s := a[1].(Slice)
		var vals []Value
		for _, c := range s.c {
			iv := c.(Iface)
			// slices must be snapshotted
			if sl, ok := iv.v.(Slice); ok {
				iv.v = Slice{append([]Value{}, sl.c...)}
			}
			if st, ok := iv.v.(Str); ok && st.lazy != nil {
				iv.v = w.force(st)
			}
			vals = append(vals, iv)
		}
		w.obs = append(w.obs, obsRec{w.constStr(a[0]), vals})
		return nil, true
	}
	n[vp+"Symbolic"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return w.tt.True, true }
	n[vp+"Conc"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.tt.Const(64, uint64(w.concInt(w.tm(a[0]), w.constInt(a[1]), w.constInt(a[2]), "vp.Conc"))), true
	}
	n[vp+"And"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.tt.And(w.tm(a[0]), w.tm(a[1])), true
	}
	n[vp+"Or"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.tt.Or(w.tm(a[0]), w.tm(a[1])), true
	}
	n[vp+"Implies"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.tt.Or(w.tt.Not(w.tm(a[0])), w.tm(a[1])), true
	}
	n[vp+"Ite"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.tt.Ite(w.tm(a[0]), w.tm(a[1]), w.tm(a[2])), true
	}
	n[vp+"End"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { panic(pathEnd{"done", ""}) }

	// sync
	n["(*sync.Mutex).Lock"] = lockFn
	n["(*sync.Mutex).Unlock"] = unlockFn
	n["(*sync.Mutex).TryLock"] = tryLockFn
	n["(*sync.RWMutex).Lock"] = lockFn
	n["(*sync.RWMutex).Unlock"] = unlockFn
	n["(*sync.RWMutex).RLock"] = rlockFn
	n["(*sync.RWMutex).RUnlock"] = runlockFn
	n["(*sync.RWMutex).TryLock"] = tryLockFn
	n["(*sync.WaitGroup).Add"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s := w.wg(w.ptr(a[0]))
		s.n += w.constInt(a[1])
		w.hbRelease(g, w.ptr(a[0]))
		if s.n < 0 {
			w.goPanic("sync: negative WaitGroup counter")
		}
		return nil, true
	}
	n["(*sync.WaitGroup).Done"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s := w.wg(w.ptr(a[0]))
		s.n--
		w.hbRelease(g, w.ptr(a[0]))
		if s.n < 0 {
			w.goPanic("sync: negative WaitGroup counter")
		}
		return nil, true
	}
	n["(*sync.WaitGroup).Wait"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s := w.wg(w.ptr(a[0]))
		if s.n > 0 {
			w.block(g, "waitgroup", func() bool { return s.n == 0 })
			return nil, false
		}
		w.hbAcquire(g, w.ptr(a[0]))
		return nil, true
	}
	for _, k := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.Mutex).TryLock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		syncPoints[k] = true
	}
	// sync/atomic
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		n["sync/atomic.Load"+t] = atomicLoad
		n["sync/atomic.Store"+t] = atomicStore
		n["sync/atomic.Add"+t] = atomicAdd
		n["sync/atomic.Swap"+t] = atomicSwap
		n["sync/atomic.CompareAndSwap"+t] = atomicCAS
		for _, o := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap"} {
			syncPoints["sync/atomic."+o+t] = true
		}
	}
	// atomic.Value: field 0 holds an interface
	n["(*sync/atomic.Value).Load"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		w.hbAtomic(g, w.ptr(a[0]))
		return (*w.ptr(a[0])).(Struct)[0], true
	}
	n["(*sync/atomic.Value).Store"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		if a[1].(Iface).t == nil {
			w.goPanic("sync/atomic: store of nil value into Value")
		}
		w.hbAtomic(g, w.ptr(a[0]))
		(*w.ptr(a[0])).(Struct)[0] = a[1]
		return nil, true
	}
	n["(*sync/atomic.Value).Swap"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		w.hbAtomic(g, w.ptr(a[0]))
		s := (*w.ptr(a[0])).(Struct)
		o := s[0]
		s[0] = a[1]
		return o, true
	}
	n["(*sync/atomic.Value).CompareAndSwap"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		w.hbAtomic(g, w.ptr(a[0]))
		s := (*w.ptr(a[0])).(Struct)
		if w.branch(w.equal(s[0], a[1])) {
			s[0] = a[2]
			return w.tt.True, true
		}
		return w.tt.False, true
	}
	// time
	n["time.Now"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return w.timeVal(w.now), true }
	n["time.now"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return Tuple{w.tt.Const(64, uint64(timeEpoch+w.now/1e9)), w.tt.Const(32, uint64(w.now%1e9)), w.tt.Const(64, uint64(w.now))}, true
	}
	n["time.runtimeNano"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return w.tt.Const(64, uint64(w.now)), true }
	n["time.Sleep"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		if s, ok := w.natives[fmt.Sprintf("sleep%p", g)]; ok {
			if s.(*timer).active {
				t := s.(*timer)
				w.block(g, "sleep", func() bool { return !t.active })
				return nil, false
			}
			delete(w.natives, fmt.Sprintf("sleep%p", g))
			return nil, true
		}
		d := w.concDur(a[0])
		if d <= 0 {
			return nil, true
		}
		t := w.addTimer(d, func() {})
		w.natives[fmt.Sprintf("sleep%p", g)] = t
		w.block(g, "sleep", func() bool { return !t.active })
		return nil, false
	}
	n["time.NewTimer"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		ch := &Chan{capn: 1, id: w.nextChan()}
		t := w.addTimer(w.concDur(a[0]), w.timerChanSend(ch))
		return w.newTimerObj("Timer", ch, t, nil), true
	}
	n["time.After"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		ch := &Chan{capn: 1, id: w.nextChan()}
		w.addTimer(w.concDur(a[0]), w.timerChanSend(ch))
		return ch, true
	}
	n["time.NewTicker"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		d := w.concDur(a[0])
		if d <= 0 {
			w.goPanic("non-positive interval for NewTicker")
		}
		ch := &Chan{capn: 1, id: w.nextChan()}
		t := w.addTimer(d, w.timerChanSend(ch))
		t.period = d
		return w.newTimerObj("Ticker", ch, t, nil), true
	}
	n["time.Tick"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		d := w.concDur(a[0])
		ch := &Chan{capn: 1, id: w.nextChan()}
		t := w.addTimer(d, w.timerChanSend(ch))
		t.period = d
		return ch, true
	}
	n["time.AfterFunc"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		t := w.addTimer(w.concDur(a[0]), w.spawnCall(a[1]))
		return w.newTimerObj("Timer", nil, t, a[1]), true
	}
	stop := func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s, ok := w.side[w.ptr(a[0])].(*wtimer)
		if !ok {
			w.goPanic("time: Stop called on uninitialized Timer")
		}
		was := s.t.active
		s.t.active = false
		if s.ch != nil { // Go 1.23 semantics: no stale values after Stop
			s.ch.buf = nil
		}
		return w.tt.Bool(was), true
	}
	n["(*time.Timer).Stop"] = stop
	n["(*time.Ticker).Stop"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		stop(w, g, a, ci)
		return nil, true
	}
	reset := func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s, ok := w.side[w.ptr(a[0])].(*wtimer)
		if !ok {
			w.goPanic("time: Reset called on uninitialized Timer")
		}
		was := s.t.active
		s.t.active = false
		fire := s.t.fire
		p := s.t.period
		if s.ch != nil {
			s.ch.buf = nil
		}
		d := w.concDur(a[1])
		s.t = w.addTimer(d, fire)
		if p > 0 {
			s.t.period = d
		}
		return w.tt.Bool(was), true
	}
	n["(*time.Timer).Reset"] = reset
	n["(*time.Ticker).Reset"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		reset(w, g, a, ci)
		return nil, true
	}
	// math
	id := func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return a[0], true }
	n["math.Float64bits"], n["math.Float64frombits"], n["math.Float32bits"], n["math.Float32frombits"] = id, id, id, id
	uniNatives(n)
	n["math.Pow"] = concFloat2(math.Pow)
	n["math.Mod"] = concFloat2(math.Mod)
	n["math.Sqrt"] = concFloat1(math.Sqrt)
	n["math.Log"] = concFloat1(math.Log)
	n["math.Log2"] = concFloat1(math.Log2)
	n["math.Log10"] = concFloat1(math.Log10)
	n["math.Exp"] = concFloat1(math.Exp)
	n["math.Abs"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.tt.BAnd(w.tm(a[0]), w.tt.Const(64, 1<<63-1)), true
	}
	// math/rand
	rnd := func(name string, width uint8) nativeFn {
		return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
			v := w.input("rand."+name, width)
			if w.opts.FixRand { // still an input, so that a replay knows it
				w.assume(w.tt.Eq(v, w.tt.Const(width, 1000)))
				return w.tt.Const(width, 1000), true
			}
			return v, true
		}
	}
	rndn := func(width uint8) nativeFn {
		return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
			lim := w.tm(a[len(a)-1])
			v := w.input("rand.n", width)
			if w.branch(w.tt.Sle(lim, w.tt.Const(width, 0))) {
				w.goPanic("invalid argument to Intn")
			}
			w.assume(w.tt.Ult(v, lim))
			return v, true
		}
	}
	for _, p := range []string{"math/rand.", "(*math/rand.Rand)."} {
		n[p+"Uint32"] = rnd("u32", 32)
		n[p+"Uint64"] = rnd("u64", 64)
		n[p+"Intn"] = rndn(64)
		n[p+"Int63n"] = rndn(64)
		n[p+"Int31n"] = rndn(32)
		n[p+"Int31"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
			return w.tt.BAnd(w.input("rand.i31", 32), w.tt.Const(32, 1<<31-1)), true
		}
		n[p+"Int63"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
			return w.tt.BAnd(w.input("rand.i63", 64), w.tt.Const(64, 1<<63-1)), true
		}
		n[p+"Int"] = n[p+"Int63"]
		n[p+"Float64"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
			v := w.input("rand.f64", 64)
			w.assume(w.tt.And(w.tt.FCmp(OpFLe, w.tt.Const(64, 0), v), w.tt.FCmp(OpFLt, v, w.tt.Const(64, math.Float64bits(1)))))
			w.assume(w.tt.Eq(w.tt.Extract(v, 63, 63), w.tt.Const(1, 0)))
			return v, true
		}
		n[p+"Seed"] = nop(nil)
	}
	n["math/rand.NewSource"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return Iface{}, true }
	n["math/rand.New"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		c := new(Value)
		*c = w.zero(w.eng.pkgs["math/rand"].Type("Rand").Type())
		return Ptr(c), true
	}
	// runtime & friends
	n["runtime.Gosched"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { w.yieldNow = true; return nil, true }
	n["runtime.GC"] = nop(nil)
	n["runtime.KeepAlive"] = nop(nil)
	n["runtime.SetFinalizer"] = nop(nil)
	n["runtime/debug.PrintStack"] = nop(nil)
	n["runtime/debug.Stack"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return Slice{[]Value{}}, true }
	n["os.Exit"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		panic(pathEnd{"crash", "os.Exit" + w.where()})
	}
	for _, k := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "(*log.Logger).Fatal", "(*log.Logger).Fatalf"} {
		n[k] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
			panic(pathEnd{"crash", "log.Fatal" + w.where()})
		}
	}
	for _, k := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		n[k] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { w.goPanic("log.Panic"); return nil, true }
	}
	n["fmt.Printf"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return Tuple{w.tt.Const(64, 0), Iface{}}, true
	}
	n["fmt.Println"], n["fmt.Print"] = n["fmt.Printf"], n["fmt.Printf"]
	n["(*os.File).Write"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return Tuple{w.tt.Const(64, uint64(len(a[1].(Slice).c))), Iface{}}, true
	}
	n["(*os.File).WriteString"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return Tuple{w.tt.Const(64, 0), Iface{}}, true
	}
	n["(*strings.Builder).copyCheck"] = nop(nil)
	n["internal/bytealg.MakeNoZero"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		k := w.concInt(w.tm(a[0]), 0, w.maxAlloc, "make len")
		c := make([]Value, k)
		w.fillZero(c, types.Typ[types.Uint8])
		return Slice{c}, true
	}
	n["strings.Clone"] = id
	n["internal/stringslite.Clone"] = id
	n["strings.noescape"] = id
	n["internal/abi.NoEscape"] = id
	n["internal/abi.Escape"] = id
	n["internal/godebug.New"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		c := new(Value)
		*c = w.zero(w.eng.pkgs["internal/godebug"].Type("Setting").Type())
		return Ptr(c), true
	}
	n["(*internal/godebug.Setting).Value"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return Str{}, true }
	n["(*internal/godebug.Setting).IncNonDefault"] = nop(nil)
	n["os.Getenv"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return Str{}, true }
	n["unsafe.String"] = nil
	delete(n, "unsafe.String")
	// models' engine hooks
	const md = "verif/harness/models."
	n[md+"format"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return w.format(w.str(a[0]), a[1].(Slice).c), true
	}
	n[md+"swapElem"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			w.unsupported("sort.Slice on non-slice")
		}
		i, j := w.constInt(a[1]), w.constInt(a[2])
		x, y := copyVal(s.c[i]), copyVal(s.c[j])
		storeInto(&s.c[i], y)
		storeInto(&s.c[j], x)
		return nil, true
	}
	n[md+"lenOf"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			w.unsupported("sort.Slice on non-slice")
		}
		return w.tt.Const(64, uint64(len(s.c))), true
	}
	n[md+"asAssign"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		err := a[0].(Iface)
		tgt := a[1].(Iface)
		pt, ok := tgt.t.Underlying().(*types.Pointer)
		if !ok {
			w.goPanic("errors: target must be a non-nil pointer")
		}
		et := pt.Elem()
		p := w.ptr(tgt.v)
		if it, ok := et.Underlying().(*types.Interface); ok {
			if w.eng.implements(err.t, it) {
				*p = err
				return w.tt.True, true
			}
			return w.tt.False, true
		}
		if w.eng.identical(err.t, et) {
			storeInto(p, copyVal(err.v))
			return w.tt.True, true
		}
		return w.tt.False, true
	}
	n[md+"comparable_"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		iv := a[0].(Iface)
		return w.tt.Bool(iv.t == nil || types.Comparable(iv.t)), true
	}
	n[md+"isOSFile"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		iv := a[0].(Iface)
		return w.tt.Bool(iv.t != nil && iv.t.String() == "*os.File"), true
	}
	n[md+"side"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		// per-object model state: side(ptr any, mk func() any) is done in Go; here only the table
		p, ok := a[0].(Iface).v.(Ptr)
		if !ok {
			w.unsupported("side of non-pointer")
		}
		if s, ok := w.side[p]; ok {
			return s.(Iface), true
		}
		return Iface{}, true
	}
	n[md+"setSide"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		w.side[a[0].(Iface).v.(Ptr)] = a[1].(Iface)
		return nil, true
	}
	n[md+"global"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		if v, ok := w.natives["g:"+w.constStr(a[0])]; ok {
			return v.(Iface), true
		}
		return Iface{}, true
	}
	n[md+"setGlobal"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		w.natives["g:"+w.constStr(a[0])] = a[1].(Iface)
		return nil, true
	}
	n[md+"typeName"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		iv := a[0].(Iface)
		if iv.t == nil {
			return Str{s: "<nil>"}, true
		}
		return Str{s: types.TypeString(iv.t, func(p *types.Package) string { return p.Name() })}, true
	}
	n[md+"intKind"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		iv := a[0].(Iface)
		if iv.t == nil {
			return w.tt.False, true
		}
		iw, _ := intInfo(iv.t)
		return w.tt.Bool(iw != 0 || isString(iv.t)), true
	}
	n[md+"builderBuf"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		for _, f := range (*w.ptr(a[0])).(Struct) {
			if s, ok := f.(Slice); ok {
				return s, true
			}
		}
		return Slice{}, true
	}
	// strconv on symbolic integers: digits by forking on their number
	itoa := func(signed bool) nativeFn {
		return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
			base := int64(10)
			if len(a) > 1 {
				base = w.constInt(a[1])
			}
			return w.fmtInt(w.tm(a[0]), signed, int(base), 0, false, false), true
		}
	}
	n["strconv.Itoa"] = itoa(true)
	n["strconv.FormatInt"] = itoa(true)
	n["strconv.FormatUint"] = itoa(false)
	n["strconv.FormatFloat"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		x := w.pickValue(w.tm(a[0]), "float to format")
		return Str{s: strconv.FormatFloat(math.Float64frombits(x), byte(w.constInt(a[1])), int(w.constInt(a[2])), int(w.constInt(a[3])))}, true
	}
	initRegexp(n)
	return nil
}

// ---- builtins

func (w *Worker) builtin(g *G, b *ssa.Builtin, args []Value, ci *cinstr) Value {
	tt := w.tt
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case Str:
			return tt.Const(64, uint64(w.strLen(x)))
		case Slice:
			if b.Name() == "cap" {
				return tt.Const(64, uint64(cap(x.c)))
			}
			return tt.Const(64, uint64(len(x.c)))
		case *MapObj:
			if x == nil {
				return tt.Const(64, 0)
			}
			if f := w.builtinFrame(g, ci); f != nil {
				w.touchMap(g, f, ci, x, false)
			}
			return tt.Const(64, uint64(x.n))
		case *Chan:
			if x == nil {
				return tt.Const(64, 0)
			}
			if b.Name() == "cap" {
				return tt.Const(64, uint64(x.capn))
			}
			return tt.Const(64, uint64(len(x.buf)))
		case Array:
			return tt.Const(64, uint64(len(x)))
		case Ptr:
			return tt.Const(64, uint64(len((*w.ptr(x)).(Array))))
		}
	case "append":
		s := args[0].(Slice)
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y.c
		case Str:
			bs := w.strBytes(y)
			add = make([]Value, len(bs))
			for i := range bs {
				add[i] = bs[i]
			}
		}
		if len(add) == 0 {
			return s
		}
		var et types.Type = types.Typ[types.Uint8]
		if sl, ok := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
		n := len(s.c) + len(add)
		if n > cap(s.c) {
			w.builtinTouch(g, ci, nil, nil, s.c)
			w.builtinTouch(g, ci, nil, nil, add)
			nc := w.growCap(cap(s.c), n, et)
			c := make([]Value, n, nc)
			copy(c, s.c)
			for i := range add {
				c[len(s.c)+i] = copyVal(add[i])
			}
			full := c[:nc]
			w.fillZero(full[n:], et)
			return Slice{c}
		}
		tmp := make([]Value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		c := s.c[:n]
		w.builtinTouch(g, ci, nil, c[len(s.c):], add)
		for i := range tmp {
			storeInto(&c[len(s.c)+i], tmp[i])
		}
		return Slice{c}
	case "copy":
		d := args[0].(Slice)
		switch y := args[1].(type) {
		case Slice:
			n := len(d.c)
			if len(y.c) < n {
				n = len(y.c)
			}
			tmp := make([]Value, n)
			for i := range tmp {
				tmp[i] = copyVal(y.c[i])
			}
			w.builtinTouch(g, ci, nil, d.c[:n], y.c[:n])
			for i := range tmp {
				storeInto(&d.c[i], tmp[i])
			}
			return tt.Const(64, uint64(n))
		case Str:
			bs := w.strBytes(y)
			n := len(d.c)
			if len(bs) < n {
				n = len(bs)
			}
			for i := 0; i < n; i++ {
				d.c[i] = bs[i]
			}
			return tt.Const(64, uint64(n))
		}
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			w.builtinTouch(g, ci, m, nil, nil)
			w.mapDelete(m, args[1])
		}
		return nil
	case "close":
		w.chanClose(g, args[0].(*Chan))
		return nil
	case "panic":
		panic(goPanicSig{args[0]})
	case "recover":
		if len(g.fr) >= 2 {
			f := g.top()
			p := g.fr[len(g.fr)-2]
			if f.isDefer && p.unwind == 1 && !p.recov {
				p.recov = true
				return p.pval
			}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := ci.ins.(*ssa.Call).Type()
		for _, x := range args[1:] {
			if isString(t) {
				c := w.strLess(w.str(x), w.str(r), false)
				if b.Name() == "max" {
					c = w.strLess(w.str(r), w.str(x), false)
				}
				if w.branch(c) {
					r = x
				}
				continue
			}
			a, c := w.tm(r), w.tm(x)
			var less *Term
			if fw := floatWidth(t); fw != 0 {
				less = tt.FCmp(OpFLt, c, a)
				if b.Name() == "max" {
					less = tt.FCmp(OpFLt, a, c)
				}
			} else {
				cmp := tt.Ult
				if isSigned(t) {
					cmp = tt.Slt
				}
				less = cmp(c, a)
				if b.Name() == "max" {
					less = cmp(a, c)
				}
			}
			r = tt.Ite(less, c, a)
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				w.builtinTouch(g, ci, x, nil, nil)
				sh := x.sh
				*x = *w.newMap(x.kt)
				x.sh = sh
			}
		case Slice:
			if len(x.c) > 0 {
				et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
				for i := range x.c {
					storeInto(&x.c[i], w.zero(et))
				}
			}
		}
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			w.goPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		w.unsupported("unsafe.String")
	case "ssa:deferstack":
		return Ptr(nil)
	}
	w.unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args[0]))
	return nil
}

// growCap mirrors runtime.growslice by asking the host runtime with an element of the same size.
func (w *Worker) growCap(oldCap, n int, et types.Type) int {
	sz := stdSizes.Sizeof(et)
	switch sz {
	case 1:
		return cap(append(make([]byte, oldCap), make([]byte, n-oldCap)...))
	case 2:
		return cap(append(make([]uint16, oldCap), make([]uint16, n-oldCap)...))
	case 4:
		return cap(append(make([]uint32, oldCap), make([]uint32, n-oldCap)...))
	case 8:
		return cap(append(make([]uint64, oldCap), make([]uint64, n-oldCap)...))
	case 16:
		return cap(append(make([][2]uint64, oldCap), make([][2]uint64, n-oldCap)...))
	case 24:
		return cap(append(make([][3]uint64, oldCap), make([][3]uint64, n-oldCap)...))
	}
	nc := oldCap
	if n > 2*oldCap {
		return n
	}
	for nc < n {
		if nc < 256 {
			nc *= 2
		} else {
			nc += (nc + 768) / 4
		}
		if nc == 0 {
			nc = n
		}
	}
	return nc
}

var stdSizes = types.SizesFor("gc", "amd64")
