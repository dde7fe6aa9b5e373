package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	okReg opKind = iota
	okConst
	okGlobal
	okFree
	okNone
)

type opnd struct {
	k    opKind
	slot int
	v    Value
	g    *ssa.Global
}

type cinstr struct {
	ins ssa.Instruction
	dst int
	op  []opnd
	cfn *ssa.Function // static callee
	ov  *override
	aux int
	typ types.Type
}

type phi struct {
	dst   int
	edges []opnd
}

type cblock struct {
	phis  []phi
	code  []cinstr
	succs []int
	preds []int
}

type fnInfo struct {
	fn     *ssa.Function
	nregs  int
	blocks []cblock
	nparam int
	ov     *override
	track  bool // accesses count for data races
}

type deferRec struct {
	fn   Value
	args []Value
	ov   *override
	bi   *ssa.Builtin
	site *cinstr
}

type Frame struct {
	info    *fnInfo
	regs    []Value
	env     []Value
	blk     int
	prev    int
	pc      int
	defers  []deferRec
	unwind  uint8
	recov   bool
	pval    Value
	isDefer bool
	noRet   bool
	visits  map[int]int
}

type gStatus uint8

type G struct {
	id      int
	fr      []*Frame
	ready   func() bool // non-nil: blocked
	wake    *sudog      // filled by counterpart
	waitFor string
	done    bool
	steps   int64
	vc      vclock
	held    int  // locks
	bare    bool // touched memory that changes without a lock, since the last synchronisation
	frozen  bool
}

func (g *G) top() *Frame { return g.fr[len(g.fr)-1] }

type goPanicSig struct{ val Value }

type pathEnd struct {
	kind string // "done", "assume", "unsupported", "crash", "limit", "deadlock", "cut", "violation"
	msg  string
}

func (w *Worker) unsupported(msg string) { panic(pathEnd{"unsupported", msg + w.where()}) }

func (w *Worker) where() string {
	if w.cur == nil || len(w.cur.fr) == 0 {
		return ""
	}
	s := " at"
	n := 0
	for i := len(w.cur.fr) - 1; i >= 0 && n < 6; i-- {
		f := w.cur.fr[i]
		p := ""
		if f.blk < len(f.info.blocks) && f.pc < len(f.info.blocks[f.blk].code) {
			pos := f.info.fn.Prog.Fset.Position(f.info.blocks[f.blk].code[f.pc].ins.Pos())
			if pos.IsValid() {
				fn := pos.Filename
				if k := strings.LastIndexByte(fn, '/'); k >= 0 {
					fn = fn[k+1:]
				}
				p = fmt.Sprintf("(%s:%d)", fn, pos.Line)
			}
		}
		s += " " + f.info.fn.String() + p
		n++
	}
	return s
}

func (w *Worker) goPanic(msg string) {
	if w.eng.rtErr == nil {
		panic(pathEnd{"crash", msg})
	}
	panic(goPanicSig{Iface{t: w.eng.rtErr, v: Str{s: msg}}})
}

func (w *Worker) info(fn *ssa.Function) *fnInfo {
	if i, ok := w.infos[fn]; ok {
		return i
	}
	i := w.compile(fn)
	w.infos[fn] = i
	return i
}

func (w *Worker) compile(fn *ssa.Function) *fnInfo {
	w.eng.ensureBuilt(fn)
	fi := &fnInfo{fn: fn, track: raceFn(fn)}
	fi.ov = w.eng.overrideFor(fn)
	if fn.Blocks == nil {
		return fi
	}
	slots := map[ssa.Value]int{}
	n := 0
	add := func(v ssa.Value) { slots[v] = n; n++ }
	for _, p := range fn.Params {
		add(p)
	}
	fi.nparam = len(fn.Params)
	free := map[ssa.Value]int{}
	for i, f := range fn.FreeVars {
		free[f] = i
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.nregs = n
	res := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{k: okNone}
		case *ssa.Const:
			return opnd{k: okConst, v: w.constVal(x)}
		case *ssa.Global:
			return opnd{k: okGlobal, g: x}
		case *ssa.Function:
			return opnd{k: okConst, v: x}
		case *ssa.Builtin:
			return opnd{k: okConst, v: x}
		case *ssa.FreeVar:
			return opnd{k: okFree, slot: free[x]}
		}
		s, ok := slots[v]
		if !ok {
			panic(fmt.Sprintf("no slot for %v in %v", v, fn))
		}
		return opnd{k: okReg, slot: s}
	}
	for _, b := range fn.Blocks {
		var cb cblock
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				ph := phi{dst: slots[p]}
				for _, e := range p.Edges {
					ph.edges = append(ph.edges, res(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{ins: ins, dst: -1}
			if v, ok := ins.(ssa.Value); ok {
				ci.dst = slots[v]
				ci.typ = v.Type()
			}
			var ops []*ssa.Value
			ops = ins.Operands(ops)
			for _, o := range ops {
				if *o == nil {
					ci.op = append(ci.op, opnd{k: okNone})
				} else {
					ci.op = append(ci.op, res(*o))
				}
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					ci.cfn = f
					ci.ov = w.eng.overrideFor(f)
				}
			}
			cb.code = append(cb.code, ci)
		}
		fi.blocks = append(fi.blocks, cb)
	}
	return fi
}

func (w *Worker) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return w.zero(t)
	}
	if iw, signed := intInfo(t); iw != 0 {
		if signed {
			return w.tt.Const(iw, uint64(c.Int64()))
		}
		return w.tt.Const(iw, c.Uint64())
	}
	if fw := floatWidth(t); fw != 0 {
		f, _ := constant.Float64Val(c.Value)
		if fw == 32 {
			f32, _ := constant.Float32Val(c.Value)
			return w.tt.Const(32, cvtFloat(f64bits(float64(f32)), 64, 32))
		}
		return w.tt.Const(64, f64bits(f))
	}
	if isBool(t) {
		return w.tt.Bool(constant.BoolVal(c.Value))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	}
	if _, ok := t.Underlying().(*types.TypeParam); ok {
		panic("const of type parameter")
	}
	return Opaque{"const " + t.String()}
}

// ---- frames

func (w *Worker) newFrame(fi *fnInfo, args []Value, env []Value) *Frame {
	if fi.blocks == nil {
		w.unsupported("no body: " + fi.fn.String())
	}
	f := &Frame{info: fi, regs: make([]Value, fi.nregs), env: env, prev: -1}
	copy(f.regs, args)
	w.eng.noteFn(w, fi.fn)
	return f
}

func (w *Worker) push(g *G, f *Frame) {
	if len(g.fr) > 2000 {
		panic(pathEnd{"limit", "call depth" + w.where()})
	}
	g.fr = append(g.fr, f)
	w.enterBlock(f, 0)
}

func (w *Worker) enterBlock(f *Frame, b int) {
	prev := f.blk
	cb := &f.info.blocks[b]
	if len(cb.phis) > 0 {
		k := -1
		for i, p := range cb.preds {
			if p == prev {
				k = i
				break
			}
		}
		if len(cb.phis) == 1 {
			f.regs[cb.phis[0].dst] = w.get(f, &cb.phis[0].edges[k])
		} else {
			var tmp [8]Value
			vals := tmp[:0]
			for i := range cb.phis {
				vals = append(vals, w.get(f, &cb.phis[i].edges[k]))
			}
			for i := range cb.phis {
				f.regs[cb.phis[i].dst] = vals[i]
			}
		}
	}
	f.prev = prev
	f.blk = b
	f.pc = 0
}

func (w *Worker) get(f *Frame, o *opnd) Value {
	switch o.k {
	case okReg:
		return f.regs[o.slot]
	case okConst:
		switch o.v.(type) {
		case Struct, Array:
			return copyVal(o.v)
		}
		return o.v
	case okFree:
		return f.env[o.slot]
	case okGlobal:
		return w.globalCell(o.g)
	}
	return nil
}

type needInit struct{ pkg *ssa.Package }

func (w *Worker) globalCell(g *ssa.Global) Ptr {
	if p, ok := w.globals[g]; ok {
		return p
	}
	if p, ok := w.pglobals[g]; ok {
		return p
	}
	pers := g.Pkg != nil && w.eng.persistent(g.Pkg)
	if g.Pkg != nil && w.eng.wantsInit(g.Pkg) && !w.inited(g.Pkg) {
		if !strings.HasPrefix(g.Name(), "init$guard") {
			panic(needInit{g.Pkg})
		}
	}
	p := new(Value)
	if v, ok := w.eng.globalOverride(w, g); ok {
		*p = v
	} else {
		*p = w.zero(deref(g.Type()))
	}
	if pers {
		w.pglobals[g] = p
	} else {
		w.globals[g] = p
	}
	return p
}

func (w *Worker) inited(p *ssa.Package) bool {
	return w.initDone[p] || w.pinitDone[p]
}

func (w *Worker) markInit(p *ssa.Package) {
	if w.eng.persistent(p) {
		w.pinitDone[p] = true
	} else {
		w.initDone[p] = true
	}
}

func (w *Worker) tm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		w.unsupported(fmt.Sprintf("scalar expected, got %T", v))
	}
	return t
}

func (w *Worker) ptr(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		if o, ok := v.(Opaque); ok {
			w.unsupported("opaque pointer: " + o.why)
		}
		w.unsupported(fmt.Sprintf("pointer expected, got %T", v))
	}
	if p == nil {
		w.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return p
}

func (w *Worker) str(v Value) Str {
	s, ok := v.(Str)
	if !ok {
		w.unsupported(fmt.Sprintf("string expected, got %T", v))
	}
	return s
}

// ---- call resolution

// resolve turns a call's function value and args into something executable.
func (w *Worker) callPrep(f *Frame, ci *cinstr, c *ssa.CallCommon) (fn Value, args []Value, ov *override) {
	if c.IsInvoke() {
		recv := w.get(f, &ci.op[0])
		iv, ok := recv.(Iface)
		if !ok {
			w.unsupported(fmt.Sprintf("invoke on %T", recv))
		}
		if iv.t == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		m := w.eng.lookupMethod(iv.t, c.Method)
		if m == nil {
			w.unsupported("method " + c.Method.Name() + " on " + iv.t.String())
		}
		args = make([]Value, 0, len(ci.op))
		args = append(args, copyVal(iv.v))
		for i := 1; i < len(ci.op); i++ {
			args = append(args, copyVal(w.get(f, &ci.op[i])))
		}
		return m, args, w.eng.overrideFor(m)
	}
	args = make([]Value, 0, len(ci.op))
	for i := 1; i < len(ci.op); i++ {
		args = append(args, copyVal(w.get(f, &ci.op[i])))
	}
	if ci.cfn != nil {
		if _, ok := c.Value.(*ssa.Function); ok {
			return ci.cfn, args, ci.ov
		}
	}
	fn = w.get(f, &ci.op[0])
	switch x := fn.(type) {
	case *ssa.Function:
		ov = w.eng.overrideFor(x)
	case *Closure:
		if x == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		ov = w.eng.overrideFor(x.fn)
	}
	return fn, args, ov
}

// enter pushes a frame for fn or runs it natively; done=true means result is available now.
func (w *Worker) enter(g *G, fn Value, args []Value, ov *override, ci *cinstr) (res Value, done bool, fr *Frame, blocked bool) {
	if ov != nil {
		if ov.native != nil {
			w.steps += 5
			r, ok := ov.native(w, g, args, ci)
			if !ok {
				return nil, false, nil, true
			}
			return r, true, nil, false
		}
		if ov.model != nil {
			fn = ov.model
		}
	}
	switch x := fn.(type) {
	case *ssa.Function:
		return nil, false, w.newFrame(w.info(x), args, nil), false
	case *Closure:
		return nil, false, w.newFrame(w.info(x.fn), args, x.env), false
	case *FuncVal:
		return x.f(w, g, args), true, nil, false
	case *ssa.Builtin:
		return w.builtin(g, x, args, ci), true, nil, false
	}
	w.unsupported(fmt.Sprintf("call of %T", fn))
	return nil, false, nil, false
}

// spawn starts a goroutine.
func (w *Worker) spawn(fn Value, args []Value, ov *override) *G {
	g := &G{id: w.nextG}
	w.nextG++
	w.hbSpawn(g)
	w.gs = append(w.gs, g)
	_, done, fr, blocked := w.enter(g, fn, args, ov, nil)
	if blocked {
		w.unsupported("go of blocking intrinsic")
	}
	if done {
		g.done = true
		return g
	}
	w.push(g, fr)
	return g
}

func (w *Worker) ret(g *G, res Value) {
	f := g.top()
	g.fr = g.fr[:len(g.fr)-1]
	if len(g.fr) == 0 {
		g.done = true
		return
	}
	p := g.top()
	if f.noRet || f.isDefer {
		return
	}
	ci := &p.info.blocks[p.blk].code[p.pc]
	if ci.dst >= 0 {
		p.regs[ci.dst] = res
	}
	p.pc++
}

func (w *Worker) runDefer(g *G, f *Frame) bool {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	var fr *Frame
	var done, blocked bool
	if d.bi != nil {
		w.builtin(g, d.bi, d.args, d.site)
		return true
	}
	_, done, fr, blocked = w.enter(g, d.fn, d.args, d.ov, d.site)
	if blocked {
		f.defers = append(f.defers, d)
		return false
	}
	if !done {
		fr.isDefer = true
		w.push(g, fr)
	}
	return true
}

// run executes g until it blocks, finishes, is preempted or its slice ends.
func (w *Worker) run(g *G, slice int64) {
	w.cur = g
	end := w.steps + slice
	for !g.done && g.ready == nil {
		if w.runSome(g, end) {
			break
		}
	}
	w.cur = nil
}

// runSome executes instructions; Go panics of the program under test are turned into unwinding.
func (w *Worker) runSome(g *G, end int64) (stop bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanicSig:
				f := g.top()
				f.unwind = 1
				f.pval = x.val
				f.recov = false
				stop = false
				return
			case needInit:
				w.markInit(x.pkg)
				init := x.pkg.Func("init")
				if init == nil {
					stop = false
					return
				}
				fr := w.newFrame(w.info(init), nil, nil)
				fr.noRet = true
				w.push(g, fr)
				stop = false
				return
			}
			panic(r)
		}
	}()
	for !g.done && g.ready == nil {
		if w.steps >= end || w.yieldNow {
			w.yieldNow = false
			return true
		}
		w.steps++
		if w.steps > w.maxSteps {
			panic(pathEnd{"limit", "step limit" + w.where()})
		}
		f := g.fr[len(g.fr)-1]
		if f.unwind != 0 {
			w.stepUnwind(g, f)
			continue
		}
		ci := &f.info.blocks[f.blk].code[f.pc]
		if !w.exec(g, f, ci) {
			return true // blocked
		}
	}
	return true
}

func (w *Worker) stepUnwind(g *G, f *Frame) {
	if f.unwind == 1 && f.recov {
		f.unwind = 2
		f.recov = false
	}
	if len(f.defers) > 0 {
		if !w.runDefer(g, f) {
			return
		}
		return
	}
	if f.unwind == 2 {
		f.unwind = 0
		if f.info.fn.Recover != nil {
			w.enterBlock(f, f.info.fn.Recover.Index)
			return
		}
		res := f.info.fn.Signature.Results()
		var r Value
		switch res.Len() {
		case 0:
		case 1:
			r = w.zero(res.At(0).Type())
		default:
			r = w.zero(res)
		}
		w.ret(g, r)
		return
	}
	// propagate
	where := w.where()
	g.fr = g.fr[:len(g.fr)-1]
	if w.panicWhere == "" {
		w.panicWhere = where
	}
	if len(g.fr) == 0 {
		panic(pathEnd{"crash", w.panicString(f.pval) + w.panicWhere})
	}
	p := g.top()
	p.unwind = 1
	p.recov = false
	p.pval = f.pval
}

func (w *Worker) panicString(v Value) string {
	iv, ok := v.(Iface)
	if !ok {
		return "panic"
	}
	if iv.t == nil {
		return "panic: nil"
	}
	switch x := iv.v.(type) {
	case Str:
		if x.lazy != nil {
			return "panic: <formatted>"
		}
		if x.b == nil {
			return "panic: " + x.s
		}
		return "panic: <symbolic string>"
	}
	return "panic: value of type " + iv.t.String()
}

func (w *Worker) exec(g *G, f *Frame, ci *cinstr) bool {
	switch ins := ci.ins.(type) {
	case *ssa.Alloc:
		p := new(Value)
		*p = w.zero(deref(ins.Type()))
		f.regs[ci.dst] = p
	case *ssa.BinOp:
		f.regs[ci.dst] = w.binop(ins.Op, ins.X.Type(), ins.Y.Type(), w.get(f, &ci.op[0]), w.get(f, &ci.op[1]))
	case *ssa.UnOp:
		x := w.get(f, &ci.op[0])
		switch ins.Op {
		case token.MUL:
			p := w.ptr(x)
			if w.tracks(g, f) {
				w.touch(g, f, ci, p, false)
			}
			f.regs[ci.dst] = copyVal(*p)
		case token.ARROW:
			v, ok, blocked := w.chanRecv(g, x.(*Chan))
			if blocked {
				return false
			}
			if v == nil {
				v = w.zero(ins.X.Type().Underlying().(*types.Chan).Elem())
			}
			if ins.CommaOk {
				f.regs[ci.dst] = Tuple{v, w.tt.Bool(ok)}
			} else {
				f.regs[ci.dst] = v
			}
		case token.NOT:
			f.regs[ci.dst] = w.tt.Not(w.tm(x))
		case token.SUB:
			t := w.tm(x)
			if fw := floatWidth(ins.X.Type()); fw != 0 {
				f.regs[ci.dst] = w.tt.BXor(t, w.tt.Const(fw, 1<<(fw-1)))
			} else {
				f.regs[ci.dst] = w.tt.BNeg(t)
			}
		case token.XOR:
			f.regs[ci.dst] = w.tt.BNot(w.tm(x))
		default:
			w.unsupported("unop " + ins.Op.String())
		}
	case *ssa.Call:
		if w.preemptPoint(g, f, ci) {
			return true
		}
		fn, args, ov := w.callPrep(f, ci, &ins.Call)
		res, done, fr, blocked := w.enter(g, fn, args, ov, ci)
		if blocked {
			return false
		}
		if done {
			f.regs[ci.dst] = res
			f.pc++
			return true
		}
		w.push(g, fr)
		return true
	case *ssa.ChangeInterface:
		f.regs[ci.dst] = w.get(f, &ci.op[0])
	case *ssa.ChangeType:
		f.regs[ci.dst] = w.get(f, &ci.op[0])
	case *ssa.Convert:
		f.regs[ci.dst] = w.convert(ins.X.Type(), ins.Type(), w.get(f, &ci.op[0]))
	case *ssa.MultiConvert:
		f.regs[ci.dst] = w.convert(ins.X.Type(), ins.Type(), w.get(f, &ci.op[0]))
	case *ssa.Defer:
		fn, args, ov := w.callPrep(f, ci, &ins.Call)
		d := deferRec{fn: fn, args: args, ov: ov, site: ci}
		if b, ok := fn.(*ssa.Builtin); ok {
			d.bi = b
		}
		if isNilFunc(fn) && d.bi == nil && ov == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		f.defers = append(f.defers, d)
	case *ssa.Extract:
		f.regs[ci.dst] = f.regs[ci.op[0].slot].(Tuple)[ins.Index]
	case *ssa.Field:
		f.regs[ci.dst] = w.get(f, &ci.op[0]).(Struct)[ins.Field]
	case *ssa.FieldAddr:
		p := w.ptr(w.get(f, &ci.op[0]))
		s, ok := (*p).(Struct)
		if !ok {
			w.unsupported(fmt.Sprintf("field of %T", *p))
		}
		f.regs[ci.dst] = Ptr(&s[ins.Field])
	case *ssa.Go:
		fn, args, ov := w.callPrep(f, ci, &ins.Call)
		w.spawn(fn, args, ov)
	case *ssa.If:
		c := w.tm(w.get(f, &ci.op[0]))
		var b bool
		if c.isConst() {
			b = c.val == 1
		} else {
			b = w.branch(c)
		}
		cb := &f.info.blocks[f.blk]
		if b {
			w.enterBlock(f, cb.succs[0])
		} else {
			w.enterBlock(f, cb.succs[1])
		}
		return true
	case *ssa.Jump:
		w.enterBlock(f, f.info.blocks[f.blk].succs[0])
		return true
	case *ssa.Index:
		x := w.get(f, &ci.op[0])
		idx := w.tm(w.get(f, &ci.op[1]))
		switch a := x.(type) {
		case Array:
			f.regs[ci.dst] = w.indexRead(a, idx, ins.Index.Type())
		case Str:
			bs := w.strBytes(a)
			f.regs[ci.dst] = w.indexTerm(bs, idx, ins.Index.Type())
		default:
			w.unsupported(fmt.Sprintf("index of %T", x))
		}
	case *ssa.IndexAddr:
		x := w.get(f, &ci.op[0])
		idx := w.tm(w.get(f, &ci.op[1]))
		var cells []Value
		switch a := x.(type) {
		case Slice:
			cells = a.c
		case Ptr:
			p := w.ptr(a)
			cells = []Value((*p).(Array))
		default:
			w.unsupported(fmt.Sprintf("indexaddr of %T", x))
		}
		if !idx.isConst() {
			if v, ok := w.symIndexLoad(f, ci, cells, idx, ins); ok {
				tmp := new(Value)
				*tmp = v
				f.regs[ci.dst] = Ptr(tmp)
				f.pc++
				return true
			}
		}
		i := w.concIndex(idx, len(cells), ins.Index.Type())
		f.regs[ci.dst] = Ptr(&cells[i])
	case *ssa.Lookup:
		x := w.get(f, &ci.op[0])
		if s, ok := x.(Str); ok {
			idx := w.tm(w.get(f, &ci.op[1]))
			f.regs[ci.dst] = w.indexTerm(w.strBytes(s), idx, ins.Index.Type())
			break
		}
		m, ok := x.(*MapObj)
		if !ok {
			w.unsupported(fmt.Sprintf("lookup in %T", x))
		}
		if w.tracks(g, f) {
			w.touchMap(g, f, ci, m, false)
		}
		i := w.mapFind(m, w.get(f, &ci.op[1]))
		var v Value
		if i >= 0 {
			v = copyVal(m.vals[i])
		} else {
			v = w.zero(ins.X.Type().Underlying().(*types.Map).Elem())
		}
		if ins.CommaOk {
			f.regs[ci.dst] = Tuple{v, w.tt.Bool(i >= 0)}
		} else {
			f.regs[ci.dst] = v
		}
	case *ssa.MakeChan:
		n := w.concInt(w.tm(w.get(f, &ci.op[0])), 0, 1<<16, "chan size")
		f.regs[ci.dst] = &Chan{capn: int(n), id: w.nextChan()}
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.op)-1)
		for i := range env {
			env[i] = w.get(f, &ci.op[i+1])
		}
		f.regs[ci.dst] = &Closure{fn: ins.Fn.(*ssa.Function), env: env}
	case *ssa.MakeInterface:
		v := w.get(f, &ci.op[0])
		f.regs[ci.dst] = Iface{t: w.eng.canon(ins.X.Type()), v: copyVal(v)}
	case *ssa.MakeMap:
		f.regs[ci.dst] = w.newMap(ins.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		lt, ct := w.tm(w.get(f, &ci.op[0])), w.tm(w.get(f, &ci.op[1]))
		lt = w.tt.Resize(lt, 64, isSigned(ins.Len.Type()))
		ct = w.tt.Resize(ct, 64, isSigned(ins.Cap.Type()))
		if w.branch(w.tt.Slt(lt, w.tt.Const(64, 0))) {
			w.goPanic("runtime error: makeslice: len out of range")
		}
		n := w.concInt(lt, 0, w.maxAlloc, "make len")
		c := n
		if ct != lt {
			if w.branch(w.tt.Slt(ct, w.tt.Const(64, uint64(n)))) {
				w.goPanic("runtime error: makeslice: cap out of range")
			}
			c = w.concInt(ct, n, w.maxAlloc, "make cap")
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		cells := make([]Value, c)
		w.fillZero(cells, et)
		f.regs[ci.dst] = Slice{cells[:n]}
	case *ssa.MapUpdate:
		m, ok := w.get(f, &ci.op[0]).(*MapObj)
		if !ok {
			w.unsupported("map update of non-map")
		}
		if m == nil {
			w.goPanic("assignment to entry in nil map")
		}
		if w.tracks(g, f) {
			w.touchMap(g, f, ci, m, true)
		}
		w.mapSet(m, copyVal(w.get(f, &ci.op[1])), copyVal(w.get(f, &ci.op[2])))
	case *ssa.Next:
		it := w.get(f, &ci.op[0]).(*iter)
		if it.m != nil && w.tracks(g, f) {
			w.touchMap(g, f, ci, it.m, false)
		}
		f.regs[ci.dst] = w.next(it, ins)
	case *ssa.Range:
		x := w.get(f, &ci.op[0])
		switch a := x.(type) {
		case Str:
			f.regs[ci.dst] = &iter{b: w.strBytes(a), str: true}
		case *MapObj:
			if w.tracks(g, f) {
				w.touchMap(g, f, ci, a, false)
			}
			f.regs[ci.dst] = w.newMapIter(a)
		default:
			w.unsupported(fmt.Sprintf("range over %T", x))
		}
	case *ssa.Panic:
		v := w.get(f, &ci.op[0])
		if iv, ok := v.(Iface); ok && iv.t == nil {
			w.goPanic("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
		}
		w.panicWhere = ""
		panic(goPanicSig{v})
	case *ssa.Return:
		var r Value
		switch len(ci.op) {
		case 0:
		case 1:
			r = copyVal(w.get(f, &ci.op[0]))
		default:
			t := make(Tuple, len(ci.op))
			for i := range t {
				t[i] = copyVal(w.get(f, &ci.op[i]))
			}
			r = t
		}
		w.ret(g, r)
		return true
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			return w.runDefer(g, f)
		}
	case *ssa.Select:
		return w.doSelect(g, f, ci, ins)
	case *ssa.Send:
		if w.chanSend(g, w.get(f, &ci.op[0]).(*Chan), copyVal(w.get(f, &ci.op[1]))) {
			return false
		}
	case *ssa.Slice:
		f.regs[ci.dst] = w.slice(f, ci, ins)
	case *ssa.SliceToArrayPointer:
		s := w.get(f, &ci.op[0]).(Slice)
		n := int(deref(ins.Type()).Underlying().(*types.Array).Len())
		if len(s.c) < n {
			w.goPanic("runtime error: cannot convert slice to array pointer")
		}
		if s.c == nil {
			f.regs[ci.dst] = Ptr(nil)
		} else {
			p := new(Value)
			*p = Array(s.c[:n:n])
			f.regs[ci.dst] = p
		}
	case *ssa.Store:
		p := w.ptr(w.get(f, &ci.op[0]))
		v := w.get(f, &ci.op[1])
		if sw, ok := w.symStores[p]; ok {
			sw(v)
			break
		}
		if w.tracks(g, f) {
			w.touch(g, f, ci, p, true)
		}
		storeInto(p, v)
	case *ssa.TypeAssert:
		x := w.get(f, &ci.op[0])
		iv, ok := x.(Iface)
		if !ok {
			w.unsupported(fmt.Sprintf("type assert on %T", x))
		}
		okb := false
		var v Value
		if it, isI := ins.AssertedType.Underlying().(*types.Interface); isI {
			if iv.t != nil && w.eng.implements(iv.t, it) {
				okb = true
				v = iv
			}
		} else if iv.t != nil && w.eng.identical(iv.t, ins.AssertedType) {
			okb = true
			v = copyVal(iv.v)
		}
		if ins.CommaOk {
			if !okb {
				v = w.zero(ins.AssertedType)
			}
			f.regs[ci.dst] = Tuple{v, w.tt.Bool(okb)}
		} else {
			if !okb {
				dyn := "nil"
				if iv.t != nil {
					dyn = iv.t.String()
				}
				w.panicWhere = ""
				w.goPanic("interface conversion: interface is " + dyn + ", not " + ins.AssertedType.String())
			}
			f.regs[ci.dst] = v
		}
	default:
		w.unsupported(fmt.Sprintf("instruction %T", ins))
	}
	f.pc++
	return true
}

func isSigned(t types.Type) bool { _, s := intInfo(t); return s }

func (w *Worker) fillZero(cells []Value, et types.Type) {
	if len(cells) == 0 {
		return
	}
	z := w.zero(et)
	switch z.(type) {
	case Struct, Array:
		cells[0] = z
		for i := 1; i < len(cells); i++ {
			cells[i] = w.zero(et)
		}
	default:
		for i := range cells {
			cells[i] = z
		}
	}
}

// boundsOK makes sure idx < n, or panics in the program under test.
func (w *Worker) boundsCheck(idx *Term, n int) {
	in := w.tt.Ult(idx, w.tt.Const(idx.w, uint64(n)))
	if idx.w < 64 && uint64(n) > mask(idx.w) {
		in = w.tt.True
	}
	if !w.branch(in) {
		w.panicWhere = ""
		w.goPanic("runtime error: index out of range")
	}
}

func (w *Worker) concIndex(idx *Term, n int, it types.Type) int {
	if idx.isConst() {
		i := idx.val
		if isSigned(it) {
			i = uint64(sext64(i, idx.w))
		}
		if i >= uint64(n) {
			w.panicWhere = ""
			w.goPanic("runtime error: index out of range")
		}
		return int(i)
	}
	idx = w.tt.Resize(idx, 64, isSigned(it))
	w.boundsCheck(idx, n)
	return int(w.concInt(idx, 0, int64(n-1), "index"))
}

func (w *Worker) indexTerm(bs []*Term, idx *Term, it types.Type) *Term {
	if idx.isConst() {
		return bs[w.concIndex(idx, len(bs), it)]
	}
	idx = w.tt.Resize(idx, 64, isSigned(it))
	w.boundsCheck(idx, len(bs))
	return w.iteTable(bs, idx)
}

func (w *Worker) iteTable(bs []*Term, idx *Term) *Term {
	r := bs[len(bs)-1]
	for i := len(bs) - 2; i >= 0; i-- {
		r = w.tt.Ite(w.tt.Eq(idx, w.tt.Const(64, uint64(i))), bs[i], r)
	}
	return r
}

func (w *Worker) indexRead(a Array, idx *Term, it types.Type) Value {
	if !idx.isConst() {
		if ts, ok := termCells(a); ok && len(ts) <= 1024 && len(ts) > 0 {
			return w.indexTerm(ts, idx, it)
		}
	}
	return copyVal(a[w.concIndex(idx, len(a), it)])
}

func termCells(c []Value) ([]*Term, bool) {
	ts := make([]*Term, len(c))
	for i, v := range c {
		t, ok := v.(*Term)
		if !ok {
			return nil, false
		}
		ts[i] = t
	}
	return ts, true
}

// symIndexLoad: an element address used only for loading yields an ite over the elements.
func (w *Worker) symIndexLoad(f *Frame, ci *cinstr, cells []Value, idx *Term, ins *ssa.IndexAddr) (Value, bool) {
	if ci.aux == 0 {
		ci.aux = 1
		for _, r := range *ins.Referrers() {
			if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
				if _, dbg := r.(*ssa.DebugRef); !dbg {
					ci.aux = 2
				}
			}
		}
	}
	if ci.aux != 1 || len(cells) == 0 || len(cells) > 1024 {
		return nil, false
	}
	ts, ok := termCells(cells)
	if !ok {
		return nil, false
	}
	return w.indexTerm(ts, idx, ins.Index.Type()), true
}

func (w *Worker) slice(f *Frame, ci *cinstr, ins *ssa.Slice) Value {
	x := w.get(f, &ci.op[0])
	get := func(i int, def int64) (*Term, types.Type) {
		if ci.op[i].k == okNone {
			return w.tt.Const(64, uint64(def)), types.Typ[types.Int]
		}
		var t types.Type
		switch i {
		case 1:
			t = ins.Low.Type()
		case 2:
			t = ins.High.Type()
		default:
			t = ins.Max.Type()
		}
		return w.tt.Resize(w.tm(w.get(f, &ci.op[i])), 64, isSigned(t)), t
	}
	var n, c int
	var cells []Value
	var s Str
	isStr := false
	switch a := x.(type) {
	case Str:
		if a.lazy != nil {
			a = w.force(a)
		}
		s, isStr = a, true
		n = w.strLen(a)
		c = n
	case Slice:
		cells, n, c = a.c, len(a.c), cap(a.c)
	case Ptr:
		p := w.ptr(a)
		arr := []Value((*p).(Array))
		cells, n, c = arr, len(arr), len(arr)
	default:
		w.unsupported(fmt.Sprintf("slice of %T", x))
	}
	lo, _ := get(1, 0)
	hi, _ := get(2, int64(n))
	mx, _ := get(3, int64(c))
	cst := func(v int) *Term { return w.tt.Const(64, uint64(v)) }
	ok := w.tt.And(w.tt.Ule(mx, cst(c)), w.tt.And(w.tt.Ule(hi, mx), w.tt.Ule(lo, hi)))
	if !w.branch(ok) {
		w.panicWhere = ""
		w.goPanic("runtime error: slice bounds out of range")
	}
	l := int(w.concInt(lo, 0, int64(c), "slice low"))
	h := int(w.concInt(hi, int64(l), int64(c), "slice high"))
	m := int(w.concInt(mx, int64(h), int64(c), "slice max"))
	if isStr {
		return w.substr(s, l, h)
	}
	if cells == nil {
		return Slice{}
	}
	return Slice{cells[l:h:m]}
}

// ---- iteration

type iter struct {
	str   bool
	b     []*Term
	pos   int
	m     *MapObj
	order []int
}

func (w *Worker) newMapIter(m *MapObj) *iter {
	it := &iter{m: m}
	if m == nil {
		return it
	}
	for i := range m.keys {
		if m.live[i] {
			it.order = append(it.order, i)
		}
	}
	if w.opts.MapOrder > 1 && len(it.order) > 1 && w.mapForks < w.opts.MapOrderForks {
		n := len(it.order)
		// symbolic iteration order: rotation + optional reversal for larger maps, all permutations for <=3
		if n <= w.opts.MapOrder {
			w.mapForks++
			for i := 0; i < n-1; i++ {
				k := w.choose("maporder", n-i)
				it.order[i], it.order[i+k] = it.order[i+k], it.order[i]
			}
		} else {
			w.mapForks++
			if w.choose("mapreverse", 2) == 1 {
				for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
					it.order[i], it.order[j] = it.order[j], it.order[i]
				}
			}
		}
	}
	return it
}

func (w *Worker) next(it *iter, ins *ssa.Next) Value {
	if it.str {
		if it.pos >= len(it.b) {
			return Tuple{w.tt.False, w.tt.Const(64, 0), w.tt.Const(32, 0)}
		}
		p := it.pos
		r, n := w.decodeRune(it.b[p:])
		it.pos += n
		return Tuple{w.tt.True, w.tt.Const(64, uint64(p)), r}
	}
	tt := ins.Type().(*types.Tuple)
	for it.pos < len(it.order) {
		i := it.order[it.pos]
		it.pos++
		if it.m.live[i] {
			return Tuple{w.tt.True, copyVal(it.m.keys[i]), copyVal(it.m.vals[i])}
		}
	}
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return w.zero(t)
	}
	return Tuple{w.tt.False, z(1), z(2)}
}

// decodeRune decodes one UTF-8 sequence with forking on symbolic bytes.
func (w *Worker) decodeRune(b []*Term) (*Term, int) {
	tt := w.tt
	c8 := func(v uint64) *Term { return tt.Const(8, v) }
	if w.branch(tt.Ult(b[0], c8(0x80))) {
		return tt.Zext(b[0], 32), 1
	}
	bad := tt.Const(32, 0xfffd)
	if w.branch(tt.Or(tt.Ult(b[0], c8(0xc2)), tt.Ult(c8(0xf4), b[0]))) {
		return bad, 1
	}
	cont := func(i int, lo, hi *Term) bool {
		if len(b) <= i {
			return false
		}
		return w.branch(tt.And(tt.Ule(lo, b[i]), tt.Ule(b[i], hi)))
	}
	low6 := func(i int) *Term { return tt.Extract(b[i], 5, 0) }
	z := func(t *Term) *Term { return tt.Zext(t, 32) }
	if w.branch(tt.Ult(b[0], c8(0xe0))) {
		if !cont(1, c8(0x80), c8(0xbf)) {
			return bad, 1
		}
		return z(tt.Concat(tt.Extract(b[0], 4, 0), low6(1))), 2
	}
	if w.branch(tt.Ult(b[0], c8(0xf0))) {
		lo := tt.Ite(tt.Eq(b[0], c8(0xe0)), c8(0xa0), c8(0x80))
		hi := tt.Ite(tt.Eq(b[0], c8(0xed)), c8(0x9f), c8(0xbf))
		if !cont(1, lo, hi) || !cont(2, c8(0x80), c8(0xbf)) {
			return bad, 1
		}
		return z(tt.Concat(tt.Extract(b[0], 3, 0), tt.Concat(low6(1), low6(2)))), 3
	}
	lo := tt.Ite(tt.Eq(b[0], c8(0xf0)), c8(0x90), c8(0x80))
	hi := tt.Ite(tt.Eq(b[0], c8(0xf4)), c8(0x8f), c8(0xbf))
	if !cont(1, lo, hi) || !cont(2, c8(0x80), c8(0xbf)) || !cont(3, c8(0x80), c8(0xbf)) {
		return bad, 1
	}
	return z(tt.Concat(tt.Extract(b[0], 2, 0), tt.Concat(low6(1), tt.Concat(low6(2), low6(3))))), 4
}

func (w *Worker) encodeRune(r *Term) []*Term {
	tt := w.tt
	c := func(v uint64) *Term { return tt.Const(32, v) }
	ex := func(hi, lo uint8) *Term { return tt.Extract(r, hi, lo) }
	if w.branch(tt.Ult(r, c(0x80))) {
		return []*Term{ex(7, 0)}
	}
	if w.branch(tt.Ult(r, c(0x800))) {
		return []*Term{tt.Concat(tt.Const(3, 6), ex(10, 6)), tt.Concat(tt.Const(2, 2), ex(5, 0))}
	}
	if w.branch(tt.Or(tt.Ult(c(0x10ffff), r), tt.And(tt.Ule(c(0xd800), r), tt.Ule(r, c(0xdfff))))) {
		return []*Term{tt.Const(8, 0xef), tt.Const(8, 0xbf), tt.Const(8, 0xbd)}
	}
	if w.branch(tt.Ult(r, c(0x10000))) {
		return []*Term{tt.Concat(tt.Const(4, 0xe), ex(15, 12)), tt.Concat(tt.Const(2, 2), ex(11, 6)), tt.Concat(tt.Const(2, 2), ex(5, 0))}
	}
	return []*Term{tt.Concat(tt.Const(5, 0x1e), ex(20, 18)), tt.Concat(tt.Const(2, 2), ex(17, 12)), tt.Concat(tt.Const(2, 2), ex(11, 6)), tt.Concat(tt.Const(2, 2), ex(5, 0))}
}

// ---- operators

func (w *Worker) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	tt := w.tt
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		if fw := floatWidth(xt); fw != 0 {
			r = tt.FCmp(OpFEq, w.tm(x), w.tm(y))
		} else if _, isI := x.(Iface); isI {
			r = w.equal(x, w.asIface(y, yt))
		} else if _, isI := y.(Iface); isI {
			r = w.equal(w.asIface(x, xt), y)
		} else {
			r = w.equal(x, y)
		}
		if op == token.NEQ {
			r = tt.Not(r)
		}
		return r
	}
	if isString(xt) {
		a, b := w.str(x), w.str(y)
		switch op {
		case token.ADD:
			return w.concatStr(a, b)
		case token.LSS:
			return w.strLess(a, b, false)
		case token.LEQ:
			return w.strLess(a, b, true)
		case token.GTR:
			return w.strLess(b, a, false)
		case token.GEQ:
			return w.strLess(b, a, true)
		}
	}
	if fw := floatWidth(xt); fw != 0 {
		a, b := w.tm(x), w.tm(y)
		switch op {
		case token.ADD:
			return tt.FArith(OpFAdd, a, b)
		case token.SUB:
			return tt.FArith(OpFSub, a, b)
		case token.MUL:
			return tt.FArith(OpFMul, a, b)
		case token.QUO:
			return tt.FArith(OpFDiv, a, b)
		case token.LSS:
			return tt.FCmp(OpFLt, a, b)
		case token.LEQ:
			return tt.FCmp(OpFLe, a, b)
		case token.GTR:
			return tt.FCmp(OpFLt, b, a)
		case token.GEQ:
			return tt.FCmp(OpFLe, b, a)
		}
	}
	iw, signed := intInfo(xt)
	if iw == 0 {
		if isBool(xt) {
			switch op {
			case token.AND, token.LAND:
				return tt.And(w.tm(x), w.tm(y))
			case token.OR, token.LOR:
				return tt.Or(w.tm(x), w.tm(y))
			}
		}
		w.unsupported(fmt.Sprintf("binop %v on %v", op, xt))
	}
	a, b := w.tm(x), w.tm(y)
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if a.op == OpMul || b.op == OpMul {
			a, b = w.unscale(a, b)
		}
	}
	switch op {
	case token.ADD:
		return tt.Arith(OpAdd, a, b)
	case token.SUB:
		return tt.Arith(OpSub, a, b)
	case token.MUL:
		return tt.Arith(OpMul, a, b)
	case token.QUO, token.REM:
		if w.branch(tt.Eq(b, tt.Const(b.w, 0))) {
			w.panicWhere = ""
			w.goPanic("runtime error: integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return tt.Div(OpSDiv, a, b)
		case op == token.QUO:
			return tt.Div(OpUDiv, a, b)
		case signed:
			return tt.Div(OpSRem, a, b)
		default:
			return tt.Div(OpURem, a, b)
		}
	case token.AND:
		return tt.BAnd(a, b)
	case token.OR:
		return tt.BOr(a, b)
	case token.XOR:
		return tt.BXor(a, b)
	case token.AND_NOT:
		return tt.BAnd(a, tt.BNot(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if w.branch(tt.Slt(b, tt.Const(b.w, 0))) {
				w.panicWhere = ""
				w.goPanic("runtime error: negative shift amount")
			}
		}
		if op == token.SHL {
			return tt.Shift(OpShl, a, b)
		}
		if signed {
			return tt.Shift(OpAshr, a, b)
		}
		return tt.Shift(OpLshr, a, b)
	case token.LSS:
		if signed {
			return tt.Slt(a, b)
		}
		return tt.Ult(a, b)
	case token.LEQ:
		if signed {
			return tt.Sle(a, b)
		}
		return tt.Ule(a, b)
	case token.GTR:
		if signed {
			return tt.Slt(b, a)
		}
		return tt.Ult(b, a)
	case token.GEQ:
		if signed {
			return tt.Sle(b, a)
		}
		return tt.Ule(b, a)
	}
	w.unsupported("binop " + op.String())
	return nil
}

func (w *Worker) asIface(v Value, t types.Type) Value {
	if _, ok := v.(Iface); ok {
		return v
	}
	return Iface{t: w.eng.canon(t), v: v}
}

func (w *Worker) convert(from, to types.Type, v Value) Value {
	tt := w.tt
	fu, tu := from.Underlying(), to.Underlying()
	if tw, tsigned := intInfo(tu); tw != 0 {
		if fw, fs := intInfo(fu); fw != 0 {
			return tt.Resize(w.tm(v), tw, fs)
		}
		if fw := floatWidth(fu); fw != 0 {
			return tt.FToInt(w.tm(v), tw, tsigned)
		}
		if b, ok := fu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
			return Opaque{"uintptr"}
		}
	}
	if tw := floatWidth(tu); tw != 0 {
		if iw, s := intInfo(fu); iw != 0 {
			return tt.FFromInt(w.tm(v), tw, s)
		}
		if fw := floatWidth(fu); fw != 0 {
			return tt.FCvt(w.tm(v), tw)
		}
	}
	if isString(tu) {
		if isString(fu) {
			return v
		}
		if _, s := intInfo(fu); true {
			if iw, _ := intInfo(fu); iw != 0 {
				t := w.tm(v)
				if iw > 32 {
					if !w.branch(tt.Ule(t, tt.Const(iw, 0x10ffff))) {
						return Str{s: "\uFFFD"}
					}
				}
				return w.normStr(w.encodeRune(tt.Resize(t, 32, s)))
			}
		}
		if sl, ok := fu.(*types.Slice); ok {
			s := v.(Slice)
			ew, _ := intInfo(sl.Elem())
			var out []*Term
			if ew == 8 {
				out = make([]*Term, len(s.c))
				for i, c := range s.c {
					out[i] = w.tm(c)
				}
			} else {
				for _, c := range s.c {
					out = append(out, w.encodeRune(w.tm(c))...)
				}
			}
			return w.normStr(out)
		}
	}
	if sl, ok := tu.(*types.Slice); ok {
		if isString(fu) {
			ew, _ := intInfo(sl.Elem())
			bs := w.strBytes(w.str(v))
			if ew == 8 {
				c := make([]Value, len(bs))
				for i, b := range bs {
					c[i] = b
				}
				return Slice{c}
			}
			c := []Value{}
			for i := 0; i < len(bs); {
				r, n := w.decodeRune(bs[i:])
				c = append(c, r)
				i += n
			}
			return Slice{c}
		}
		if _, ok := fu.(*types.Slice); ok {
			return v
		}
	}
	switch tu.(type) {
	case *types.Pointer:
		return v
	case *types.Basic:
		if b := tu.(*types.Basic); b.Kind() == types.UnsafePointer {
			return v
		}
	case *types.Signature, *types.Map, *types.Chan, *types.Struct, *types.Interface:
		return v
	}
	w.unsupported(fmt.Sprintf("convert %v -> %v", from, to))
	return nil
}
