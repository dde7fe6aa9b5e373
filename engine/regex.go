package main

import (
	"regexp/syntax"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Regular expressions: the pattern is compiled by the standard library's regexp/syntax, the automaton is
// run over symbolic bytes, forking only where bytes lead to different automaton states.

type reObj struct {
	src  string
	prog *syntax.Prog
	memo map[string]*reTrans
	max  rune
}

type reGroup struct {
	key    string
	ranges []bool // 256
	list   []uint32
}

type reTrans struct{ groups []reGroup }

func (w *Worker) compileRe(src string) *reObj {
	re, err := syntax.Parse(src, syntax.Perl)
	if err != nil {
		w.goPanic("regexp: Compile(" + strconv.Quote(src) + "): " + err.Error())
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		w.goPanic("regexp: " + err.Error())
	}
	return &reObj{src: src, prog: p, memo: map[string]*reTrans{}}
}

// closure expands pcs in priority order at a position (atStart, atEnd known); returns rune threads and whether a match thread is
// present (cutting lower priorities).
func (r *reObj) closure(w *Worker, pcs []uint32, atStart, atEnd bool) (threads []uint32, match bool) {
	seen := map[uint32]bool{}
	var add func(pc uint32) bool
	add = func(pc uint32) bool {
		if seen[pc] {
			return true
		}
		seen[pc] = true
		in := &r.prog.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
		case syntax.InstAlt, syntax.InstAltMatch:
			return add(in.Out) && add(in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			return add(in.Out)
		case syntax.InstEmptyWidth:
			e := syntax.EmptyOp(in.Arg)
			if e&^(syntax.EmptyBeginText|syntax.EmptyEndText|syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
				w.unsupported("regexp word boundary")
			}
			if e&(syntax.EmptyBeginLine|syntax.EmptyEndLine) != 0 {
				w.unsupported("regexp multi-line")
			}
			if e&syntax.EmptyBeginText != 0 && !atStart {
				return true
			}
			if e&syntax.EmptyEndText != 0 && !atEnd {
				return true
			}
			return add(in.Out)
		case syntax.InstMatch:
			match = true
			return false
		default:
			threads = append(threads, pc)
		}
		return true
	}
	for _, pc := range pcs {
		if !add(pc) {
			break
		}
	}
	return
}

func (r *reObj) step(threads []uint32) *reTrans {
	var kb strings.Builder
	for _, t := range threads {
		kb.WriteString(strconv.Itoa(int(t)))
		kb.WriteByte(',')
	}
	if t, ok := r.memo[kb.String()]; ok {
		return t
	}
	m := map[string]*reGroup{}
	for c := 0; c < 256; c++ {
		ru := rune(c)
		if c >= 0x80 {
			ru = 0xFFFD
		}
		var list []uint32
		var k strings.Builder
		for _, t := range threads {
			if r.prog.Inst[t].MatchRune(ru) {
				list = append(list, r.prog.Inst[t].Out)
				k.WriteString(strconv.Itoa(int(r.prog.Inst[t].Out)))
				k.WriteByte(',')
			}
		}
		g := m[k.String()]
		if g == nil {
			g = &reGroup{key: k.String(), ranges: make([]bool, 256), list: list}
			m[k.String()] = g
		}
		g.ranges[c] = true
	}
	t := &reTrans{}
	for _, g := range m {
		t.groups = append(t.groups, *g)
	}
	sort.Slice(t.groups, func(i, j int) bool { return t.groups[i].key < t.groups[j].key })
	r.memo[kb.String()] = t
	return t
}

func (w *Worker) inClass(b *Term, set []bool) *Term {
	res := w.tt.False
	for i := 0; i < 256; {
		if !set[i] {
			i++
			continue
		}
		j := i
		for j+1 < 256 && set[j+1] {
			j++
		}
		var c *Term
		if i == j {
			c = w.tt.Eq(b, w.tt.Const(8, uint64(i)))
		} else {
			c = w.tt.And(w.tt.Ule(w.tt.Const(8, uint64(i)), b), w.tt.Ule(b, w.tt.Const(8, uint64(j))))
		}
		res = w.tt.Or(res, c)
		i = j + 1
	}
	return res
}

// matchAt returns the end of the leftmost-first match starting at start, or -1.
func (w *Worker) matchAt(r *reObj, s []*Term, start int) int {
	end := -1
	pcs := []uint32{uint32(r.prog.Start)}
	for pos := start; ; pos++ {
		threads, match := r.closure(w, pcs, pos == 0, pos == len(s))
		if match {
			end = pos
		}
		if len(threads) == 0 || pos == len(s) {
			return end
		}
		tr := r.step(threads)
		pcs = nil
		b := s[pos]
		if b.isConst() {
			for _, g := range tr.groups {
				if g.ranges[b.val] {
					pcs = g.list
				}
			}
		} else {
			for i, g := range tr.groups {
				if i == len(tr.groups)-1 || w.branch(w.inClass(b, g.ranges)) {
					pcs = g.list
					break
				}
			}
		}
		if len(pcs) == 0 {
			return end
		}
	}
}

func (w *Worker) reFind(r *reObj, s []*Term) (int, int) {
	anch := r.prog.StartCond()&syntax.EmptyBeginText != 0
	for st := 0; st <= len(s); st++ {
		if st > 0 && anch {
			break
		}
		if e := w.matchAt(r, s, st); e >= 0 {
			return st, e
		}
	}
	return -1, -1
}

func initRegexp(n map[string]nativeFn) {
	newRe := func(w *Worker, src string) Value {
		p := new(Value)
		*p = w.zero(w.eng.pkgs["regexp"].Type("Regexp").Type())
		w.side[p] = w.compileRe(src)
		return Ptr(p)
	}
	obj := func(w *Worker, v Value) *reObj {
		r, ok := w.side[w.ptr(v)].(*reObj)
		if !ok {
			w.unsupported("unknown regexp object")
		}
		return r
	}
	n["regexp.MustCompile"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return newRe(w, w.constStr(a[0])), true
	}
	n["regexp.Compile"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return Tuple{newRe(w, w.constStr(a[0])), Iface{}}, true
	}
	n["regexp.MatchString"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		i, _ := w.reFind(w.compileRe(w.constStr(a[0])), w.strBytes(w.str(a[1])))
		return Tuple{w.tt.Bool(i >= 0), Iface{}}, true
	}
	n["(*regexp.Regexp).MatchString"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		i, _ := w.reFind(obj(w, a[0]), w.strBytes(w.str(a[1])))
		return w.tt.Bool(i >= 0), true
	}
	n["(*regexp.Regexp).FindString"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		s := w.str(a[1])
		i, e := w.reFind(obj(w, a[0]), w.strBytes(s))
		if i < 0 {
			return Str{}, true
		}
		return w.substr(s, i, e), true
	}
	n["(*regexp.Regexp).FindStringIndex"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		i, e := w.reFind(obj(w, a[0]), w.strBytes(w.str(a[1])))
		if i < 0 {
			return Slice{}, true
		}
		return Slice{[]Value{w.tt.Const(64, uint64(i)), w.tt.Const(64, uint64(e))}}, true
	}
	n["(*regexp.Regexp).String"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return Str{s: obj(w, a[0]).src}, true
	}
}

var _ *ssa.Function
