package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector / boolean expressions. Width 0 means Bool.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot // bool
	OpAnd // bool
	OpOr  // bool
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBNot
	OpBNeg
	OpBAnd
	OpBOr
	OpBXor
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract
	OpSext
	// floating point over IEEE bit patterns
	OpFEq
	OpFLt
	OpFLe
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFCvt   // float bits -> float bits of another width (32<->64)
	OpFFromS // signed bv -> float bits
	OpFFromU
	OpFToS // float bits -> signed bv (truncation)
	OpFToU
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpBNot: "bvnot", OpBNeg: "bvneg", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat"}

type Term struct {
	op     Op
	w      uint8 // result width, 0 bool
	n      uint8
	hi, lo uint8
	sent   bool
	id     int32
	a      [3]*Term
	val    uint64
	name   string
	evGen  uint32
	evVal  uint64
	vs     *vset
}

type tkey struct {
	op        Op
	w, hi, lo uint8
	a, b, c   int32
	val       uint64
	name      string
}

type TermTab struct {
	tab    map[tkey]*Term
	consts map[uint64]*Term // small cache keyed by w<<56|val for val < 2^56
	small  [65][256]*Term
	n      int32
	True   *Term
	False  *Term
	byID   []*Term
	rngs   map[*Term]rng
}

func NewTermTab() *TermTab {
	t := &TermTab{tab: make(map[tkey]*Term)}
	t.False = t.Const(0, 0)
	t.True = t.Const(0, 1)
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *TermTab) intern(k tkey, mk func() *Term) *Term {
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := mk()
	x.id = t.n
	t.n++
	t.tab[k] = x
	t.byID = append(t.byID, x)
	return x
}

func (t *TermTab) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		if x := t.small[w][v]; x != nil {
			return x
		}
	}
	x := t.intern(tkey{op: OpConst, w: w, val: v}, func() *Term { return &Term{op: OpConst, w: w, val: v} })
	if v < 256 {
		t.small[w][v] = x
	}
	return x
}

func (t *TermTab) Bool(b bool) *Term {
	if b {
		return t.True
	}
	return t.False
}

func (t *TermTab) Var(name string, w uint8) *Term {
	return t.intern(tkey{op: OpVar, w: w, name: name}, func() *Term { return &Term{op: OpVar, w: w, name: name} })
}

func (t *TermTab) mk(op Op, w uint8, args ...*Term) *Term {
	return t.mkx(op, w, 0, 0, args...)
}

func (t *TermTab) mkx(op Op, w, hi, lo uint8, args ...*Term) *Term {
	k := tkey{op: op, w: w, hi: hi, lo: lo, a: -1, b: -1, c: -1}
	if len(args) > 0 {
		k.a = args[0].id
	}
	if len(args) > 1 {
		k.b = args[1].id
	}
	if len(args) > 2 {
		k.c = args[2].id
	}
	return t.intern(k, func() *Term {
		x := &Term{op: op, w: w, hi: hi, lo: lo, n: uint8(len(args))}
		copy(x.a[:], args)
		return x
	})
}

func (x *Term) isConst() bool { return x.op == OpConst }
func (x *Term) isTrue() bool  { return x.op == OpConst && x.w == 0 && x.val == 1 }
func (x *Term) isFalse() bool { return x.op == OpConst && x.w == 0 && x.val == 0 }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// ---- booleans

func (t *TermTab) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.a[0]
	}
	switch a.op {
	case OpUlt:
		return t.Ule(a.a[1], a.a[0])
	case OpUle:
		return t.Ult(a.a[1], a.a[0])
	case OpSlt:
		return t.Sle(a.a[1], a.a[0])
	case OpSle:
		return t.Slt(a.a[1], a.a[0])
	}
	return t.mk(OpNot, 0, a)
}

func (t *TermTab) And(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if t.Not(a) == b {
		return t.False
	}
	if a.id > b.id && a.op != OpAnd {
		// keep left-nested chains as they are, order only simple pairs
		if b.op != OpAnd {
			a, b = b, a
		}
	}
	return t.mk(OpAnd, 0, a, b)
}

func (t *TermTab) Or(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if t.Not(a) == b {
		return t.True
	}
	return t.mk(OpOr, 0, a, b)
}

func (t *TermTab) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite widths %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.isTrue() && b.isFalse() {
			return c
		}
		if a.isFalse() && b.isTrue() {
			return t.Not(c)
		}
		if a.isConst() {
			if a.val == 1 {
				return t.Or(c, b)
			}
			return t.And(t.Not(c), b)
		}
		if b.isConst() {
			if b.val == 0 {
				return t.And(c, a)
			}
			return t.Or(t.Not(c), a)
		}
	}
	if c.op == OpNot {
		return t.mk(OpIte, a.w, c.a[0], b, a)
	}
	return t.mk(OpIte, a.w, c, a, b)
}

// ---- comparisons

func (t *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return t.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq widths %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return t.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			if a.val == 1 {
				return b
			}
			return t.Not(b)
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return t.Not(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch a.op {
		case OpIte:
			if a.a[1].isConst() || a.a[2].isConst() {
				return t.Ite(a.a[0], t.Eq(a.a[1], b), t.Eq(a.a[2], b))
			}
		case OpConcat:
			lw := a.a[1].w
			return t.And(t.Eq(a.a[0], t.Const(a.a[0].w, b.val>>lw)), t.Eq(a.a[1], t.Const(lw, b.val)))
		case OpSext:
			in := a.a[0]
			v := b.val & mask(in.w)
			if uint64(sext64(v, in.w))&mask(a.w) != b.val {
				return t.False
			}
			return t.Eq(in, t.Const(in.w, v))
		case OpAdd:
			if a.a[1].isConst() {
				return t.Eq(a.a[0], t.Const(a.w, b.val-a.a[1].val))
			}
		case OpBXor:
			if a.a[1].isConst() {
				return t.Eq(a.a[0], t.Const(a.w, b.val^a.a[1].val))
			}
		case OpBNot:
			return t.Eq(a.a[0], t.Const(a.w, ^b.val))
		}
	} else {
		if a.op == OpConcat && b.op == OpConcat && a.a[1].w == b.a[1].w {
			return t.And(t.Eq(a.a[0], b.a[0]), t.Eq(a.a[1], b.a[1]))
		}
		if a.op == OpConcat || b.op == OpConcat {
			// split along the concat boundary when the other side can be cut cheaply
			if b.op == OpConcat && a.op != OpConcat {
				a, b = b, a
			}
			if b.op == OpVar || b.op == OpExtract || b.op == OpSext || b.op == OpConcat {
				lw := a.a[1].w
				return t.And(t.Eq(a.a[0], t.Extract(b, b.w-1, lw)), t.Eq(a.a[1], t.Extract(b, lw-1, 0)))
			}
		}
		if a.op == OpSext && b.op == OpSext && a.a[0].w == b.a[0].w {
			return t.Eq(a.a[0], b.a[0])
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return t.mk(OpEq, 0, a, b)
}

// umax returns an upper bound of a as unsigned value.
func (t *TermTab) umax(a *Term) uint64 {
	switch a.op {
	case OpConst:
		return a.val
	case OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpExtract, OpSext:
		if r := t.rangeOf(a); r.ok && r.base+r.span >= r.base && r.base+r.span <= mask(a.w) {
			return r.base + r.span
		}
		return mask(a.w)
	case OpConcat:
		return t.umax(a.a[0])<<a.a[1].w | t.umax(a.a[1])
	case OpIte:
		x, y := t.umaxShallow(a.a[1]), t.umaxShallow(a.a[2])
		if x > y {
			return x
		}
		return y
	}
	return mask(a.w)
}
func (t *TermTab) umaxShallow(a *Term) uint64 {
	if a.op == OpConst {
		return a.val
	}
	if a.op == OpConcat && a.a[0].isConst() {
		return a.a[0].val<<a.a[1].w | mask(a.a[1].w)
	}
	return mask(a.w)
}

// umin: lower bound.
func (t *TermTab) umin(a *Term) uint64 {
	switch a.op {
	case OpConst:
		return a.val
	case OpConcat:
		return t.umin(a.a[0])<<a.a[1].w | t.umin(a.a[1])
	case OpAdd, OpSub, OpMul, OpUDiv, OpURem, OpExtract, OpSext:
		if r := t.rangeOf(a); r.ok && r.base+r.span >= r.base && r.base+r.span <= mask(a.w) {
			return r.base
		}
	}
	return 0
}

func (t *TermTab) Ult(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Bool(a.val < b.val)
	}
	if a == b {
		return t.False
	}
	if t.umax(a) < t.umin(b) {
		return t.True
	}
	if t.umin(a) >= t.umax(b) {
		return t.False
	}
	// strip common constant high part
	if a.op == OpConcat && a.a[0].isConst() && a.a[0].val == 0 && b.isConst() && b.val <= mask(a.a[1].w) {
		return t.Ult(a.a[1], t.Const(a.a[1].w, b.val))
	}
	if b.op == OpConcat && b.a[0].isConst() && b.a[0].val == 0 && a.isConst() && a.val <= mask(b.a[1].w) {
		return t.Ult(t.Const(b.a[1].w, a.val), b.a[1])
	}
	if b.isConst() && b.val == 1 {
		return t.Eq(a, t.Const(a.w, 0))
	}
	if a.isConst() && a.val == 0 {
		return t.Not(t.Eq(b, a))
	}
	return t.mk(OpUlt, 0, a, b)
}

func (t *TermTab) Ule(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Bool(a.val <= b.val)
	}
	if a == b {
		return t.True
	}
	if t.umax(a) <= t.umin(b) {
		return t.True
	}
	if t.umin(a) > t.umax(b) {
		return t.False
	}
	if b.isConst() { // a <= c  <=> a < c+1 (c != max)
		if b.val == mask(b.w) {
			return t.True
		}
		return t.Ult(a, t.Const(b.w, b.val+1))
	}
	if a.isConst() {
		if a.val == 0 {
			return t.True
		}
		return t.Ult(t.Const(a.w, a.val-1), b)
	}
	return t.mk(OpUle, 0, a, b)
}

func (t *TermTab) signKnownNonNeg(a *Term) bool { return t.umax(a) <= mask(a.w)>>1 }

func (t *TermTab) Slt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if a == b {
		return t.False
	}
	if t.signKnownNonNeg(a) && t.signKnownNonNeg(b) {
		return t.Ult(a, b)
	}
	if r := t.sextCmp(a, b, true); r != nil {
		return r
	}
	return t.mk(OpSlt, 0, a, b)
}

// sextCmp simplifies signed comparison of sign extensions against constants or each other.
func (t *TermTab) sextCmp(a, b *Term, strict bool) *Term {
	f := t.Sle
	if strict {
		f = t.Slt
	}
	if a.op == OpSext && b.op == OpSext && a.a[0].w == b.a[0].w {
		return f(a.a[0], b.a[0])
	}
	if a.op == OpSext && b.isConst() {
		w := a.a[0].w
		v := sext64(b.val, b.w)
		lo, hi := -(int64(1) << (w - 1)), int64(1)<<(w-1)-1
		if v > hi {
			return t.True
		}
		if v < lo {
			return t.False
		}
		return f(a.a[0], t.Const(w, uint64(v)))
	}
	if b.op == OpSext && a.isConst() {
		w := b.a[0].w
		v := sext64(a.val, a.w)
		lo, hi := -(int64(1) << (w - 1)), int64(1)<<(w-1)-1
		if v > hi {
			return t.False
		}
		if v < lo {
			return t.True
		}
		return f(t.Const(w, uint64(v)), b.a[0])
	}
	return nil
}

func (t *TermTab) Sle(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Bool(sext64(a.val, a.w) <= sext64(b.val, b.w))
	}
	if a == b {
		return t.True
	}
	if t.signKnownNonNeg(a) && t.signKnownNonNeg(b) {
		return t.Ule(a, b)
	}
	if r := t.sextCmp(a, b, false); r != nil {
		return r
	}
	return t.mk(OpSle, 0, a, b)
}

// ---- structure

func (t *TermTab) Concat(a, b *Term) *Term {
	if a.w+b.w > 64 {
		panic("concat too wide")
	}
	w := a.w + b.w
	if a.isConst() && b.isConst() {
		return t.Const(w, a.val<<b.w|b.val)
	}
	// extract adjacency
	if a.op == OpExtract && b.op == OpExtract && a.a[0] == b.a[0] && a.lo == b.hi+1 {
		return t.Extract(a.a[0], a.hi, b.lo)
	}
	// a ++ (b1 ++ b2) with a,b1 mergeable
	if b.op == OpConcat {
		b1, b2 := b.a[0], b.a[1]
		if (a.isConst() && b1.isConst()) || (a.op == OpExtract && b1.op == OpExtract && a.a[0] == b1.a[0] && a.lo == b1.hi+1) {
			return t.Concat(t.Concat(a, b1), b2)
		}
	}
	// keep right-nested
	if a.op == OpConcat {
		return t.Concat(a.a[0], t.Concat(a.a[1], b))
	}
	return t.mk(OpConcat, w, a, b)
}

func (t *TermTab) Extract(a *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == a.w-1 {
		return a
	}
	w := hi - lo + 1
	switch a.op {
	case OpConst:
		return t.Const(w, a.val>>lo)
	case OpExtract:
		return t.Extract(a.a[0], a.lo+hi, a.lo+lo)
	case OpConcat:
		lw := a.a[1].w
		if lo >= lw {
			return t.Extract(a.a[0], hi-lw, lo-lw)
		}
		if hi < lw {
			return t.Extract(a.a[1], hi, lo)
		}
		return t.Concat(t.Extract(a.a[0], hi-lw, 0), t.Extract(a.a[1], lw-1, lo))
	case OpSext:
		in := a.a[0]
		if hi < in.w {
			return t.Extract(in, hi, lo)
		}
		if lo < in.w {
			return t.Sext(t.Extract(in, in.w-1, lo), w)
		}
		return t.Sext(t.Extract(in, in.w-1, in.w-1), w)
	case OpIte:
		if a.a[1].isConst() || a.a[2].isConst() {
			return t.Ite(a.a[0], t.Extract(a.a[1], hi, lo), t.Extract(a.a[2], hi, lo))
		}
	case OpBAnd, OpBOr, OpBXor:
		return t.bitop(a.op, t.Extract(a.a[0], hi, lo), t.Extract(a.a[1], hi, lo))
	case OpBNot:
		return t.BNot(t.Extract(a.a[0], hi, lo))
	case OpAdd, OpSub, OpMul:
		if lo == 0 { // low bits depend only on low bits
			return t.Arith(a.op, t.Extract(a.a[0], hi, 0), t.Extract(a.a[1], hi, 0))
		}
	}
	return t.mkx(OpExtract, w, hi, lo, a)
}

func (t *TermTab) Zext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	return t.Concat(t.Const(w-a.w, 0), a)
}

func (t *TermTab) Sext(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.isConst() {
		return t.Const(w, uint64(sext64(a.val, a.w)))
	}
	if t.umax(a) <= mask(a.w)>>1 {
		return t.Zext(a, w)
	}
	if a.op == OpSext {
		return t.Sext(a.a[0], w)
	}
	return t.mk(OpSext, w, a)
}

// Resize converts an integer term to width w, extending per signedness of the source.
func (t *TermTab) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return t.Extract(a, w-1, 0)
	}
	if signed {
		return t.Sext(a, w)
	}
	return t.Zext(a, w)
}

// ---- bit operations

func (t *TermTab) BNot(a *Term) *Term {
	if a.isConst() {
		return t.Const(a.w, ^a.val)
	}
	if a.op == OpBNot {
		return a.a[0]
	}
	return t.mk(OpBNot, a.w, a)
}

// segments of a right-nested concat, least significant last
func segBoundaries(a *Term, out *uint64) {
	// sets bit i (1..63) when a boundary exists at bit position i
	pos := a.w
	for a.op == OpConcat {
		pos -= a.a[0].w
		if pos > 0 && pos < 64 {
			*out |= 1 << pos
		}
		a = a.a[1]
	}
}

func constBoundaries(v uint64, w uint8, out *uint64) {
	for i := uint8(1); i < w; i++ {
		if (v>>i)&1 != (v>>(i-1))&1 {
			*out |= 1 << i
		}
	}
}

func (t *TermTab) bitop(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OpBAnd:
			return t.Const(w, a.val&b.val)
		case OpBOr:
			return t.Const(w, a.val|b.val)
		default:
			return t.Const(w, a.val^b.val)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if a == b {
		if op == OpBXor {
			return t.Const(w, 0)
		}
		return a
	}
	if b.isConst() {
		switch {
		case op == OpBAnd && b.val == 0:
			return b
		case op == OpBAnd && b.val == mask(w):
			return a
		case op == OpBOr && b.val == 0, op == OpBXor && b.val == 0:
			return a
		case op == OpBOr && b.val == mask(w):
			return b
		case op == OpBXor && b.val == mask(w):
			return t.BNot(a)
		}
	}
	if a.op == OpConcat || b.op == OpConcat || (b.isConst() && op != OpBXor && bits.OnesCount64(runs(b.val, w)) <= 4) {
		var bd uint64
		segBoundaries(a, &bd)
		segBoundaries(b, &bd)
		if b.isConst() {
			if op == OpBXor {
				if a.op != OpConcat {
					bd = 0
				}
			} else {
				constBoundaries(b.val, w, &bd)
			}
		}
		if bd != 0 {
			var res *Term
			hi := w - 1
			for {
				lo := uint8(0)
				if hi > 0 {
					m := bd & (uint64(1)<<hi | (uint64(1)<<hi - 1))
					if m != 0 {
						lo = uint8(63 - bits.LeadingZeros64(m))
					}
				}
				s := t.bitop(op, t.Extract(a, hi, lo), t.Extract(b, hi, lo))
				if res == nil {
					res = s
				} else {
					res = t.Concat(res, s)
				}
				if lo == 0 {
					break
				}
				hi = lo - 1
			}
			return res
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return t.mk(op, w, a, b)
}

func runs(v uint64, w uint8) uint64 {
	var bd uint64
	constBoundaries(v, w, &bd)
	return bd
}

func (t *TermTab) BAnd(a, b *Term) *Term { return t.bitop(OpBAnd, a, b) }
func (t *TermTab) BOr(a, b *Term) *Term  { return t.bitop(OpBOr, a, b) }
func (t *TermTab) BXor(a, b *Term) *Term { return t.bitop(OpBXor, a, b) }

// ---- arithmetic

func (t *TermTab) Arith(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("arith widths %d %d op %v", a.w, b.w, opNames[op]))
	}
	if a.isConst() && b.isConst() {
		x, y := a.val, b.val
		switch op {
		case OpAdd:
			return t.Const(w, x+y)
		case OpSub:
			return t.Const(w, x-y)
		case OpMul:
			return t.Const(w, x*y)
		}
	}
	switch op {
	case OpAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.a[1].isConst() {
				return t.Arith(OpAdd, a.a[0], t.Const(w, a.a[1].val+b.val))
			}
		}
		// disjoint-bit addition of concats -> or
		if a.op == OpConcat && b.op == OpConcat && t.disjoint(a, b) {
			return t.BOr(a, b)
		}
	case OpSub:
		if a == b {
			return t.Const(w, 0)
		}
		if b.isConst() {
			return t.Arith(OpAdd, a, t.Const(w, -b.val))
		}
	case OpMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
			if bits.OnesCount64(b.val) == 1 {
				return t.ShlC(a, uint(bits.TrailingZeros64(b.val)))
			}
		}
	}
	if op != OpSub && !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return t.mk(op, w, a, b)
}

func (t *TermTab) zeroMask(a *Term) uint64 { // bits known to be zero
	switch a.op {
	case OpConst:
		return ^a.val & mask(a.w)
	case OpConcat:
		return t.zeroMask(a.a[0])<<a.a[1].w | t.zeroMask(a.a[1])
	}
	return 0
}

func (t *TermTab) disjoint(a, b *Term) bool {
	return (t.zeroMask(a)|t.zeroMask(b))&mask(a.w) == mask(a.w)
}

func (t *TermTab) BNeg(a *Term) *Term {
	if a.isConst() {
		return t.Const(a.w, -a.val)
	}
	return t.mk(OpBNeg, a.w, a)
}

func (t *TermTab) ShlC(a *Term, c uint) *Term {
	if c == 0 {
		return a
	}
	if c >= uint(a.w) {
		return t.Const(a.w, 0)
	}
	return t.Concat(t.Extract(a, a.w-1-uint8(c), 0), t.Const(uint8(c), 0))
}

func (t *TermTab) LshrC(a *Term, c uint) *Term {
	if c == 0 {
		return a
	}
	if c >= uint(a.w) {
		return t.Const(a.w, 0)
	}
	return t.Concat(t.Const(uint8(c), 0), t.Extract(a, a.w-1, uint8(c)))
}

func (t *TermTab) AshrC(a *Term, c uint) *Term {
	if c == 0 {
		return a
	}
	if c >= uint(a.w) {
		c = uint(a.w) - 1
	}
	return t.Sext(t.Extract(a, a.w-1, uint8(c)), a.w)
}

// Shift with Go semantics: b is an unsigned count of any width.
func (t *TermTab) Shift(op Op, a, b *Term) *Term {
	if b.isConst() {
		c := b.val
		if c > 64 {
			c = 64
		}
		switch op {
		case OpShl:
			return t.ShlC(a, uint(c))
		case OpLshr:
			return t.LshrC(a, uint(c))
		default:
			return t.AshrC(a, uint(c))
		}
	}
	// normalise count width to a.w, saturating
	var cnt *Term
	if b.w > a.w {
		cnt = t.Ite(t.Ult(b, t.Const(b.w, uint64(a.w))), t.Extract(b, a.w-1, 0), t.Const(a.w, uint64(a.w)))
	} else {
		cnt = t.Zext(b, a.w)
	}
	return t.mk(op, a.w, a, cnt)
}

func (t *TermTab) Div(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() && b.val != 0 {
		return t.Const(w, evalDiv(op, a.val, b.val, w))
	}
	if b.isConst() && b.val != 0 {
		if b.val == 1 && (op == OpUDiv || op == OpSDiv) {
			return a
		}
		if (op == OpSDiv || op == OpSRem) && t.signKnownNonNeg(a) && t.signKnownNonNeg(b) {
			if op == OpSDiv {
				op = OpUDiv
			} else {
				op = OpURem
			}
		}
		if op == OpUDiv || op == OpURem {
			if bits.OnesCount64(b.val) == 1 {
				k := uint(bits.TrailingZeros64(b.val))
				if op == OpUDiv {
					return t.LshrC(a, k)
				}
				return t.BAnd(a, t.Const(w, b.val-1))
			}
			m := t.umax(a)
			if m < b.val {
				if op == OpUDiv {
					return t.Const(w, 0)
				}
				return a
			}
			if r := t.divRange(op, a, b.val); r != nil {
				return r
			}
			// narrow
			nw := uint8(bits.Len64(m))
			if bl := uint8(bits.Len64(b.val)); bl > nw {
				nw = bl
			}
			if nw < w && nw > 0 {
				return t.Zext(t.mk(op, nw, t.Extract(a, nw-1, 0), t.Const(nw, b.val)), w)
			}
		}
	}
	return t.mk(op, w, a, b)
}

// rng is a set of values base, base+1, ..., base+span (modulo 2^w); ok is false if it may be all values.
type rng struct {
	base, span uint64
	ok         bool
}

// rangeOf bounds a term by its structure alone.
func (t *TermTab) rangeOf(a *Term) rng {
	if a.isConst() {
		return rng{a.val, 0, true}
	}
	if r, ok := t.rngs[a]; ok {
		return r
	}
	m := mask(a.w)
	full := rng{0, m, false}
	r := full
	straight := func(x rng, w uint8) bool { return x.ok && x.base+x.span >= x.base && x.base+x.span <= mask(w) }
	switch a.op {
	case OpConcat:
		x, y := t.rangeOf(a.a[0]), t.rangeOf(a.a[1])
		if !straight(y, a.a[1].w) {
			y = rng{0, mask(a.a[1].w), true}
		}
		if a.a[0].isConst() {
			r = rng{x.base<<a.a[1].w | y.base, y.span, true}
		} else if straight(x, a.a[0].w) {
			r = rng{x.base<<a.a[1].w + y.base, x.span<<a.a[1].w + y.span, true}
		}
	case OpAdd, OpSub:
		x, y := t.rangeOf(a.a[0]), t.rangeOf(a.a[1])
		if x.ok && y.ok && x.span+y.span >= x.span && x.span+y.span < m {
			if a.op == OpAdd {
				r = rng{(x.base + y.base) & m, x.span + y.span, true}
			} else {
				r = rng{(x.base - y.base - y.span) & m, x.span + y.span, true}
			}
		}
	case OpMul:
		x, k := t.rangeOf(a.a[0]), a.a[1]
		if x.ok && k.isConst() {
			if hi, lo := bits.Mul64(x.span, k.val); hi == 0 && lo < m {
				r = rng{(x.base * k.val) & m, lo, true}
			}
		}
	case OpUDiv:
		x, k := t.rangeOf(a.a[0]), a.a[1]
		if k.isConst() && k.val > 0 && straight(x, a.w) {
			r = rng{x.base / k.val, (x.base+x.span)/k.val - x.base/k.val, true}
		} else if k.isConst() && k.val > 1 {
			r = rng{0, m / k.val, true}
		}
	case OpURem:
		if k := a.a[1]; k.isConst() && k.val > 0 {
			r = rng{0, k.val - 1, true}
		}
	case OpIte:
		x, y := t.rangeOf(a.a[1]), t.rangeOf(a.a[2])
		if straight(x, a.w) && straight(y, a.w) {
			lo, hi := x.base, x.base+x.span
			if y.base < lo {
				lo = y.base
			}
			if y.base+y.span > hi {
				hi = y.base + y.span
			}
			r = rng{lo, hi - lo, hi-lo < m}
		}
	case OpSext:
		x := t.rangeOf(a.a[0])
		half := mask(a.a[0].w) >> 1
		if x.ok && ((x.base+half+1)&mask(a.a[0].w))+x.span <= mask(a.a[0].w) { // does not pass from the largest to the smallest
			r = rng{uint64(sext64(x.base, a.a[0].w)) & m, x.span, true}
		}
	case OpExtract:
		if a.lo == 0 {
			if x := t.rangeOf(a.a[0]); x.ok && x.span < m {
				r = rng{x.base & m, x.span, true}
			}
		} else if x := t.rangeOf(a.a[0]); straight(x, a.a[0].w) {
			lo, hi := x.base>>a.lo, (x.base+x.span)>>a.lo
			if hi <= m {
				r = rng{lo, hi - lo, hi-lo < m}
			} else if hi-lo < m {
				r = rng{lo & m, hi - lo, true}
			}
		}
	}
	if !r.ok {
		r = full
	}
	if t.rngs == nil {
		t.rngs = map[*Term]rng{}
	}
	t.rngs[a] = r
	return r
}

// divRange divides by a constant relative to the least value the dividend can have, which needs fewer bits.
func (t *TermTab) divRange(op Op, a *Term, k uint64) *Term {
	w := a.w
	r := t.rangeOf(a)
	if !r.ok || r.base+r.span < r.base || r.base+r.span > mask(w) || k == 0 {
		return nil
	}
	q0, r0 := r.base/k, r.base%k
	if r0+r.span < r0 {
		return nil
	}
	nw := uint8(bits.Len64(r0 + r.span))
	if nw == 0 {
		nw = 1
	}
	if r0+r.span < k { // one quotient
		if op == OpUDiv {
			return t.Const(w, q0)
		}
		return t.Zext(t.Arith(OpAdd, t.Extract(t.Arith(OpSub, a, t.Const(w, r.base)), nw-1, 0), t.Const(nw, r0)), w)
	}
	if r.base == 0 || nw >= w {
		return nil
	}
	d := t.Arith(OpAdd, t.Extract(t.Arith(OpSub, a, t.Const(w, r.base)), nw-1, 0), t.Const(nw, r0))
	x := t.Zext(t.mk(op, nw, d, t.Const(nw, k)), w)
	if op == OpUDiv {
		return t.Arith(OpAdd, x, t.Const(w, q0))
	}
	return x
}

func evalDiv(op Op, x, y uint64, w uint8) uint64 {
	if y == 0 {
		switch op {
		case OpUDiv:
			return mask(w)
		case OpURem, OpSRem:
			return x
		default:
			if sext64(x, w) < 0 {
				return 1
			}
			return mask(w)
		}
	}
	switch op {
	case OpUDiv:
		return x / y
	case OpURem:
		return x % y
	case OpSDiv:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == -1 {
			return uint64(-sx) & mask(w)
		}
		return uint64(sx/sy) & mask(w)
	default:
		sx, sy := sext64(x, w), sext64(y, w)
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & mask(w)
	}
}

// ---- floats (bit patterns)

func f64of(v uint64, w uint8) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func isNaNBits(v uint64, w uint8) bool {
	if w == 32 {
		return v&0x7f800000 == 0x7f800000 && v&0x7fffff != 0
	}
	return v&0x7ff0000000000000 == 0x7ff0000000000000 && v&0xfffffffffffff != 0
}

func canonNaN(w uint8) uint64 {
	if w == 32 {
		return 0x7fc00000
	}
	return 0x7ff8000000000000
}

func evalFOp(op Op, x, y uint64, w uint8) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OpFAdd:
			r = a + b
		case OpFSub:
			r = a - b
		case OpFMul:
			r = a * b
		default:
			r = a / b
		}
		if r != r {
			return canonNaN(32)
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OpFAdd:
		r = a + b
	case OpFSub:
		r = a - b
	case OpFMul:
		r = a * b
	default:
		r = a / b
	}
	if r != r {
		return canonNaN(64)
	}
	return math.Float64bits(r)
}

// cvtFloat converts IEEE bit patterns between widths with x86 NaN behaviour (quieting, payload kept).
func cvtFloat(v uint64, from, to uint8) uint64 {
	if from == to {
		return v
	}
	if from == 32 {
		if isNaNBits(v, 32) {
			return (v>>31)<<63 | 0x7ff8000000000000 | (v&0x7fffff)<<29
		}
		return math.Float64bits(float64(math.Float32frombits(uint32(v))))
	}
	if isNaNBits(v, 64) {
		return (v>>63)<<31 | 0x7fc00000 | (v&0xfffffffffffff)>>29
	}
	return uint64(math.Float32bits(float32(math.Float64frombits(v))))
}

func (t *TermTab) FCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		x, y := f64of(a.val, a.w), f64of(b.val, b.w)
		switch op {
		case OpFEq:
			return t.Bool(x == y)
		case OpFLt:
			return t.Bool(x < y)
		default:
			return t.Bool(x <= y)
		}
	}
	if r := t.dyCmp(op, a, b); r != nil {
		return r
	}
	// widened float32 operands: compare at 32 bits
	if a.op == OpFCvt && a.w == 64 && b.op == OpFCvt && b.w == 64 {
		return t.FCmp(op, a.a[0], b.a[0])
	}
	if a.op == OpFCvt && a.w == 64 && b.isConst() {
		c := math.Float64frombits(b.val)
		if c != c {
			return t.False
		}
		d := f32Floor(c)
		if float64(d) == c {
			return t.FCmp(op, a.a[0], t.Const(32, uint64(math.Float32bits(d))))
		}
		if op == OpFEq {
			return t.False
		}
		return t.FCmp(OpFLe, a.a[0], t.Const(32, uint64(math.Float32bits(d))))
	}
	if b.op == OpFCvt && b.w == 64 && a.isConst() {
		c := math.Float64frombits(a.val)
		if c != c {
			return t.False
		}
		d := -f32Floor(-c)
		if float64(d) == c {
			return t.FCmp(op, t.Const(32, uint64(math.Float32bits(d))), b.a[0])
		}
		if op == OpFEq {
			return t.False
		}
		return t.FCmp(OpFLe, t.Const(32, uint64(math.Float32bits(d))), b.a[0])
	}
	// comparisons of IEEE-754 bit patterns, without the theory of floating point
	num := t.True
	for _, x := range []*Term{a, b} {
		if !x.isConst() {
			num = t.And(num, t.Not(t.IsNaN(x)))
		} else if isNaNBits(x.val, x.w) {
			return t.False
		}
	}
	mag := func(x *Term) *Term { return t.BAnd(x, t.Const(x.w, mask(x.w)>>1)) }
	zero := t.And(t.Eq(mag(a), t.Const(a.w, 0)), t.Eq(mag(b), t.Const(a.w, 0)))
	if op == OpFEq {
		return t.And(num, t.Or(t.Eq(a, b), zero))
	}
	key := func(x *Term) *Term {
		top := t.Const(x.w, 1<<(x.w-1))
		return t.Ite(t.Eq(t.Extract(x, x.w-1, x.w-1), t.Const(1, 1)), t.BNot(x), t.BOr(x, top))
	}
	if op == OpFLt {
		return t.And(num, t.And(t.Not(zero), t.Ult(key(a), key(b))))
	}
	return t.And(num, t.Or(zero, t.Ule(key(a), key(b))))
}

// f32Floor is the largest float32 not above c.
func f32Floor(c float64) float32 {
	f := float32(c)
	if float64(f) > c {
		f = math.Nextafter32(f, float32(math.Inf(-1)))
	}
	return f
}

func (t *TermTab) FArith(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return t.Const(a.w, evalFOp(op, a.val, b.val, a.w))
	}
	if op == OpFMul {
		if r := t.dyMul(a, b); r != nil {
			return r
		}
	}
	return t.mk(op, a.w, a, b)
}

func (t *TermTab) FCvt(a *Term, to uint8) *Term {
	if a.w == to {
		return a
	}
	if a.isConst() {
		return t.Const(to, cvtFloat(a.val, a.w, to))
	}
	// float32(float64(x)) == x up to NaN quieting
	if a.op == OpFCvt && a.w == 64 && to == 32 {
		x := a.a[0]
		return t.Ite(t.IsNaN(x), t.BOr(x, t.Const(32, 0x400000)), x)
	}
	if a.op == OpIte && to == 64 { // push through the NaN case split above
		return t.Ite(a.a[0], t.FCvt(a.a[1], to), t.FCvt(a.a[2], to))
	}
	return t.mk(OpFCvt, to, a)
}

func (t *TermTab) IsNaN(a *Term) *Term {
	if a.isConst() {
		return t.Bool(isNaNBits(a.val, a.w))
	}
	if a.op == OpFCvt {
		return t.IsNaN(a.a[0])
	}
	inf := uint64(0x7f800000)
	if a.w == 64 {
		inf = 0x7ff0000000000000
	}
	return t.Ult(t.Const(a.w, inf), t.BAnd(a, t.Const(a.w, mask(a.w)>>1)))
}

func (t *TermTab) FFromInt(a *Term, to uint8, signed bool) *Term {
	if a.isConst() {
		return t.Const(to, evalFFrom(a.val, a.w, to, signed))
	}
	if signed {
		return t.mk(OpFFromS, to, a)
	}
	return t.mk(OpFFromU, to, a)
}

func evalFFrom(v uint64, w, to uint8, signed bool) uint64 {
	if to == 32 {
		if signed {
			return uint64(math.Float32bits(float32(sext64(v, w))))
		}
		return uint64(math.Float32bits(float32(v)))
	}
	if signed {
		return math.Float64bits(float64(sext64(v, w)))
	}
	return math.Float64bits(float64(v))
}

// float -> int as on amd64 for values in range; out of range is implementation specific.
func (t *TermTab) FToInt(a *Term, to uint8, signed bool) *Term {
	if a.isConst() {
		return t.Const(to, evalFTo(a.val, a.w, to, signed))
	}
	if r := t.dyToInt(a, to); r != nil {
		return r
	}
	if signed {
		return t.mk(OpFToS, to, a)
	}
	return t.mk(OpFToU, to, a)
}

func evalFTo(v uint64, w, to uint8, signed bool) uint64 {
	f := f64of(v, w)
	if f != f {
		if to == 64 || signed {
			return (uint64(1) << 63) & mask(to)
		}
		return 0
	}
	if signed {
		if f < -9.223372036854775808e18 || f >= 9.223372036854775808e18 {
			return (uint64(1) << 63) & mask(to)
		}
		return uint64(int64(f)) & mask(to)
	}
	if f >= 9.223372036854775808e18 {
		if f >= 1.8446744073709551616e19 {
			return (uint64(1) << 63) & mask(to)
		}
		return uint64(f) & mask(to)
	}
	if f < -9.223372036854775808e18 {
		return (uint64(1) << 63) & mask(to)
	}
	return uint64(int64(f)) & mask(to)
}

// ---- evaluation

type Model struct {
	vals map[string]uint64
	gen  uint32
}

var modelGen uint32

func (w *Worker) newModel(vals map[string]uint64) *Model {
	w.genCtr++
	return &Model{vals: vals, gen: w.genCtr}
}

func (m *Model) eval(x *Term) uint64 {
	if x.op == OpConst {
		return x.val
	}
	if x.evGen == m.gen {
		return x.evVal
	}
	v := m.evalOp(x)
	x.evGen = m.gen
	x.evVal = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) evalOp(x *Term) uint64 {
	switch x.op {
	case OpVar:
		return m.vals[x.name] & mask(x.w)
	case OpNot:
		return 1 - m.eval(x.a[0])
	case OpAnd:
		if m.eval(x.a[0]) == 0 {
			return 0
		}
		return m.eval(x.a[1])
	case OpOr:
		if m.eval(x.a[0]) == 1 {
			return 1
		}
		return m.eval(x.a[1])
	case OpIte:
		if m.eval(x.a[0]) == 1 {
			return m.eval(x.a[1])
		}
		return m.eval(x.a[2])
	}
	a := m.eval(x.a[0])
	aw := x.a[0].w
	var b uint64
	if x.n > 1 {
		b = m.eval(x.a[1])
	}
	mk := mask(x.w)
	switch x.op {
	case OpEq:
		return b2u(a == b)
	case OpUlt:
		return b2u(a < b)
	case OpUle:
		return b2u(a <= b)
	case OpSlt:
		return b2u(sext64(a, aw) < sext64(b, aw))
	case OpSle:
		return b2u(sext64(a, aw) <= sext64(b, aw))
	case OpBNot:
		return ^a & mk
	case OpBNeg:
		return -a & mk
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpAdd:
		return (a + b) & mk
	case OpSub:
		return (a - b) & mk
	case OpMul:
		return (a * b) & mk
	case OpUDiv, OpURem, OpSDiv, OpSRem:
		return evalDiv(x.op, a, b, x.w)
	case OpShl:
		if b >= uint64(x.w) {
			return 0
		}
		return (a << b) & mk
	case OpLshr:
		if b >= uint64(x.w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(x.w) {
			b = uint64(x.w) - 1
		}
		return uint64(sext64(a, x.w)>>b) & mk
	case OpConcat:
		return a<<x.a[1].w | b
	case OpExtract:
		return (a >> x.lo) & mk
	case OpSext:
		return uint64(sext64(a, aw)) & mk
	case OpFEq:
		return b2u(f64of(a, aw) == f64of(b, aw))
	case OpFLt:
		return b2u(f64of(a, aw) < f64of(b, aw))
	case OpFLe:
		return b2u(f64of(a, aw) <= f64of(b, aw))
	case OpFAdd, OpFSub, OpFMul, OpFDiv:
		return evalFOp(x.op, a, b, x.w)
	case OpFCvt:
		return cvtFloat(a, aw, x.w)
	case OpFFromS:
		return evalFFrom(a, aw, x.w, true)
	case OpFFromU:
		return evalFFrom(a, aw, x.w, false)
	case OpFToS:
		return evalFTo(a, aw, x.w, true)
	case OpFToU:
		return evalFTo(a, aw, x.w, false)
	}
	panic("eval op")
}

func (x *Term) String() string {
	var sb strings.Builder
	x.str(&sb, 6)
	return sb.String()
}

func (x *Term) str(sb *strings.Builder, d int) {
	switch x.op {
	case OpConst:
		if x.w == 0 {
			fmt.Fprintf(sb, "%v", x.val == 1)
		} else {
			fmt.Fprintf(sb, "%d:%d", x.val, x.w)
		}
		return
	case OpVar:
		sb.WriteString(x.name)
		return
	}
	if d == 0 {
		sb.WriteString("..")
		return
	}
	n := opNames[x.op]
	if n == "" {
		n = fmt.Sprintf("op%d", x.op)
	}
	if x.op == OpExtract {
		n = fmt.Sprintf("ex[%d:%d]", x.hi, x.lo)
	}
	sb.WriteString("(" + n)
	for i := 0; i < int(x.n); i++ {
		sb.WriteByte(' ')
		x.a[i].str(sb, d-1)
	}
	sb.WriteByte(')')
}
