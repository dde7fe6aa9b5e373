package main

import (
	"math"
	"math/bits"
)

// Floats that are an exact non-negative integer times a power of two (converted integers, scaled): comparisons,
// scaling and conversion back are done on the integers, exactly, instead of with floating-point circuits.

func bitLen(t *Term) int {
	if t.isConst() {
		return bits.Len64(t.val)
	}
	if t.op == OpConcat && t.a[0].isConst() && t.a[0].val == 0 {
		return bitLen(t.a[1])
	}
	return int(t.w)
}

// dyadic returns n (64 bits), its bit length and k with value n * 2^k; only for 64-bit floats.
func (t *TermTab) dyadic(x *Term) (n *Term, l, k int, ok bool) {
	if x.w != 64 {
		return
	}
	switch {
	case x.isConst():
		f := math.Float64frombits(x.val)
		if f < 0 || math.IsInf(f, 0) || f != f || math.Signbit(f) {
			return
		}
		if f == 0 {
			return t.Const(64, 0), 0, 0, true
		}
		fr, e := math.Frexp(f)
		m := uint64(fr * (1 << 53))
		e -= 53
		for m&1 == 0 {
			m >>= 1
			e++
		}
		return t.Const(64, m), bits.Len64(m), e, true
	case x.op == OpFFromS || x.op == OpFFromU:
		a := x.a[0]
		l = bitLen(a)
		if l > 53 || x.op == OpFFromS && l >= int(a.w) {
			return
		}
		return t.Zext(a, 64), l, 0, true
	case x.op == OpFMul:
		for i := 0; i < 2; i++ {
			c, y := x.a[i], x.a[1-i]
			cn, _, ck, ok1 := t.dyadic(c)
			if !ok1 || !c.isConst() || cn.val != 1 {
				continue
			}
			n, l, k, ok = t.dyadic(y)
			if ok && k+ck > -1000 && k+ck+l < 1000 {
				return n, l, k + ck, true
			}
			return nil, 0, 0, false
		}
	}
	return
}

func (t *TermTab) dyCmp(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return nil
	}
	if b.isConst() && math.IsInf(math.Float64frombits(b.val), 1) && b.w == 64 {
		if _, _, _, ok := t.dyadic(a); ok {
			return t.Bool(op != OpFEq)
		}
	}
	if a.isConst() && math.IsInf(math.Float64frombits(a.val), 1) && a.w == 64 {
		if _, _, _, ok := t.dyadic(b); ok {
			return t.False
		}
	}
	n1, l1, k1, ok1 := t.dyadic(a)
	n2, l2, k2, ok2 := t.dyadic(b)
	if !ok1 || !ok2 {
		return nil
	}
	z := t.Const(64, 0)
	d := k1 - k2
	switch {
	case d >= l2 && d > 0: // a is 0 or above b
		z1 := t.Eq(n1, z)
		switch op {
		case OpFEq:
			return t.And(z1, t.Eq(n2, z))
		case OpFLt:
			return t.And(z1, t.Not(t.Eq(n2, z)))
		}
		return z1
	case -d >= l1 && d < 0:
		z2 := t.Eq(n2, z)
		switch op {
		case OpFEq:
			return t.And(z2, t.Eq(n1, z))
		case OpFLt:
			return t.Not(z2)
		}
		return t.Or(t.Not(z2), t.Eq(n1, z))
	case d >= 0 && d+l1 <= 64:
		n1 = t.Shift(OpShl, n1, t.Const(64, uint64(d)))
	case d < 0 && l2-d <= 64:
		n2 = t.Shift(OpShl, n2, t.Const(64, uint64(-d)))
	default:
		return nil
	}
	switch op {
	case OpFEq:
		return t.Eq(n1, n2)
	case OpFLt:
		return t.Ult(n1, n2)
	}
	return t.Ule(n1, n2)
}

// dyMul handles a dyadic value times infinity.
func (t *TermTab) dyMul(a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		if a.isConst() && a.w == 64 && math.IsInf(math.Float64frombits(a.val), 1) {
			if n, _, _, ok := t.dyadic(b); ok {
				return t.Ite(t.Eq(n, t.Const(64, 0)), t.Const(64, math.Float64bits(math.NaN())), a)
			}
		}
		a, b = b, a
	}
	return nil
}

func (t *TermTab) dyToInt(a *Term, to uint8) *Term {
	n, l, k, ok := t.dyadic(a)
	if !ok || l+k > 63 || to != 64 {
		return nil
	}
	if k >= 0 {
		return t.Shift(OpShl, n, t.Const(64, uint64(k)))
	}
	if -k > 63 {
		return t.Const(64, 0)
	}
	return t.Shift(OpLshr, n, t.Const(64, uint64(-k)))
}

// unscale rewrites a comparison of x*c with y*c (or with a constant) into one of x and y where the path excludes
// an overflow: the solver is poor at multiplications by large constants.
func (w *Worker) unscale(a, b *Term) (*Term, *Term) {
	tt := w.tt
	split := func(t *Term) (*Term, uint64) {
		if t.op == OpMul && t.w == 64 {
			for i := 0; i < 2; i++ {
				if c := t.a[i]; c.isConst() && c.val > 0xffff && c.val < 1<<62 {
					return t.a[1-i], c.val
				}
			}
		}
		return nil, 0
	}
	x, c := split(a)
	y, d := split(b)
	if x == nil && y == nil || x != nil && y != nil && c != d {
		return a, b
	}
	if x == nil {
		c = d
		if !a.isConst() || a.val%c != 0 || a.val >= 1<<63 {
			return a, b
		}
		x = tt.Const(64, a.val/c)
	}
	if y == nil {
		if !b.isConst() || b.val%c != 0 || b.val >= 1<<63 {
			return a, b
		}
		y = tt.Const(64, b.val/c)
	}
	lim := tt.Const(64, (1<<63-1)/c)
	for _, t := range []*Term{x, y} {
		in := tt.Ule(t, lim)
		if in.isConst() && in.val == 1 || w.pcSet[in] {
			continue
		}
		if in.isConst() {
			return a, b
		}
		if r, _ := w.check(tt.Not(in)); r != Unsat {
			return a, b
		}
	}
	return x, y
}
