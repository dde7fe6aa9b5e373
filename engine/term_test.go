package main

import (
	"math/rand"
	"testing"
)

// what the constructors simplify means the same as what was asked for
func TestTerms(t *testing.T) {
	r := rand.New(rand.NewSource(5))
	type node struct {
		x *Term
		v []uint64 // its value under each assignment
	}
	const K = 12
	for round := 0; round < 3000; round++ {
		tt := NewTermTab()
		for wd := 0; wd <= 64; wd++ {
			tt.Const(uint8(wd), 0)
		}
		w := &Worker{tt: tt}
		asg := make([]map[string]uint64, K)
		for i := range asg {
			asg[i] = map[string]uint64{}
		}
		var pool []node
		ws := []uint8{1, 4, 8, 16, 32, 64}
		for i := 0; i < 4; i++ {
			wd := ws[r.Intn(len(ws))]
			n := "v" + string(rune('0'+i))
			x := node{tt.Var(n, wd), make([]uint64, K)}
			for k := range asg {
				v := r.Uint64() & mask(wd)
				switch r.Intn(4) {
				case 0:
					v = uint64(r.Intn(4)) & mask(wd)
				case 1:
					v = mask(wd) - uint64(r.Intn(4))&mask(wd)
				}
				asg[k][n] = v
				x.v[k] = v
			}
			pool = append(pool, x)
		}
		get := func(wd uint8) node {
			var c []node
			for _, p := range pool {
				if p.x.w == wd {
					c = append(c, p)
				}
			}
			if len(c) > 0 && r.Intn(3) > 0 {
				return c[r.Intn(len(c))]
			}
			v := r.Uint64() & mask(wd)
			if r.Intn(2) == 0 {
				v = uint64(r.Intn(200)) & mask(wd)
			}
			n := node{tt.Const(wd, v), make([]uint64, K)}
			for k := range n.v {
				n.v[k] = v
			}
			return n
		}
		any := func() node {
			for {
				p := pool[r.Intn(len(pool))]
				if p.x.w > 0 {
					return p
				}
			}
		}
		b2 := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		for step := 0; step < 25; step++ {
			a := any()
			wd := a.x.w
			b := get(wd)
			n := node{v: make([]uint64, K)}
			if r.Intn(2) == 0 {
				a, b = b, a
			}
			var f func(x, y uint64) uint64
			op := ""
			switch r.Intn(24) {
			case 0:
				op, n.x, f = "add", tt.Arith(OpAdd, a.x, b.x), func(x, y uint64) uint64 { return (x + y) & mask(wd) }
			case 1:
				op, n.x, f = "sub", tt.Arith(OpSub, a.x, b.x), func(x, y uint64) uint64 { return (x - y) & mask(wd) }
			case 2:
				op, n.x, f = "mul", tt.Arith(OpMul, a.x, b.x), func(x, y uint64) uint64 { return (x * y) & mask(wd) }
			case 3:
				o := []Op{OpUDiv, OpURem, OpSDiv, OpSRem}[r.Intn(4)]
				op, n.x, f = "div", tt.Div(o, a.x, b.x), func(x, y uint64) uint64 { return evalDiv(o, x, y, wd) & mask(wd) }
			case 4, 5:
				k := get(wd)
				for !k.x.isConst() {
					k = get(wd)
				}
				o := []Op{OpUDiv, OpURem, OpSDiv, OpSRem}[r.Intn(4)]
				b = k
				op, n.x, f = "divc", tt.Div(o, a.x, b.x), func(x, y uint64) uint64 { return evalDiv(o, x, y, wd) & mask(wd) }
			case 6:
				op, n.x, f = "and", tt.BAnd(a.x, b.x), func(x, y uint64) uint64 { return x & y }
			case 7:
				op, n.x, f = "or", tt.BOr(a.x, b.x), func(x, y uint64) uint64 { return x | y }
			case 8:
				op, n.x, f = "xor", tt.BXor(a.x, b.x), func(x, y uint64) uint64 { return x ^ y }
			case 9:
				op, n.x, f = "not", tt.BNot(a.x), func(x, y uint64) uint64 { return ^x & mask(wd) }
			case 10:
				op, n.x, f = "eq", tt.Eq(a.x, b.x), func(x, y uint64) uint64 { return b2(x == y) }
			case 11:
				op, n.x, f = "ult", tt.Ult(a.x, b.x), func(x, y uint64) uint64 { return b2(x < y) }
			case 12:
				op, n.x, f = "ule", tt.Ule(a.x, b.x), func(x, y uint64) uint64 { return b2(x <= y) }
			case 13:
				op, n.x, f = "slt", tt.Slt(a.x, b.x), func(x, y uint64) uint64 { return b2(sext64(x, wd) < sext64(y, wd)) }
			case 14:
				op, n.x, f = "sle", tt.Sle(a.x, b.x), func(x, y uint64) uint64 { return b2(sext64(x, wd) <= sext64(y, wd)) }
			case 15, 16:
				hi := uint8(r.Intn(int(wd)))
				lo := uint8(r.Intn(int(hi) + 1))
				if r.Intn(2) == 0 {
					lo = 0
				}
				op, n.x, f = "extract", tt.Extract(a.x, hi, lo), func(x, y uint64) uint64 { return x >> lo & mask(hi-lo+1) }
			case 17:
				to := ws[r.Intn(len(ws))]
				if to < wd {
					to = wd
				}
				op, n.x, f = "zext", tt.Zext(a.x, to), func(x, y uint64) uint64 { return x }
			case 18:
				to := ws[r.Intn(len(ws))]
				if to < wd {
					to = wd
				}
				op, n.x, f = "sext", tt.Sext(a.x, to), func(x, y uint64) uint64 { return uint64(sext64(x, wd)) & mask(to) }
			case 19:
				if wd >= 64 {
					continue
				}
				b = get(uint8(1 + r.Intn(int(64-wd))))
				if a.x.w != wd {
					continue
				}
				bw := b.x.w
				op, n.x, f = "concat", tt.Concat(a.x, b.x), func(x, y uint64) uint64 { return x<<bw | y }
			case 20:
				var c node
				for _, p := range pool {
					if p.x.w == 0 {
						c = p
					}
				}
				if c.x == nil {
					continue
				}
				n.x = tt.Ite(c.x, a.x, b.x)
				for k := range n.v {
					n.v[k] = b.v[k]
					if c.v[k] == 1 {
						n.v[k] = a.v[k]
					}
				}
				op = "ite"
			case 21:
				o := []Op{OpShl, OpLshr, OpAshr}[r.Intn(3)]
				op, n.x, f = "shift", tt.Shift(o, a.x, b.x), func(x, y uint64) uint64 {
					switch o {
					case OpShl:
						if y >= uint64(wd) {
							return 0
						}
						return x << y & mask(wd)
					case OpLshr:
						if y >= uint64(wd) {
							return 0
						}
						return x >> y
					default:
						if y > 63 {
							y = 63
						}
						return uint64(sext64(x, wd)>>y) & mask(wd)
					}
				}
			case 22:
				var bs []node
				for _, p := range pool {
					if p.x.w == 0 {
						bs = append(bs, p)
					}
				}
				if len(bs) < 2 {
					continue
				}
				a, b = bs[r.Intn(len(bs))], bs[r.Intn(len(bs))]
				op, n.x, f = "land", tt.And(a.x, b.x), func(x, y uint64) uint64 { return x & y }
				if r.Intn(2) == 0 {
					op, n.x, f = "lor", tt.Or(a.x, tt.Not(b.x)), func(x, y uint64) uint64 { return x | (1 - y) }
				}
			default:
				op, n.x, f = "neg", tt.BNeg(a.x), func(x, y uint64) uint64 { return -x & mask(wd) }
			}
			if f != nil {
				for k := range n.v {
					n.v[k] = f(a.v[k], b.v[k])
				}
			}
			for k := range n.v {
				if got := w.newModel(asg[k]).eval(n.x); got != n.v[k] {
					t.Fatalf("round %d %s w%d: %s , %s -> %s : got %x want %x under %v (x %x y %x)", round, op, wd, a.x, b.x, n.x, got, n.v[k], asg[k], a.v[k], b.v[k])
				}
			}
			pool = append(pool, n)
		}
	}
}
