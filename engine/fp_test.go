package main

import (
	"math/rand"
	"testing"
	"time"
)

// the bit-vector encodings agree with the concrete evaluation
func TestFP(t *testing.T) {
	tt := NewTermTab()
	for wd := 0; wd <= 64; wd++ {
		tt.Const(uint8(wd), 0)
	}
	s := NewSolver("z3", tt, 30000)
	defer s.Close()
	w := &Worker{tt: tt}
	edge := []uint64{0, 1, 2, 3, 0x7fffff, 0x800000, 0x7f800000, 0x7f800001, 0x7fc00000, 0xff800000, 0x80000000, 0x80000001, 0x7f7fffff, 0x3f800000, 0xbf800000,
		1 << 63, 1<<63 | 1, 0x7ff0000000000000, 0x7ff0000000000001, 0xfff8000000000000, 0x3ff0000000000000, 0x47efffffe0000000, 0x47efffffefffffff, 0x47effffff0000000, 0x47f0000000000000,
		0x36a0000000000000, 0x3690000000000000, 0x3690000000000001, 0x380fffffffffffff, 0x3810000000000000, 0x380ffffff0000000, 0x43e0000000000000, 0x43dfffffffffffff, 0xc3e0000000000000, 0xc3e0000000000001, 0x43f0000000000000, 0x43efffffffffffff,
		0x7fffffffffffffff, 0xffffffffffffffff, 1 << 53, 1<<53 + 1, 1<<24 + 1, 1<<54 + 2, 1<<54 + 6}
	r := rand.New(rand.NewSource(1))
	n := 0
	check := func(v uint64, wd uint8, f func(x *Term) *Term) {
		x := tt.Var("x"+string(rune('0'+wd/32)), wd)
		m := w.newModel(map[string]uint64{x.name: v & mask(wd)})
		e := f(x)
		want := m.eval(e)
		res, mm := s.Check([]*Term{tt.Eq(x, tt.Const(wd, v&mask(wd)))}, tt.Not(tt.Eq(e, tt.Const(e.w, want))), nil)
		n++
		if res != Unsat {
			t.Errorf("%v %x want %x: %v %v", e, v, want, res, mm)
		}
	}
	all := func(v uint64) {
		check(v, 32, func(x *Term) *Term { return tt.FCvt(x, 64) })
		check(v, 64, func(x *Term) *Term { return tt.FCvt(x, 32) })
		for _, wd := range []uint8{32, 64} {
			check(v, wd, func(x *Term) *Term { return tt.mk(OpFToS, 64, x) })
			check(v, wd, func(x *Term) *Term { return tt.mk(OpFToU, 64, x) })
			check(v, 64, func(x *Term) *Term { return tt.mk(OpFFromS, wd, x) })
			check(v, 64, func(x *Term) *Term { return tt.mk(OpFFromU, wd, x) })
			check(v, 32, func(x *Term) *Term { return tt.mk(OpFFromS, wd, x) })
		}
	}
	t0 := time.Now()
	for _, v := range edge {
		all(v)
		all(v ^ 1<<63)
	}
	for i := 0; i < 300; i++ {
		v := r.Uint64()
		switch i % 4 {
		case 1:
			v = uint64(0x380+r.Intn(0x100))<<52 | v>>12
		case 2:
			v = v>>12 | uint64(0x3f0+r.Intn(0x60))<<52
		case 3:
			v >>= uint(r.Intn(64))
		}
		all(v)
	}
	t.Log(n, time.Since(t0))
}
