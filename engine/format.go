package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

// fmtInt formats an integer; symbolic values give a lazy string.
func (w *Worker) fmtInt(t *Term, signed bool, base, pad int, zero, upper bool) Str {
	if t.isConst() {
		var s string
		if signed {
			s = strconv.FormatInt(sext64(t.val, t.w), base)
		} else {
			s = strconv.FormatUint(t.val, base)
		}
		if upper {
			s = strings.ToUpper(s)
		}
		return Str{s: padStr(s, pad, zero)}
	}
	return Str{lazy: &Lazy{parts: []lazyPart{{t: t, sgn: signed, base: base, pad: pad, zero: zero, up: upper}}}}
}

func padStr(s string, pad int, zero bool) string {
	if pad < 0 { // left-justified
		for len(s) < -pad {
			s += " "
		}
		return s
	}
	for len(s) < pad {
		if zero {
			if strings.HasPrefix(s, "-") {
				s = "-0" + s[1:]
				continue
			}
			s = "0" + s
		} else {
			s = " " + s
		}
	}
	return s
}

// force produces the content of a lazy string, forking where the number of digits depends on inputs.
func (w *Worker) force(s Str) Str {
	if s.lazy == nil {
		return s
	}
	if s.lazy.forced != nil {
		return *s.lazy.forced
	}
	var out []*Term
	for _, p := range s.lazy.parts {
		if p.opaque {
			w.unsupported("content of an opaque formatted value is inspected")
		}
		if p.t != nil {
			out = append(out, w.digits(p)...)
			continue
		}
		out = append(out, w.strBytes(p.s)...)
	}
	r := w.normStr(out)
	s.lazy.forced = &r
	return r
}

func (w *Worker) digits(p lazyPart) []*Term {
	tt := w.tt
	t := p.t
	var out []*Term
	neg := false
	if p.sgn {
		if w.branch(tt.Slt(t, tt.Const(t.w, 0))) {
			neg = true
			t = tt.BNeg(t)
		}
	}
	// number of digits
	n := 1
	lim := uint64(p.base)
	for {
		if lim > mask(t.w) {
			break
		}
		if w.branch(tt.Ult(t, tt.Const(t.w, lim))) {
			break
		}
		n++
		nl := lim * uint64(p.base)
		if nl/uint64(p.base) != lim {
			break
		}
		lim = nl
	}
	// narrow the value to the bits it can have
	maxv := uint64(0)
	pw := uint64(1)
	for i := 0; i < n; i++ {
		pw *= uint64(p.base)
	}
	maxv = pw - 1
	nw := uint8(64)
	if n < 19 {
		nw = uint8(bitsLen(maxv))
	}
	if nw < 4 {
		nw = 4
	}
	if nw < t.w {
		t = tt.Extract(t, nw-1, 0)
	} else if t.w < 4 {
		t = tt.Zext(t, 4)
	}
	ds := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		d := tt.Div(OpURem, t, tt.Const(t.w, uint64(p.base)))
		var d8 *Term
		if d.w > 8 {
			d8 = tt.Extract(d, 7, 0)
		} else {
			d8 = tt.Zext(d, 8)
		}
		dig := tt.Arith(OpAdd, d8, tt.Const(8, '0'))
		if p.base > 10 {
			a := byte('a')
			if p.up {
				a = 'A'
			}
			dig = tt.Ite(tt.Ult(d8, tt.Const(8, 10)), dig, tt.Arith(OpAdd, d8, tt.Const(8, uint64(a)-10)))
		}
		ds[i] = dig
		if i > 0 {
			t = tt.Div(OpUDiv, t, tt.Const(t.w, uint64(p.base)))
		}
	}
	if neg {
		out = append(out, tt.Const(8, '-'))
	}
	padn := p.pad - n - len(out)
	if p.zero {
		for i := 0; i < padn; i++ {
			out = append(out, tt.Const(8, '0'))
		}
	} else {
		var sp []*Term
		for i := 0; i < padn; i++ {
			sp = append(sp, tt.Const(8, ' '))
		}
		out = append(sp, out...)
	}
	out = append(out, ds...)
	if p.pad < 0 {
		for len(out) < -p.pad {
			out = append(out, tt.Const(8, ' '))
		}
	}
	return out
}

func bitsLen(v uint64) int {
	n := 0
	for v > 0 {
		n++
		v >>= 1
	}
	return n
}

// format implements Sprintf for a constant format; args are interfaces whose Error/String
// methods have already been called by the Go model.
func (w *Worker) format(f Str, args []Value) Str {
	if f.lazy != nil {
		f = w.force(f)
	}
	if f.b != nil {
		return Str{lazy: &Lazy{parts: []lazyPart{{opaque: true}}}}
	}
	fs := f.s
	res := Str{}
	ai := 0
	lit := func(s string) { res = w.concatStr(res, Str{s: s}) }
	opaque := func() { res = w.concatStr(res, Str{lazy: &Lazy{parts: []lazyPart{{opaque: true}}}}) }
	for i := 0; i < len(fs); {
		j := strings.IndexByte(fs[i:], '%')
		if j < 0 {
			lit(fs[i:])
			break
		}
		lit(fs[i : i+j])
		i += j + 1
		zero, left, plus, sharp := false, false, false, false
		for i < len(fs) && strings.IndexByte("0-+# ", fs[i]) >= 0 {
			switch fs[i] {
			case '0':
				zero = true
			case '-':
				left = true
			case '+':
				plus = true
			case '#':
				sharp = true
			}
			i++
		}
		pad := 0
		for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
			pad = pad*10 + int(fs[i]-'0')
			i++
		}
		if left {
			pad = -pad
		}
		prec := -1
		if i < len(fs) && fs[i] == '.' {
			i++
			prec = 0
			for i < len(fs) && fs[i] >= '0' && fs[i] <= '9' {
				prec = prec*10 + int(fs[i]-'0')
				i++
			}
		}
		if i >= len(fs) {
			lit("%!(NOVERB)")
			break
		}
		verb := fs[i]
		i++
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		arg, _ := args[ai].(Iface)
		ai++
		if plus || sharp {
			opaque()
			continue
		}
		if verb == 'T' {
			lit(typeName(arg))
			continue
		}
		if arg.t == nil {
			if verb == 'v' {
				lit("<nil>")
			} else {
				lit("%!" + string(verb) + "(<nil>)")
			}
			continue
		}
		switch x := arg.v.(type) {
		case Str:
			switch {
			case (verb == 's' || verb == 'v') && prec < 0:
				if pad == 0 {
					res = w.concatStr(res, x)
				} else if x.lazy == nil && x.b == nil {
					lit(fmt.Sprintf("%*s", pad, x.s))
				} else {
					opaque()
				}
			case x.lazy == nil && x.b == nil:
				lit(fmt.Sprintf("%"+string(verb), x.s))
			default:
				opaque()
			}
		case *Term:
			if iw, s := intInfo(arg.t); iw != 0 {
				switch verb {
				case 'd', 'v':
					res = w.concatStr(res, w.fmtInt(x, s, 10, pad, zero, false))
				case 'x':
					res = w.concatStr(res, w.fmtInt(x, s, 16, pad, zero, false))
				case 'X':
					res = w.concatStr(res, w.fmtInt(x, s, 16, pad, zero, true))
				case 'b':
					res = w.concatStr(res, w.fmtInt(x, s, 2, pad, zero, false))
				case 'o':
					res = w.concatStr(res, w.fmtInt(x, s, 8, pad, zero, false))
				case 'c':
					if x.isConst() {
						lit(string(rune(x.val)))
					} else {
						res = w.concatStr(res, w.normStr(w.encodeRune(w.tt.Resize(x, 32, s))))
					}
				default:
					if x.isConst() {
						if s {
							lit(fmt.Sprintf("%"+string(verb), sext64(x.val, iw)))
						} else {
							lit(fmt.Sprintf("%"+string(verb), x.val))
						}
					} else {
						opaque()
					}
				}
			} else if fw := floatWidth(arg.t); fw != 0 {
				if x.isConst() {
					fm := "%"
					if prec >= 0 {
						fm += "." + strconv.Itoa(prec)
					}
					if fw == 32 {
						lit(fmt.Sprintf(fm+string(verb), math.Float32frombits(uint32(x.val))))
					} else {
						lit(fmt.Sprintf(fm+string(verb), math.Float64frombits(x.val)))
					}
				} else {
					opaque()
				}
			} else if x.w == 0 {
				if x.isConst() {
					lit(fmt.Sprintf("%"+string(verb), x.val == 1))
				} else if w.branch(x) {
					lit("true")
				} else {
					lit("false")
				}
			} else {
				opaque()
			}
		case Slice:
			if bs, ok := termCells(x.c); ok && (verb == 'x' || verb == 'X') && (len(bs) == 0 || bs[0].w == 8) {
				for _, b := range bs {
					res = w.concatStr(res, w.fmtInt(b, false, 16, 2, true, verb == 'X'))
				}
			} else if ok && verb == 'v' && (len(bs) == 0 || bs[0].w > 1) {
				lit("[")
				for k, b := range bs {
					if k > 0 {
						lit(" ")
					}
					res = w.concatStr(res, w.fmtInt(b, true, 10, 0, false, false))
				}
				lit("]")
			} else {
				opaque()
			}
		default:
			opaque()
		}
	}
	return res
}

func typeName(iv Iface) string {
	if iv.t == nil {
		return "<nil>"
	}
	s := iv.t.String()
	// qualify by package name only
	pre := strings.TrimLeft(s, "*[]")
	star := s[:len(s)-len(pre)]
	if k := strings.LastIndexByte(pre, '/'); k >= 0 {
		pre = pre[k+1:]
	}
	return star + pre
}
