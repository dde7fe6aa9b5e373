package main

import "unicode"

// Natives for unicode and unicode/utf8: the table searches of the standard library are replaced by closed formulas
// built from the same tables, so that a class test is one comparison chain instead of a search over array terms.

func (w *Worker) inTable(r *Term, tabs ...*unicode.RangeTable) *Term {
	tt := w.tt
	if r.isConst() {
		for _, t := range tabs {
			if unicode.Is(t, rune(int32(r.val))) {
				return tt.True
			}
		}
		return tt.False
	}
	res := tt.False
	add := func(lo, hi, stride uint64) {
		in := tt.And(tt.Ule(tt.Const(32, lo), r), tt.Ule(r, tt.Const(32, hi)))
		if stride > 1 {
			in = tt.False
			for v := lo; v <= hi; v += stride {
				in = tt.Or(in, tt.Eq(r, tt.Const(32, v)))
			}
		}
		res = tt.Or(res, in)
	}
	for _, t := range tabs {
		for _, x := range t.R16 {
			add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
		}
		for _, x := range t.R32 {
			add(uint64(x.Lo), uint64(x.Hi), uint64(x.Stride))
		}
	}
	return res
}

// classFn forks on the cheap range first: below 0x80 the class is a short formula.
func classFn(ascii func(r rune) bool, tabs ...*unicode.RangeTable) nativeFn {
	return func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		r := w.tm(a[0])
		if r.isConst() {
			return w.inTable(r, tabs...), true
		}
		tt := w.tt
		if w.branch(tt.Ult(r, tt.Const(32, 0x80))) {
			res := tt.False
			for lo := rune(0); lo < 0x80; lo++ {
				if !ascii(lo) {
					continue
				}
				hi := lo
				for hi+1 < 0x80 && ascii(hi+1) {
					hi++
				}
				res = tt.Or(res, tt.And(tt.Ule(tt.Const(32, uint64(lo)), r), tt.Ule(r, tt.Const(32, uint64(hi)))))
				lo = hi
			}
			return res, true
		}
		return w.inTable(r, tabs...), true
	}
}

func uniNatives(n map[string]nativeFn) {
	n["unicode.IsSpace"] = classFn(unicode.IsSpace, unicode.White_Space)
	n["unicode.IsLetter"] = classFn(unicode.IsLetter, unicode.Letter)
	n["unicode.IsDigit"] = classFn(unicode.IsDigit, unicode.Digit)
	decode := func(w *Worker, b []*Term) Value {
		if len(b) == 0 {
			return Tuple{w.tt.Const(32, 0xfffd), w.tt.Const(64, 0)}
		}
		r, k := w.decodeRune(b)
		return Tuple{r, w.tt.Const(64, uint64(k))}
	}
	str := func(w *Worker, v Value) []*Term {
		s := w.str(v)
		if s.lazy != nil {
			s = w.force(s)
		}
		return w.strBytes(s)
	}
	head := func(b []*Term) []*Term {
		if len(b) > 4 {
			b = b[:4]
		}
		return b
	}
	n["unicode/utf8.DecodeRuneInString"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		return decode(w, head(str(w, a[0]))), true
	}
	n["unicode/utf8.RuneCountInString"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) {
		b := str(w, a[0])
		c := uint64(0)
		for len(b) > 0 {
			_, k := w.decodeRune(head(b))
			b = b[k:]
			c++
		}
		return w.tt.Const(64, c), true
	}
	valid := func(w *Worker, b []*Term) Value {
		for len(b) > 0 {
			r, k := w.decodeRune(head(b))
			if k == 1 && r.isConst() && r.val == 0xfffd {
				return w.tt.False
			}
			b = b[k:]
		}
		return w.tt.True
	}
	n["unicode/utf8.ValidString"] = func(w *Worker, g *G, a []Value, ci *cinstr) (Value, bool) { return valid(w, str(w, a[0])), true }
}
