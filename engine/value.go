package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func f64bits(f float64) uint64 { return math.Float64bits(f) }

type Value interface{}

type (
	Struct []Value
	Array  []Value
	Tuple  []Value
	// Slice is a Go slice of cells; nil *Slice never occurs, nil-ness is `c == nil`.
	Slice struct{ c []Value }
	// Iface with t == nil is the nil interface.
	Iface struct {
		t types.Type
		v Value
	}
	Closure struct {
		fn  *ssa.Function
		env []Value
	}
	// Bound is a method value of an engine-side object.
	Nil struct{} // untyped nil pointer/func/map/chan are represented by typed Go nils below
)

// Ptr is a pointer to a cell; nil *Value is the nil pointer.
type Ptr = *Value

// Str is an immutable string. If b is nil the content is s.
type Str struct {
	s    string
	b    []*Term
	lazy *Lazy
}

// Lazy is a formatted string whose content is produced only if something looks at it.
type Lazy struct {
	parts  []lazyPart
	forced *Str
}

type lazyPart struct {
	s      Str   // literal, if t == nil
	t      *Term // integer
	sgn    bool
	base   int
	pad    int
	zero   bool
	up     bool
	opaque bool
}

type MapObj struct {
	keys []Value
	vals []Value
	live []bool
	n    int
	idx  map[string]int // concrete keys only
	sym  int            // number of live symbolic keys
	kt   types.Type
	sh   *shadow
}

type FuncVal struct { // native function value
	name string
	f    func(w *Worker, g *G, args []Value) Value
}

type HashKey struct {
	k  string
	ok bool
}

func mkStr(s string) Str { return Str{s: s} }

func (w *Worker) strLen(s Str) int {
	if s.lazy != nil {
		s = w.force(s)
	}
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (w *Worker) strBytes(s Str) []*Term {
	if s.lazy != nil {
		s = w.force(s)
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = w.tt.small[8][s.s[i]]
		if r[i] == nil {
			r[i] = w.tt.Const(8, uint64(s.s[i]))
		}
	}
	return r
}

func (w *Worker) strAt(s Str, i int) *Term {
	if s.lazy != nil {
		s = w.force(s)
	}
	if s.b != nil {
		return s.b[i]
	}
	return w.tt.Const(8, uint64(s.s[i]))
}

func (w *Worker) normStr(b []*Term) Str {
	for _, x := range b {
		if !x.isConst() {
			return Str{b: b}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.val)
	}
	return Str{s: string(r)}
}

func (w *Worker) substr(s Str, lo, hi int) Str {
	if s.lazy != nil {
		s = w.force(s)
	}
	if s.b != nil {
		return w.normStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (w *Worker) concatStr(a, b Str) Str {
	if a.lazy != nil || b.lazy != nil {
		var l Lazy
		l.parts = append(l.parts, lazyPart{s: a}, lazyPart{s: b})
		return Str{lazy: &l}
	}
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	if w.strLen(a) == 0 {
		return b
	}
	if w.strLen(b) == 0 {
		return a
	}
	x, y := w.strBytes(a), w.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(r, x...)
	r = append(r, y...)
	return Str{b: r}
}

func (w *Worker) strEq(a, b Str) *Term {
	if a.lazy != nil && a.lazy == b.lazy {
		return w.tt.True
	}
	if a.lazy != nil || b.lazy != nil {
		if r, ok := w.numStrEq(a, b); ok {
			return r
		}
	}
	if a.lazy != nil {
		a = w.force(a)
	}
	if b.lazy != nil {
		b = w.force(b)
	}
	if a.b == nil && b.b == nil {
		return w.tt.Bool(a.s == b.s)
	}
	if w.strLen(a) != w.strLen(b) {
		return w.tt.False
	}
	x, y := w.strBytes(a), w.strBytes(b)
	r := w.tt.True
	for i := range x {
		r = w.tt.And(r, w.tt.Eq(x[i], y[i]))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// numParts splits a lazy string into a concrete prefix, one number in its canonical
// rendering (no padding) and a concrete suffix.
func numParts(s Str) (pre string, num *lazyPart, suf string, ok bool) {
	ok = s.lazy != nil
	var walk func(s Str)
	walk = func(s Str) {
		for i := range s.lazy.parts {
			p := &s.lazy.parts[i]
			switch {
			case p.opaque:
				ok = false
			case p.t != nil:
				if num != nil || p.pad != 0 {
					ok = false
				}
				num = p
			case p.s.lazy != nil:
				walk(p.s)
			case p.s.b != nil:
				ok = false
			case num == nil:
				pre += p.s.s
			default:
				suf += p.s.s
			}
		}
	}
	if ok {
		walk(s)
	}
	return pre, num, suf, ok && num != nil
}

// numStrEq compares two strings, at least one of which embeds one formatted symbolic integer,
// by that integer rather than by its digits. Exact where it answers.
func (w *Worker) numStrEq(a, b Str) (*Term, bool) {
	tt := w.tt
	pa, na, sa, ok := numParts(a)
	if !ok {
		a, b = b, a
		if pa, na, sa, ok = numParts(a); !ok {
			return nil, false
		}
	}
	if b.lazy != nil {
		pb, nb, sb, ok := numParts(b)
		if !ok {
			return nil, false
		}
		for i := 0; i < len(pa) && i < len(pb); i++ {
			if pa[i] != pb[i] {
				return tt.False, true
			}
		}
		if pa != pb || sa != sb || na.base != nb.base || na.up != nb.up {
			return nil, false
		}
		x, y := na, nb
		m := x.t.w
		if y.t.w > m {
			m = y.t.w
		}
		r := tt.Eq(tt.Resize(x.t, m, x.sgn), tt.Resize(y.t, m, y.sgn))
		if x.sgn != y.sgn {
			z := x
			if y.sgn {
				z = y
			}
			r = tt.And(r, tt.Not(tt.Slt(z.t, tt.Const(z.t.w, 0))))
		}
		return r, true
	}
	if b.b != nil { // symbolic bytes: only a difference in the concrete prefix decides
		if len(b.b) <= len(pa)+len(sa) {
			return tt.False, true
		}
		for i := 0; i < len(pa); i++ {
			if c := b.b[i]; c.isConst() && byte(c.val) != pa[i] {
				return tt.False, true
			}
		}
		return nil, false
	}
	if len(b.s) <= len(pa)+len(sa) || !strings.HasPrefix(b.s, pa) || !strings.HasSuffix(b.s, sa) {
		return tt.False, true
	}
	mid := b.s[len(pa) : len(b.s)-len(sa)]
	if na.sgn {
		v, err := strconv.ParseInt(mid, na.base, int(na.t.w))
		c := strconv.FormatInt(v, na.base)
		if na.up {
			c = strings.ToUpper(c)
		}
		if err != nil || c != mid {
			return tt.False, true
		}
		return tt.Eq(na.t, tt.Const(na.t.w, uint64(v))), true
	}
	v, err := strconv.ParseUint(mid, na.base, int(na.t.w))
	c := strconv.FormatUint(v, na.base)
	if na.up {
		c = strings.ToUpper(c)
	}
	if err != nil || c != mid {
		return tt.False, true
	}
	return tt.Eq(na.t, tt.Const(na.t.w, v)), true
}

// strLess builds a < b lexicographically.
func (w *Worker) strLess(a, b Str, orEq bool) *Term {
	if a.lazy == nil && b.lazy == nil && a.b == nil && b.b == nil {
		if orEq {
			return w.tt.Bool(a.s <= b.s)
		}
		return w.tt.Bool(a.s < b.s)
	}
	x, y := w.strBytes(a), w.strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	var r *Term
	if orEq {
		r = w.tt.Bool(len(x) <= len(y))
	} else {
		r = w.tt.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		r = w.tt.Ite(w.tt.Ult(x[i], y[i]), w.tt.True, w.tt.Ite(w.tt.Eq(x[i], y[i]), r, w.tt.False))
	}
	return r
}

// ---- types

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic("deref of " + t.String())
}

// intInfo returns width and signedness of an integer-like type (0 width: not integer).
func intInfo(t types.Type) (w uint8, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func floatWidth(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0
	}
	switch b.Kind() {
	case types.Float32:
		return 32
	case types.Float64, types.UntypedFloat:
		return 64
	}
	return 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (w *Worker) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if iw, _ := intInfo(u); iw != 0 {
			return w.tt.small[iw][0]
		}
		if fw := floatWidth(u); fw != 0 {
			return w.tt.small[fw][0]
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return w.tt.False
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer:
			return Ptr(nil)
		case u.Info()&types.IsComplex != 0:
			return Opaque{"complex"}
		case u.Kind() == types.UntypedNil:
			return Ptr(nil)
		}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		if n > 1<<22 {
			w.unsupported("huge array")
		}
		a := make(Array, n)
		if n > 0 {
			z := w.zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				a[0] = z
				for i := 1; i < len(a); i++ {
					a[i] = w.zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = w.zero(u.At(i).Type())
		}
		return r
	}
	panic(fmt.Sprintf("zero of %v", t))
}

// Opaque is a value the engine does not model; touching it ends the path as inconclusive.
type Opaque struct{ why string }

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i, e := range x {
			switch e.(type) {
			case Struct, Array:
				r[i] = copyVal(e)
			default:
				r[i] = e
			}
		}
		return r
	}
	return v
}

// storeInto writes v to the cell keeping the identity of nested cells.
func storeInto(p Ptr, v Value) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// hashKey gives a canonical string for a fully concrete map key.
func (w *Worker) hashKey(v Value) (string, bool) {
	var sb strings.Builder
	if !w.hk(v, &sb) {
		return "", false
	}
	return sb.String(), true
}

func (w *Worker) hk(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		sb.WriteByte('#')
		sb.WriteString(strconv.FormatUint(x.val, 16))
		sb.WriteByte(':')
		return true
	case Str:
		if x.lazy != nil {
			if x.lazy.forced == nil {
				return false
			}
			x = *x.lazy.forced
		}
		if x.b != nil {
			return false
		}
		sb.WriteByte('"')
		sb.WriteString(strconv.Itoa(len(x.s)))
		sb.WriteByte(',')
		sb.WriteString(x.s)
		return true
	case Iface:
		if x.t == nil {
			sb.WriteByte('0')
			return true
		}
		sb.WriteString("i" + strconv.Itoa(w.eng.typeID(x.t)) + ".")
		return w.hk(x.v, sb)
	case Struct:
		sb.WriteByte('{')
		for _, e := range x {
			if !w.hk(e, sb) {
				return false
			}
		}
		sb.WriteByte('}')
		return true
	case Array:
		sb.WriteByte('[')
		for _, e := range x {
			if !w.hk(e, sb) {
				return false
			}
		}
		sb.WriteByte(']')
		return true
	case Ptr:
		fmt.Fprintf(sb, "p%p", x)
		return true
	case *Chan:
		fmt.Fprintf(sb, "c%p", x)
		return true
	}
	w.unsupported(fmt.Sprintf("map key %T", v))
	return false
}

func (w *Worker) newMap(kt types.Type) *MapObj {
	return &MapObj{idx: map[string]int{}, kt: kt}
}

// mapFind returns the index of key or -1, forking on symbolic equality.
func (w *Worker) mapFind(m *MapObj, key Value) int {
	if m == nil {
		return -1
	}
	hk, conc := w.hashKey(key)
	if conc {
		if i, ok := m.idx[hk]; ok {
			return i
		}
		if m.sym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if conc {
			if _, c2 := w.hashKey(m.keys[i]); c2 {
				continue
			}
		}
		if w.branch(w.equal(m.keys[i], key)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *MapObj, key, val Value) {
	i := w.mapFind(m, key)
	if i >= 0 {
		m.vals[i] = val
		return
	}
	hk, conc := w.hashKey(key)
	if conc {
		m.idx[hk] = len(m.keys)
	} else {
		m.sym++
	}
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, val)
	m.live = append(m.live, true)
	m.n++
}

func (w *Worker) mapDelete(m *MapObj, key Value) {
	i := w.mapFind(m, key)
	if i < 0 {
		return
	}
	m.live[i] = false
	m.n--
	if hk, conc := w.hashKey(m.keys[i]); conc {
		delete(m.idx, hk)
	} else {
		m.sym--
	}
}

// equal builds the term for a == b (same static type).
func (w *Worker) equal(a, b Value) *Term {
	tt := w.tt
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			w.unsupported(fmt.Sprintf("compare %T %T", a, b))
		}
		return tt.Eq(x, y)
	case Str:
		return w.strEq(x, b.(Str))
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			w.unsupported(fmt.Sprintf("compare iface %T", b))
		}
		if x.t == nil || y.t == nil {
			return tt.Bool(x.t == nil && y.t == nil)
		}
		if !w.eng.identical(x.t, y.t) {
			return tt.False
		}
		if !types.Comparable(x.t) {
			w.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		if fw := floatWidth(x.t); fw != 0 {
			return tt.FCmp(OpFEq, x.v.(*Term), y.v.(*Term))
		}
		return w.equal(x.v, y.v)
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return tt.False
		}
		return tt.Bool(x == y)
	case Struct:
		y := b.(Struct)
		r := tt.True
		for i := range x {
			r = tt.And(r, w.equal(x[i], y[i]))
		}
		return r
	case Array:
		y := b.(Array)
		r := tt.True
		for i := range x {
			r = tt.And(r, w.equal(x[i], y[i]))
		}
		return r
	case *MapObj:
		y, _ := b.(*MapObj)
		return tt.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return tt.Bool(x == y)
	case Slice: // only against nil
		y := b.(Slice)
		if x.c == nil || y.c == nil {
			return tt.Bool(x.c == nil && y.c == nil)
		}
	case *Closure, *ssa.Function, *FuncVal, *ssa.Builtin:
		// reached with two functions only through unsafe pointers: identity
		return tt.Bool(isNilFunc(a) && isNilFunc(b) || a == b)
	case Opaque:
		w.unsupported("opaque value compared: " + x.why)
	}
	w.unsupported(fmt.Sprintf("compare %T with %T", a, b))
	return nil
}

func isNilFunc(v Value) bool {
	switch x := v.(type) {
	case *Closure:
		return x == nil
	case *ssa.Function:
		return x == nil
	case *FuncVal:
		return x == nil
	case nil:
		return true
	}
	return false
}
