// Package models holds Go models of standard-library functions whose implementation the symbolic executor
// cannot run directly (runtime hooks, reflection, assembly). They are executed symbolically in place of the
// originals; natively nothing here is used.
package models

import (
	"context"
	"errors"
	"io"
	"math"
	"sort"
	"strings"
	"sync"

	"verif/harness/vp"
)

// RuntimeError is the type of run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

// ErrString is a comparable sentinel error.
type ErrString string

func (e ErrString) Error() string {
	switch e {
	case "net.ErrClosed":
		return "use of closed network connection"
	case "os.ErrDeadlineExceeded":
		return "i/o timeout"
	}
	return string(e)
}
func (e ErrString) Timeout() bool   { return e == "os.ErrDeadlineExceeded" }
func (e ErrString) Temporary() bool { return e == "os.ErrDeadlineExceeded" }

// hooks implemented by the executor
func format(f string, a []interface{}) string
func swapElem(s interface{}, i, j int)
func lenOf(s interface{}) int
func asAssign(err error, target interface{}) bool
func comparable_(v interface{}) bool
func isOSFile(v interface{}) bool
func side(p interface{}) interface{}
func setSide(p interface{}, v interface{})
func global(name string) interface{}
func setGlobal(name string, v interface{})
func typeName(v interface{}) string
func intKind(v interface{}) bool

// ---- fmt

// stringify applies Error/String the way fmt does for the verbs that do.
func stringify(f string, a []interface{}) []interface{} {
	out := make([]interface{}, len(a))
	copy(out, a)
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		sharp := false
		for i < len(f) {
			c := f[i]
			if c == '#' {
				sharp = true
			}
			if c == '+' || c == '-' || c == '#' || c == ' ' || c == '.' || (c >= '0' && c <= '9') {
				i++
				continue
			}
			break
		}
		if i >= len(f) || ai > len(out) {
			break
		}
		c := f[i]
		if c == '%' {
			continue
		}
		if ai >= len(out) {
			break
		}
		if !sharp && (c == 'v' || c == 's' || c == 'w' || c == 'q' || c == 'x' || c == 'X') {
			out[ai] = strOf(out[ai])
		}
		ai++
	}
	return out
}

func strOf(v interface{}) (r interface{}) {
	switch x := v.(type) {
	case error:
		defer func() {
			if p := recover(); p != nil {
				r = "%!v(PANIC)"
			}
		}()
		return x.Error()
	case interface{ String() string }:
		defer func() {
			if p := recover(); p != nil {
				r = "%!v(PANIC)"
			}
		}()
		return x.String()
	}
	return v
}

func fixW(f string) string {
	b := ""
	st := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] == '%' {
			if f[i+1] == 'w' {
				b += f[st:i] + "%v"
				st = i + 2
			}
			i++
		}
	}
	return b + f[st:]
}

func Sprintf(f string, a ...interface{}) string { return format(f, stringify(f, a)) }

func Sprint(a ...interface{}) string {
	s := ""
	for i, v := range a {
		_, isS := v.(string)
		if i > 0 && !isS {
			if _, p := a[i-1].(string); !p {
				s += " "
			}
		}
		s += Sprintf("%v", v)
	}
	return s
}

func Sprintln(a ...interface{}) string {
	s := ""
	for i, v := range a {
		if i > 0 {
			s += " "
		}
		s += Sprintf("%v", v)
	}
	return s + "\n"
}

func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	if isOSFile(w) {
		return 0, nil
	}
	return w.Write([]byte(Sprintf(f, a...)))
}

func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	if isOSFile(w) {
		return 0, nil
	}
	return w.Write([]byte(Sprintln(a...)))
}

func Fprint(w io.Writer, a ...interface{}) (int, error) {
	if isOSFile(w) {
		return 0, nil
	}
	return w.Write([]byte(Sprint(a...)))
}

type wrapError struct {
	msg string
	err error
}

func (e *wrapError) Error() string { return e.msg }
func (e *wrapError) Unwrap() error { return e.err }

type plainError struct{ s string }

func (e *plainError) Error() string { return e.s }

func Errorf(f string, a ...interface{}) error {
	var wrapped []error
	ai := 0
	for i := 0; i+1 < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && (f[i] == '+' || f[i] == '-' || f[i] == '#' || f[i] == ' ' || f[i] == '.' || (f[i] >= '0' && f[i] <= '9')) {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' && ai < len(a) {
			if e, ok := a[ai].(error); ok {
				wrapped = append(wrapped, e)
			}
		}
		ai++
	}
	msg := Sprintf(fixW(f), a...)
	switch len(wrapped) {
	case 0:
		return &plainError{msg}
	case 1:
		return &wrapError{msg, wrapped[0]}
	}
	return &joinError{wrapped, msg}
}

// ---- errors

type joinError struct {
	errs []error
	msg  string
}

func (e *joinError) Error() string   { return e.msg }
func (e *joinError) Unwrap() []error { return e.errs }

func ErrorsJoin(errs ...error) error {
	var l []error
	msg := ""
	for _, e := range errs {
		if e != nil {
			if len(l) > 0 {
				msg += "\n"
			}
			msg += e.Error()
			l = append(l, e)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return &joinError{l, msg}
}

func ErrorsUnwrap(err error) error {
	u, ok := err.(interface{ Unwrap() error })
	if !ok {
		return nil
	}
	return u.Unwrap()
}

func ErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	cmp := comparable_(target)
	return errIs(err, target, cmp)
}

func errIs(err, target error, cmp bool) bool {
	for {
		if cmp && comparable_(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if errIs(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func ErrorsAs(err error, target interface{}) bool {
	for err != nil {
		if asAssign(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(interface{}) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if ErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// ---- sort (insertion sort: stable)

func SortSlice(x interface{}, less func(i, j int) bool) {
	n := lenOf(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapElem(x, j, j-1)
		}
	}
}

func SortSort(d sort.Interface) {
	n := d.Len()
	for i := 1; i < n; i++ {
		for j := i; j > 0 && d.Less(j, j-1); j-- {
			d.Swap(j, j-1)
		}
	}
}

// ---- sync

type onceState struct {
	mu   sync.Mutex
	done bool
}

func OnceDo(o *sync.Once, f func()) {
	var st *onceState
	if s := side(o); s != nil {
		st = s.(*onceState)
	} else {
		st = &onceState{}
		setSide(o, st)
	}
	if st.done {
		return
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	if !st.done {
		defer func() { st.done = true }()
		f()
	}
}

type poolState struct{ items []interface{} }

func PoolGet(p *sync.Pool) interface{} {
	if s := side(p); s != nil {
		st := s.(*poolState)
		if n := len(st.items); n > 0 {
			v := st.items[n-1]
			st.items = st.items[:n-1]
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func PoolPut(p *sync.Pool, v interface{}) {
	if v == nil {
		return
	}
	st := &poolState{}
	if s := side(p); s != nil {
		st = s.(*poolState)
	} else {
		setSide(p, st)
	}
	st.items = append(st.items, v)
}

type mapState struct{ m map[interface{}]interface{} }

func mst(m *sync.Map) map[interface{}]interface{} {
	if s := side(m); s != nil {
		return s.(*mapState).m
	}
	st := &mapState{map[interface{}]interface{}{}}
	setSide(m, st)
	return st.m
}

func MapLoad(m *sync.Map, k interface{}) (interface{}, bool) { v, ok := mst(m)[k]; return v, ok }
func MapStore(m *sync.Map, k, v interface{})                 { mst(m)[k] = v }
func MapLoadOrStore(m *sync.Map, k, v interface{}) (interface{}, bool) {
	if o, ok := mst(m)[k]; ok {
		return o, true
	}
	mst(m)[k] = v
	return v, false
}
func MapLoadAndDelete(m *sync.Map, k interface{}) (interface{}, bool) {
	v, ok := mst(m)[k]
	delete(mst(m), k)
	return v, ok
}
func MapDelete(m *sync.Map, k interface{}) { delete(mst(m), k) }
func MapRange(m *sync.Map, f func(k, v interface{}) bool) {
	for k, v := range mst(m) {
		if !f(k, v) {
			return
		}
	}
}
func MapClear(m *sync.Map) {
	for k := range mst(m) {
		delete(mst(m), k)
	}
}
func MapCAS(m *sync.Map, k, o, n interface{}) bool {
	if v, ok := mst(m)[k]; ok && v == o {
		mst(m)[k] = n
		return true
	}
	return false
}
func MapSwap(m *sync.Map, k, v interface{}) (interface{}, bool) {
	o, ok := mst(m)[k]
	mst(m)[k] = v
	return o, ok
}

func WgGo(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		f()
	}()
}

type condState struct{ waiters []chan struct{} }

func cst(c *sync.Cond) *condState {
	if s := side(c); s != nil {
		return s.(*condState)
	}
	st := &condState{}
	setSide(c, st)
	return st
}

func CondWait(c *sync.Cond) {
	st := cst(c)
	ch := make(chan struct{})
	st.waiters = append(st.waiters, ch)
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func CondSignal(c *sync.Cond) {
	st := cst(c)
	if len(st.waiters) > 0 {
		close(st.waiters[0])
		st.waiters = st.waiters[1:]
	}
}

func CondBroadcast(c *sync.Cond) {
	st := cst(c)
	for _, ch := range st.waiters {
		close(ch)
	}
	st.waiters = nil
}

// ---- strings / bytes

func IndexByteString(s string, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func IndexByte(s []byte, c byte) int {
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByteString(s string, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func LastIndexByte(s []byte, c byte) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == c {
			return i
		}
	}
	return -1
}

func StringsIndex(s, sub string) int {
	for i := 0; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func StringsLastIndex(s, sub string) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

func StringsCount(s, sub string) int {
	if len(sub) == 0 {
		n := 1
		for range s {
			n++
		}
		return n
	}
	n := 0
	for i := 0; i+len(sub) <= len(s); {
		if s[i:i+len(sub)] == sub {
			n++
			i += len(sub)
		} else {
			i++
		}
	}
	return n
}

func CountString(s string, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func CountBytes(s []byte, c byte) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			n++
		}
	}
	return n
}

func EqualFold(a, b string) bool { return strings.ToLower(a) == strings.ToLower(b) }

func BytesIndex(s, sub []byte) int { return StringsIndex(string(s), string(sub)) }

func BytesEqual(a, b []byte) bool { return string(a) == string(b) }

func BytesCompare(a, b []byte) int { return StringsCompare(string(a), string(b)) }

func StringsCompare(a, b string) int {
	if a < b {
		return -1
	}
	if a == b {
		return 0
	}
	return 1
}

func BuilderString(b *strings.Builder) string {
	if s := builderBuf(b); s != nil {
		return string(s)
	}
	return ""
}

func builderBuf(b *strings.Builder) []byte

func BuilderGrow(b *strings.Builder, n int) {}

func ContextName(c context.Context) string { return typeName(c) }

func Nop0() {}

var _ = errors.New

func StringsIndexAny(s, chars string) int {
	for i, c := range s {
		if RuneIn(chars, c) {
			return i
		}
	}
	return -1
}

// RuneIn is built as one formula, without a fork per character.
func RuneIn(chars string, c rune) bool {
	hit := false
	for _, x := range chars {
		hit = vp.Or(hit, x == c)
	}
	return hit
}

func StringsContainsRune(s string, r rune) bool {
	if r < 0 || r > 0x10ffff || 0xd800 <= r && r < 0xe000 {
		return false
	}
	return RuneIn(s, r)
}

func MathMax(x, y float64) float64 {
	switch {
	case x > math.MaxFloat64 || y > math.MaxFloat64:
		return math.Float64frombits(0x7FF0000000000000)
	case x != x || y != y:
		return math.Float64frombits(0x7FF8000000000001)
	case x == 0 && x == y:
		if math.Float64bits(x)>>63 != 0 {
			return y
		}
		return x
	}
	if x > y {
		return x
	}
	return y
}

func MathMin(x, y float64) float64 {
	switch {
	case x < -math.MaxFloat64 || y < -math.MaxFloat64:
		return math.Float64frombits(0xFFF0000000000000)
	case x != x || y != y:
		return math.Float64frombits(0x7FF8000000000001)
	case x == 0 && x == y:
		if math.Float64bits(x)>>63 != 0 {
			return x
		}
		return y
	}
	if x < y {
		return x
	}
	return y
}

func MathTrunc(x float64) float64 {
	b := math.Float64bits(x)
	e := int(b>>52)&0x7ff - 1023
	if e < 0 {
		return math.Float64frombits(b & (1 << 63))
	}
	if e >= 52 {
		return x
	}
	return math.Float64frombits(b &^ (1<<(52-uint(e)) - 1))
}

func MathFloor(x float64) float64 {
	t := MathTrunc(x)
	if x < 0 && t != x {
		return t - 1
	}
	return t
}

func MathCeil(x float64) float64 {
	t := MathTrunc(x)
	if x > 0 && t != x {
		return t + 1
	}
	return t
}
