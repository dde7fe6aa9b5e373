package h

import (
	"math"
	"strconv"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// Templates: items with variables, kept as data so that an item can be built with or without values filled in.
const (
	tItemVar  = 100 + iota // an item variable inside a list
	tEllipsis              // "..." inside a list
	tGiven                 // a ready item
)

type tmpl struct {
	k        int
	args     []interface{} // constructor arguments; a string is a variable (but for ASCII)
	name     string        // variable of an ASCII item, item variable or ellipsis
	min, max int
	kids     []tmpl
	given    interface{}
}

func (t tmpl) build() interface{} {
	switch t.k {
	case tItemVar, tEllipsis:
		return t.name
	case tGiven:
		return t.given
	case kL:
		var c []interface{}
		for _, x := range t.kids {
			c = append(c, x.build())
		}
		return ast.NewListNode(c...)
	case kA:
		if t.name != "" {
			return ast.NewASCIINodeVariable(t.name, t.min, t.max)
		}
		return ast.NewASCIINode(t.args[0].(string))
	case kB:
		return ast.NewBinaryNode(t.args...)
	case kBool:
		return ast.NewBooleanNode(t.args...)
	case kI1, kI2, kI4, kI8:
		return ast.NewIntNode(kindSize[t.k], t.args...)
	case kU1, kU2, kU4, kU8:
		return ast.NewUintNode(kindSize[t.k], t.args...)
	}
	return ast.NewFloatNode(kindSize[t.k], t.args...)
}

func (t tmpl) node() ast.ItemNode { return t.build().(ast.ItemNode) }

// with puts values in the places of variables.
func (t tmpl) with(v map[string]interface{}) tmpl {
	switch t.k {
	case tItemVar:
		if x, ok := v[t.name]; ok {
			return tmpl{k: tGiven, given: x}
		}
		return t
	case kL:
		r := t
		r.kids = nil
		for _, x := range t.kids {
			r.kids = append(r.kids, x.with(v))
		}
		return r
	case kA:
		if t.name != "" {
			if x, ok := v[t.name]; ok {
				s := x.(string)
				if len(s) < t.min || t.max != -1 && len(s) > t.max {
					panic("length out of range")
				}
				return tmpl{k: kA, args: []interface{}{x}}
			}
		}
		return t
	}
	if t.k >= 100 {
		return t
	}
	r := t
	r.args = nil
	for _, a := range t.args {
		if s, ok := a.(string); ok {
			if x, has := v[s]; has {
				a = x
			}
		}
		r.args = append(r.args, a)
	}
	return r
}

// vars lists the variables in order.
func (t tmpl) vars() []string {
	switch t.k {
	case tItemVar, tEllipsis:
		return []string{t.name}
	case kL:
		var r []string
		for _, x := range t.kids {
			r = append(r, x.vars()...)
		}
		return r
	case kA:
		if t.name != "" {
			return []string{t.name}
		}
		return nil
	case tGiven:
		if n, ok := t.given.(ast.ItemNode); ok {
			return n.Variables()
		}
		return []string{t.given.(string)}
	}
	var r []string
	for _, a := range t.args {
		if s, ok := a.(string); ok {
			r = append(r, s)
		}
	}
	return r
}

// expand repeats the items before each ellipsis that has a count.
func (t tmpl) expand(counts map[string]int, suffix string) tmpl {
	switch {
	case t.k == kL:
		r := t
		r.kids = nil
		e := -1
		for i, x := range t.kids {
			if x.k == tEllipsis {
				if _, ok := counts[x.name]; ok {
					e = i
				}
			}
		}
		if e < 0 || counts[t.kids[e].name] == 0 {
			for i, x := range t.kids {
				if i != e {
					r.kids = append(r.kids, x.expand(counts, suffix))
				}
			}
			return r
		}
		for j := 0; j <= counts[t.kids[e].name]; j++ {
			for _, x := range t.kids[:e] {
				r.kids = append(r.kids, x.expand(counts, suffix+"["+strconv.Itoa(j)+"]"))
			}
		}
		for _, x := range t.kids[e+1:] {
			r.kids = append(r.kids, x.expand(counts, suffix))
		}
		return r
	case t.k == tEllipsis || t.k == tGiven:
		return t
	}
	r := t
	if r.name != "" {
		r.name += suffix
	}
	if t.k != kA {
		r.args = nil
		for _, a := range t.args {
			if s, ok := a.(string); ok {
				a = s + suffix
			}
			r.args = append(r.args, a)
		}
	}
	return r
}

func eqStrings(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// sameNode compares two library items by everything a user can read from them.
func sameNode(a, b ast.ItemNode) bool {
	if a.Type() != b.Type() || a.Size() != b.Size() || !eqStrings(a.Variables(), b.Variables()) || !eqBytes(a.ToBytes(), b.ToBytes()) {
		return false
	}
	eq := true
	if x, ok := a.(*ast.ASCIINode); ok { // the limits of a text that is still to be filled in
		y, ok := b.(*ast.ASCIINode)
		if !ok {
			return false
		}
		min, max := x.FillInStringLength()
		min2, max2 := y.FillInStringLength()
		if min != min2 || max != max2 {
			return false
		}
	}
	switch x := a.Values().(type) {
	case []ast.ItemNode:
		y, ok := b.Values().([]ast.ItemNode)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			eq = vp.And(eq, sameNode(x[i], y[i]))
		}
	case string:
		y, ok := b.Values().(string)
		return ok && x == y
	case []int:
		y, ok := b.Values().([]int)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			eq = vp.And(eq, x[i] == y[i])
		}
	case []bool:
		y, ok := b.Values().([]bool)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			eq = vp.And(eq, x[i] == y[i])
		}
	case []int64:
		y, ok := b.Values().([]int64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			eq = vp.And(eq, x[i] == y[i])
		}
	case []uint64:
		y, ok := b.Values().([]uint64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			eq = vp.And(eq, x[i] == y[i])
		}
	case []float64:
		y, ok := b.Values().([]float64)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			eq = vp.And(eq, math.Float64bits(x[i]) == math.Float64bits(y[i]))
		}
	}
	return eq
}

// goArg is a symbolic constructor argument for kind k, not always acceptable.
func goArg(k int) interface{} {
	switch k {
	case kA:
		return vp.String("a", vp.Choose("alen", 4))
	case kB:
		return int(vp.U16("b"))
	case kBool:
		return vp.Bool("bool")
	case kF4, kF8:
		return vp.Float64("f")
	case kU1, kU2, kU4, kU8:
		return vp.U64("u")
	}
	return vp.I64("i")
}

// checkFill: filling t with v is building t with v.
func checkFill(t tmpl, v map[string]interface{}) {
	orig, twin := t.node(), t.node()
	arg := map[string]interface{}{"unknown_name": 1}
	for n, x := range v {
		arg[n] = x
	}
	var got, want ast.ItemNode
	pw := panics(func() { want = t.with(v).node() })
	pg := panics(func() { got = orig.FillVariables(arg) })
	vp.Observe("panics", pg, pw)
	vp.Assert(sameNode(orig, twin), "original-unchanged")
	vp.Assert(len(arg) == len(v)+1, "argument-unchanged")
	if pw || pg {
		vp.Cover("refused")
		vp.Assert(pw == pg, "refuses-what-the-constructor-refuses")
		return
	}
	vp.Cover("filled")
	vp.Assert(sameNode(got, want), "filled-equals-built")
	left := t.with(v).vars()
	vp.Assert(eqStrings(got.Variables(), left), "remaining-variables")
	if len(left) > 0 {
		vp.Assert(len(got.ToBytes()) == 0, "unfilled-has-no-encoding")
	} else {
		vp.Assert(len(got.ToBytes()) > 0, "filled-has-an-encoding")
	}
	// filling what is left in a second step
	if len(left) > 0 && len(t.vars()) > len(left) {
		rest := map[string]interface{}{}
		if t.k != kL && t.k != kA {
			for _, n := range left {
				rest[n] = valueFor(t.k)
			}
			vp.Assert(sameNode(got.FillVariables(rest), t.with(v).with(rest).node()), "second-fill")
			vp.Assert(sameNode(got, want), "first-fill-unchanged")
		}
	}
}

func valueFor(k int) interface{} {
	if k == kBool {
		return true
	}
	return 7
}

// HFillLeaf: one numeric, binary, boolean or ASCII item.
func HFillLeaf() {
	k := 1 + vp.Choose("kind", 13)
	t := tmpl{k: k}
	v := map[string]interface{}{}
	if k == kA {
		t.name = "x"
		t.min = vp.Choose("min", 3)
		t.max = vp.Choose("max", 4) - 1
		vp.Assume(t.max == -1 || t.min <= t.max)
		if vp.Choose("fill", 2) == 1 {
			v["x"] = goArg(kA)
		}
		checkFill(t, v)
		return
	}
	n := vp.Choose("n", vp.Param("n")+1)
	for i := 0; i < n; i++ {
		switch vp.Choose("pos", 3) {
		case 0:
			t.args = append(t.args, tmplVal(k))
		case 1:
			t.args = append(t.args, "v"+strconv.Itoa(i))
		case 2:
			nm := "w" + strconv.Itoa(n-i)
			t.args = append(t.args, nm)
			v[nm] = goArg(k)
		}
	}
	checkFill(t, v)
}

// tmplVal is a value the item of kind k can hold.
func tmplVal(k int) interface{} {
	switch k {
	case kBool:
		return vp.Bool("c")
	case kF4, kF8:
		return 1.5
	}
	return int(vp.Byte("c") & 0x7f)
}

// genTmplKid draws an element of a list; idx makes the names unique.
func genTmplKid(depth int, idx *int, v map[string]interface{}) tmpl {
	*idx++
	nm := "n" + strconv.Itoa(*idx)
	fill := func(x interface{}) {
		if vp.Choose("fill", 2) == 1 {
			v[nm] = x
		}
	}
	c := 6
	if depth > 0 {
		c = 7
	}
	switch vp.Choose("kid", c) {
	case 0: // no variable
		return tmpl{k: kU1, args: []interface{}{vp.Byte("c")}}
	case 1:
		fill(vp.U16("u"))
		return tmpl{k: kU2, args: []interface{}{nm, vp.Byte("c")}}
	case 2:
		s := vp.String("a", 1)
		vp.Assume(s[0] < 128)
		fill(s)
		return tmpl{k: kA, name: nm, max: -1}
	case 3:
		fill(ast.NewIntNode(2, vp.Byte("g")))
		return tmpl{k: tItemVar, name: nm}
	case 4:
		fill(ast.NewListNode(ast.NewBooleanNode(nm + "b")))
		return tmpl{k: tItemVar, name: nm}
	case 5:
		fill(nm + "renamed")
		return tmpl{k: tItemVar, name: nm}
	}
	return genTmplList(depth-1, idx, v)
}

func genTmplList(depth int, idx *int, v map[string]interface{}) tmpl {
	t := tmpl{k: kL}
	n := vp.Choose("kids", vp.Param("n")+1)
	for i := 0; i < n; i++ {
		t.kids = append(t.kids, genTmplKid(depth, idx, v))
	}
	return t
}

// HFillList: lists with item variables and items that hold variables.
func HFillList() {
	idx := 0
	v := map[string]interface{}{}
	checkFill(genTmplList(vp.Param("depth"), &idx, v), v)
}

// HFillEllipsis: an ellipsis, and an ellipsis inside what another one repeats.
func HFillEllipsis() {
	elem := func(i int) tmpl {
		nm := "e" + strconv.Itoa(i)
		if i >= 10 { // fewer kinds in the places that multiply
			if vp.Choose("elem2", 2) == 0 {
				return tmpl{k: kU1, args: []interface{}{nm, vp.Byte("c")}}
			}
			return tmpl{k: tItemVar, name: nm}
		}
		switch vp.Choose("elem", 6) {
		case 0:
			return tmpl{k: kU1, args: []interface{}{vp.Byte("c")}}
		case 1:
			return tmpl{k: kU1, args: []interface{}{nm, vp.Byte("c")}}
		case 2:
			return tmpl{k: kA, name: nm, min: 1, max: 3}
		case 3:
			return tmpl{k: tItemVar, name: nm}
		case 4:
			return tmpl{k: kA, args: []interface{}{"t"}}
		}
		return tmpl{k: kL, kids: []tmpl{{k: kI4, args: []interface{}{nm, nm + "b"}}, {k: tItemVar, name: nm + "c"}}}
	}
	counts := map[string]int{}
	arg := map[string]interface{}{}
	t := tmpl{k: kL}
	n := 1 + vp.Choose("before", vp.Param("n"))
	nested := vp.Choose("nested", 2) == 1
	for i := 0; i < n; i++ {
		t.kids = append(t.kids, elem(i))
	}
	if nested {
		in := tmpl{k: kL, kids: []tmpl{elem(10), {k: tEllipsis, name: "...[0]"}}}
		if vp.Choose("inner-after", 2) == 1 {
			in.kids = append(in.kids, elem(11))
		}
		counts["...[0]"] = vp.Choose("inner", vp.Param("rep")+1)
		t.kids = append(t.kids, in, tmpl{k: tEllipsis, name: "...[1]"})
		counts["...[1]"] = vp.Choose("outer", vp.Param("rep")+1)
	} else {
		t.kids = append(t.kids, tmpl{k: tEllipsis, name: "..."})
		counts["..."] = vp.Choose("outer", vp.Param("rep")+1)
	}
	if vp.Choose("after", 2) == 1 {
		t.kids = append(t.kids, elem(20))
	}
	for c, x := range counts {
		arg[c] = x
	}
	want := t.expand(counts, "")
	// some of the repeated variables are filled in the same call
	vals := map[string]interface{}{}
	if wv := want.vars(); len(wv) > 0 && vp.Choose("also", 2) == 1 {
		name := wv[vp.Choose("which", len(wv))]
		x := valueOf(want, name)
		vals[name], arg[name] = x, x
	}
	orig, twin := t.node(), t.node()
	got := orig.FillVariables(arg)
	vp.Cover("expanded")
	vp.Observe("vars", len(got.Variables()))
	vp.Assert(sameNode(orig, twin), "original-unchanged")
	vp.Assert(eqStrings(got.Variables(), want.with(vals).vars()), "remaining-variables")
	vp.Assert(sameNode(got, want.with(vals).node()), "filled-equals-built")
}

// valueOf is a value fit for the variable called name.
func valueOf(t tmpl, name string) interface{} {
	switch {
	case t.k == kL:
		for _, x := range t.kids {
			if v := valueOf(x, name); v != nil {
				return v
			}
		}
		return nil
	case t.name == name && t.k == kA:
		return "ab"
	case t.name == name && t.k == tItemVar:
		return ast.NewUintNode(4, vp.U32("filled"))
	case t.k < 100:
		for _, a := range t.args {
			if s, ok := a.(string); ok && s == name && t.k != kA {
				return int(vp.Byte("filled"))
			}
		}
	}
	return nil
}

// HFillMessage: messages keep everything but the filled variables.
func HFillMessage() {
	h := genHeader()
	idx := 0
	v := map[string]interface{}{}
	t := genTmplList(0, &idx, v)
	w := vp.Choose("w", 3)
	vp.Assume(w != 1 || h.function&1 == 1)
	dir := []string{"H->E", "H<-E", "H<->E"}[vp.Choose("dir", 3)]
	m := ast.NewDataMessage("name", h.stream, h.function, w, dir, t.node())
	set := vp.Choose("set", 2) == 1
	if set {
		m = m.SetSessionIDAndSystemBytes(h.session, h.sys)
	}
	f := m.FillVariables(v)
	want := t.with(v)
	vp.Cover("filled")
	vp.Assert(f.StreamCode() == h.stream && f.FunctionCode() == h.function && f.Name() == "name" && f.Direction() == dir && f.WaitBit() == m.WaitBit() && f.SessionID() == m.SessionID(), "header-kept")
	vp.Assert(eqBytes(f.SystemBytes(), m.SystemBytes()), "system-bytes-kept")
	vp.Assert(eqStrings(f.Variables(), want.vars()), "remaining-variables")
	vp.Assert(eqStrings(m.Variables(), t.vars()), "original-unchanged")
	b := f.ToBytes()
	if w == 2 || !set || len(want.vars()) > 0 {
		vp.Cover("incomplete")
		vp.Assert(len(b) == 0, "unfilled-has-no-encoding")
		return
	}
	vp.Cover("complete")
	direct := ast.NewHSMSDataMessage("name", h.stream, h.function, w, dir, want.node(), h.session, h.sys)
	vp.Assert(eqBytes(b, direct.ToBytes()), "filled-equals-built")
}
