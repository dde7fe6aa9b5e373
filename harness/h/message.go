package h

import (
	"math"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// msgRef is the reference model of a message: what its accessors have to return.
type msgRef struct {
	name             string
	stream, function int
	wait             int // 0, 1 or 2
	direction        string
	session          int
	sys              [4]byte
	item             tmpl
	empty            bool
}

var waitNames = [...]string{"false", "true", "optional"}

func (r msgRef) check(m *ast.DataMessage, when string) {
	vp.Assert(m.Name() == r.name, "name-"+when)
	vp.Assert(m.StreamCode() == r.stream, "stream-"+when)
	vp.Assert(m.FunctionCode() == r.function, "function-"+when)
	vp.Assert(m.WaitBit() == waitNames[vp.Conc(r.wait, 0, 2)], "wait-bit-"+when)
	vp.Assert(m.Direction() == r.direction, "direction-"+when)
	vp.Assert(m.SessionID() == r.session, "session-"+when)
	vp.Assert(eqBytes(m.SystemBytes(), r.sys[:]), "system-bytes-"+when)
	vp.Assert(m.Type() == "data message", "type-"+when)
	n, err := m.Get()
	vp.Assert(err == nil, "item-"+when)
	if err != nil {
		return
	}
	if r.empty {
		vp.Assert(n.Type() == "empty", "item-"+when)
		vp.Assert(len(m.Variables()) == 0, "variables-"+when)
		return
	}
	vp.Assert(sameNode(n, r.item.node()), "item-"+when)
	vp.Assert(eqStrings(m.Variables(), r.item.vars()), "variables-"+when)
}

func pad4(b []byte) (r [4]byte) {
	for i := 0; i < 4 && i < len(b); i++ {
		r[i] = b[i]
	}
	return r
}

var spaces = []string{"", "\u0085", "\u00a0", "\u2003", "\u3000", "\ufeff", "\u00e9"}

// genName draws a message name: n characters below 128 of any value, possibly next to one beyond.
func genMsgName(n int) (s string, ok bool) {
	ok = true
	b := vp.Bytes("name", vp.Choose("name.n", n+1))
	for i := range b {
		vp.Assume(b[i] < 128)
		white := vp.Or(b[i] == ' ', vp.And(b[i] >= 9, b[i] <= 13))
		ok = vp.And(ok, !white)
	}
	if len(b) == 0 {
		w := vp.Choose("name.wide", len(spaces))
		if w >= 1 && w <= 4 {
			ok = false
		}
		return spaces[w], ok
	}
	return string(b), ok
}

// genDirection draws a direction: one of the three, or any text of up to n characters.
func genDirection(n int) (s string, ok bool) {
	known := []string{"H->E", "H<-E", "H<->E"}
	if k := vp.Choose("direction", 4); k < 3 {
		return known[k], true
	}
	b := vp.Bytes("dir", vp.Choose("dir.n", n+1))
	for _, d := range known {
		if len(d) == len(b) {
			eq := true
			for i := range b {
				eq = vp.And(eq, b[i] == d[i])
			}
			ok = vp.Or(ok, eq)
		}
	}
	return string(b), ok
}

// within tells lo <= v < hi without forking.
func within(v, lo, hi int) bool { return vp.And(v >= lo, v < hi) }

// HMessageNew: a message is built exactly from a well-formed header.
func HMessageNew() {
	name, ok := "", true
	dir, dirOK := "H->E", true
	if vp.Choose("part", 2) == 0 {
		name, ok = genMsgName(vp.Param("n"))
	} else {
		dir, dirOK = genDirection(5)
	}
	r := msgRef{name: name, direction: dir, session: -1}
	r.stream, r.function, r.wait = int(vp.I64("stream")), int(vp.I64("function")), int(vp.I64("wait"))
	ok = vp.And(vp.And(ok, dirOK), vp.And(within(r.stream, 0, 128), within(r.function, 0, 256)))
	ok = vp.And(ok, within(r.wait, 0, 3))
	ok = vp.And(ok, !vp.And(r.wait == 1, r.function&1 == 0))
	var n ast.ItemNode = ast.NewEmptyItemNode()
	r.empty = true
	vars := false
	switch vp.Choose("item", 3) {
	case 1:
		r.empty = false
		r.item = tmpl{k: kU2, args: []interface{}{vp.U16("v")}}
		n = r.item.node()
	case 2:
		r.empty = false
		vars = true
		r.item = tmpl{k: kU2, args: []interface{}{"x"}}
		n = r.item.node()
	}
	var m *ast.DataMessage
	if vp.Choose("hsms", 2) == 0 {
		bad := panics(func() { m = ast.NewDataMessage(name, r.stream, r.function, r.wait, dir, n) })
		vp.Assert(bad == !ok, "well-formed-exactly")
		if bad {
			vp.Cover("refused")
			return
		}
		vp.Cover("built")
		r.check(m, "new")
		return
	}
	r.session = int(vp.I64("session"))
	sys := vp.Bytes("sys", vp.Choose("sys.n", 7))
	r.sys = pad4(sys)
	ok = vp.And(ok, vp.And(r.wait != 2, within(r.session, 0, 65536)))
	if vars {
		ok = false
	}
	bad := panics(func() { m = ast.NewHSMSDataMessage(name, r.stream, r.function, r.wait, dir, n, r.session, sys) })
	vp.Assert(bad == !ok, "hsms-well-formed-exactly")
	if bad {
		vp.Cover("refused")
		return
	}
	vp.Cover("built")
	for i := range sys {
		sys[i] ^= 0x5a
	}
	r.check(m, "new-hsms")
}

// HMessageChange: setting the wait bit, the session id and system bytes or the variables of a message makes a new one
// that differs in just that, and leaves every earlier message as it was, whatever happens to the arguments afterwards.
func HMessageChange() {
	r := msgRef{name: "N", direction: "H<-E", session: -1}
	r.stream, r.function = int(vp.Byte("stream")&0x7f), int(vp.Byte("function"))
	r.wait = vp.Choose("wait", 3)
	if r.wait == 1 {
		vp.Assume(r.function&1 == 1)
	}
	args := []interface{}{vp.U16("v"), "x"}
	r.item = tmpl{k: kL, kids: []tmpl{{k: kU2, args: args}, {k: kA, name: "a", max: -1}, {k: tItemVar, name: "item"}, {k: kB, args: []interface{}{vp.Byte("b")}}}}
	given := append([]interface{}{}, args...)
	u2 := ast.NewUintNode(2, given...)
	given[0], given[1] = uint16(1), "y"
	kids := []interface{}{u2, ast.NewASCIINodeVariable("a", 0, -1), "item", r.item.kids[3].node()}
	n := ast.NewListNode(kids...)
	kids[0], kids[2] = n, "other"
	msgs := []*ast.DataMessage{ast.NewDataMessage(r.name, r.stream, r.function, r.wait, r.direction, n)}
	refs := []msgRef{r}
	r.check(msgs[0], "first")
	for s := 0; s < vp.Param("steps"); s++ {
		of := vp.Choose("of", len(msgs))
		m, c := msgs[of], refs[of]
		var x *ast.DataMessage
		bad, fits := false, true
		switch vp.Choose("change", 3) {
		case 0:
			w := vp.Choose("w", 2)
			bad = panics(func() { x = m.SetWaitBit(w == 1) })
			if c.wait == 2 {
				c.wait = w
				fits = vp.Or(w == 0, c.function&1 == 1)
			}
		case 1:
			c.session = int(vp.I64("session"))
			sys := vp.Bytes("sys", vp.Choose("sys.n", 6))
			c.sys = pad4(sys)
			fits = within(c.session, -1, 65536)
			bad = panics(func() { x = m.SetSessionIDAndSystemBytes(c.session, sys) })
			for i := range sys {
				sys[i] ^= 0xa5
			}
		case 2:
			v := map[string]interface{}{}
			which := vp.Choose("which", 8)
			if which&1 != 0 {
				v["x"] = vp.U16("x")
			}
			if which&2 != 0 {
				v["a"] = string([]byte{vp.Byte("a") & 0x7f})
			}
			if which&4 != 0 {
				v["item"] = ast.NewBinaryNode(vp.Byte("item"))
			}
			keep := map[string]interface{}{}
			for k, y := range v {
				keep[k] = y
			}
			c.item = c.item.with(keep)
			bad = panics(func() { x = m.FillVariables(v) })
			v["x"], v["a"], v["item"] = uint16(9), "z", ast.NewEmptyItemNode()
		}
		vp.Assert(bad == !fits, "changes-exactly-to-well-formed")
		if bad {
			vp.Cover("refused")
			continue
		}
		vp.Cover("changed")
		msgs, refs = append(msgs, x), append(refs, c)
		for i := range msgs {
			if i < len(msgs)-1 {
				refs[i].check(msgs[i], "of-the-original")
			} else {
				refs[i].check(msgs[i], "of-the-changed")
			}
		}
	}
}

// at follows a path of positions through lists.
func (it Item) at(path []int) (r Item, ok bool) {
	for _, i := range path {
		if it.K != kL || i < 0 || i >= len(it.L) {
			return Item{K: kBad}, false
		}
		it = it.L[i]
	}
	return it, true
}

// genPath draws a path of up to n positions in it: positions of any value, of which those beyond what the item has are
// two symbolic ranges; after a position that leads nowhere there is at most one more.
func genPath(it Item, n int) (p []int) {
	for nowhere := false; len(p) < n && vp.Choose("more", 2) == 1; {
		k := count(it)
		if nowhere {
			return append(p, vp.Choose("beyond", 3)-1)
		}
		c := vp.Choose("at", k+2)
		i := c
		if c >= k {
			i = int(vp.I64("far"))
			vp.Assume(vp.Or(vp.And(c == k, i >= k), vp.And(c > k, i < 0)))
		}
		p = append(p, i)
		if it.K == kL && c < k {
			it = it.L[c]
		} else {
			nowhere = true
		}
	}
	return p
}

// genTree draws an item: lists of up to n elements nested up to depth, of which one element is of any kind and the
// others are bytes.
func genTree(name string, depth, n int) Item {
	if depth == 0 || vp.Choose(name+".leaf", 2) == 1 {
		return genItem(name, 0, n)
	}
	it := Item{K: kL}
	c := vp.Choose(name+".n", n+1)
	if c == 0 {
		return it
	}
	at := vp.Choose(name+".at", c)
	for i := 0; i < c; i++ {
		if i == at {
			it.L = append(it.L, genTree(name+"c", depth-1, n))
		} else {
			it.L = append(it.L, Item{K: kB, V: vals(name+".b", kB, 1)})
		}
	}
	return it
}

// HGet: an element is found by its path, and nothing is found where there is none.
func HGet() {
	it := genTree("item", vp.Param("depth"), vp.Param("n"))
	p := genPath(it, vp.Param("len"))
	want, ok := it.at(p)
	if !ok {
		it = plainFloats(it) // for the error texts
	}
	m := header{sys: make([]byte, 4)}.message(node(it))
	got, err := m.Get(p...)
	vp.Assert((err == nil) == ok, "element-or-error")
	if ok && err == nil {
		vp.Cover("found")
		vp.Assert(same(got, want), "the-element-addressed")
	} else {
		vp.Cover("not-found")
	}
	s, err := m.GetAscii(p...)
	vp.Assert((err == nil) == (ok && want.K == kA), "text-or-error")
	if err == nil && ok && want.K == kA {
		vp.Cover("text")
		vp.Assert(eqBytes([]byte(s), refText(want)), "the-text-addressed")
	}
}

func refText(it Item) []byte {
	b := make([]byte, len(it.V))
	for i, v := range it.V {
		b[i] = byte(v)
	}
	return b
}

// HGetValue: one value is found by the path of its item and its position in it.
func HGetValue() {
	it := genTree("item", vp.Param("depth"), vp.Param("n"))
	p := genPath(it, vp.Param("len"))
	if len(p) == 0 {
		vp.End()
	}
	want, ok := it.at(p[:len(p)-1])
	i := p[len(p)-1]
	in := ok && want.K != kL && i >= 0 && i < len(want.V)
	kind := vp.Choose("type", 4)
	fits := [...]bool{want.K == kB, want.K == kBool, want.K == kF4 || want.K == kF8, want.K >= kI1 && want.K <= kI8}[kind]
	if !ok {
		it = plainFloats(it) // for the error texts
	}
	m := header{sys: make([]byte, 4)}.message(node(it))
	var eq bool
	var err error
	bad := panics(func() {
		switch kind {
		case 0:
			var b byte
			b, err = m.GetByte(p...)
			eq = in && fits && b == byte(want.V[i])
		case 1:
			var b bool
			b, err = m.GetBoolean(p...)
			eq = in && fits && b == (want.V[i] == 1)
		case 2:
			var f float64
			f, err = m.GetFloat(p...)
			eq = in && fits && sameFloat(f, want.K, want.V[i])
		case 3:
			var v int64
			v, err = m.GetInt(p...)
			eq = in && fits && v == sext(want.V[i], want.K)
		}
	})
	if in && fits {
		vp.Cover("value")
		vp.Assert(!bad && err == nil, "value-found")
		vp.Assert(eq, "the-value-addressed")
		return
	}
	vp.Cover("no-value")
	vp.Assert(bad || err != nil, "no-other-value")
	if !ok || !fits {
		vp.Assert(!bad, "error-for-a-wrong-path-or-type")
	}
}

func sameFloat(f float64, k int, bits uint64) bool {
	want := math.Float64frombits(bits)
	if k == kF4 {
		want = float64(math.Float32frombits(uint32(bits)))
	}
	return math.Float64bits(f) == math.Float64bits(want)
}

// plainFloats gives the numbers whose text the errors contain one value, and leaves the others.
func plainFloats(it Item) Item {
	r := Item{K: it.K, V: it.V}
	for _, c := range it.L {
		r.L = append(r.L, plainFloats(c))
	}
	if it.K == kF4 || it.K == kF8 {
		r.V = make([]uint64, len(it.V))
		for i := range r.V {
			r.V[i] = map[bool]uint64{true: 0x40a00000, false: 0x4014000000000000}[it.K == kF4]
		}
	}
	return r
}
