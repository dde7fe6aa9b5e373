package h

import (
	"math"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"
)

// HSmlText: any text, also in the middle of a message.
func HSmlText() {
	ctx := []struct{ pre, post string }{
		{"", ""},
		{"S1F1 ", "."},
		{"S1F1 W H->E x\n<", ">\n."},
		{"S6F11 H<-E\n<L <U1 7> ", "> ."},
		{"S6F11 H<-E\n<A", "> ."},
		{"S6F11 H<-E\n<A \"", "> ."},
		{"S6F11 H<-E\n<L <A v> <A", " v>> ."},
		{"S6F11 H<-E\n<F4 ", "> ."},
		{"S6F11 H<-E\n<B ", "> ."},
		{"S6F11 H<-E\n<BOOLEAN ", "> ."},
		{"S1F1 //", ""},
	}
	c := ctx[vp.Choose("context", len(ctx))]
	s := vp.String("s", vp.Choose("n", vp.Param("n")+1))
	text := c.pre + s + c.post
	msgs, errs, warns := sml.Parse(text)
	vp.Cover("parsed")
	vp.Observe("n", len(msgs), len(errs), len(warns))
	if len(errs) > 0 {
		vp.Cover("errors")
		vp.Assert(len(msgs) == 0, "errors-without-messages")
		return
	}
	vp.Cover("accepted")
	for _, m := range msgs {
		vp.Assert(m.StreamCode() >= 0 && m.StreamCode() < 128 && m.FunctionCode() >= 0 && m.FunctionCode() < 256, "codes-in-range")
		vp.Assert(!(m.WaitBit() == "true" && m.FunctionCode()%2 == 0), "no-reply-with-wait-bit")
	}
}

// refInt reads a whole Go-style integer literal; ok is false if it is none. No value above 2^63 is met here.
func refInt(s string) (neg bool, v uint64, ok bool) {
	i := 0
	if i < len(s) && (s[i] == '+' || s[i] == '-') {
		neg = s[i] == '-'
		i++
	}
	base := uint64(10)
	if i < len(s) && s[i] == '0' && i+1 < len(s) {
		switch s[i+1] {
		case 'x', 'X':
			base, i = 16, i+2
		case 'b', 'B':
			base, i = 2, i+2
		case 'o', 'O':
			base, i = 8, i+2
		default:
			base, i = 8, i+1
		}
	}
	if i >= len(s) {
		return neg, 0, false
	}
	for ; i < len(s); i++ {
		var d uint64
		switch c := s[i]; {
		case c >= '0' && c <= '9':
			d = uint64(c - '0')
		case c >= 'a' && c <= 'f':
			d = uint64(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = uint64(c-'A') + 10
		default:
			return neg, 0, false
		}
		if d >= base {
			return neg, 0, false
		}
		v = v*base + d
	}
	return neg, v, true
}

// HSmlInteger: a number in an integer or binary item is read as what it says, or reported as an error.
func HSmlInteger() {
	k := []int{kI1, kU1, kI2, kU2, kI4, kU4, kI8, kU8, kB}[vp.Choose("kind", 9)]
	n := 1 + vp.Choose("n", vp.Param("n"))
	s := vp.String("s", n)
	for i := 0; i < n; i++ { // one token: letters, digits, sign and dot
		c := s[i]
		ok := vp.Or(vp.And(c >= '0', c <= '9'), vp.Or(vp.And(c >= 'a', c <= 'z'), vp.Or(vp.And(c >= 'A', c <= 'Z'), c == '.')))
		if i == 0 {
			ok = vp.And(vp.Or(vp.And(c >= '0', c <= '9'), vp.Or(c == '+', c == '-')), true)
		}
		vp.Assume(ok)
	}
	name := map[int]string{kI1: "I1", kU1: "U1", kI2: "I2", kU2: "U2", kI4: "I4", kU4: "U4", kI8: "I8", kU8: "U8", kB: "B"}[k]
	msgs, errs, _ := sml.Parse("S1F2 H<-E\n<" + name + " " + s + ">\n.")
	vp.Observe("n", len(msgs), len(errs))
	neg, v, ok := refInt(s)
	switch {
	case !ok:
	case k == kB:
		ok = (!neg || v == 0) && v < 256
	case k <= kI8 && neg:
		ok = v <= 1<<(uint(kindSize[k])*8-1)
	case k <= kI8:
		ok = v < 1<<(uint(kindSize[k])*8-1)
	default:
		if s[0] == '+' || s[0] == '-' {
			ok = false
			if v == 0 && s[0] == '-' || s[0] == '+' {
				vp.Assume(false) // a signed literal in an unsigned item: either answer will do
			}
		} else {
			ok = v <= ^uint64(0)>>(64-uint(kindSize[k])*8)
		}
	}
	if !ok {
		vp.Cover("not-representable")
		vp.Assert(len(errs) > 0 && len(msgs) == 0, "reports-what-it-cannot-represent")
		return
	}
	vp.Cover("representable")
	vp.Assert(len(errs) == 0 && len(msgs) == 1, "accepts-what-it-can-represent")
	if len(msgs) == 1 {
		if neg {
			v = -v
		}
		it, err := msgs[0].Get()
		vp.Assert(err == nil && same(it, Item{K: k, V: []uint64{v}}), "value-as-written")
	}
}

// HSmlQuoted: what stands between quotes (no escapes) is what the item holds.
func HSmlQuoted() {
	s := vp.String("s", vp.Choose("n", vp.Param("n")+1))
	bad := false
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] != '"' && s[i] != '\\')
		bad = vp.Or(bad, vp.Or(vp.Or(s[i] == '\n', s[i] == '\r'), s[i] >= 128))
	}
	msgs, errs, _ := sml.Parse("S1F2 H<-E\n<A \"" + s + "\">\n.")
	vp.Observe("n", len(msgs), len(errs))
	if bad {
		vp.Cover("not-representable")
		vp.Assert(len(errs) > 0 && len(msgs) == 0, "reports-what-it-cannot-represent")
		return
	}
	vp.Cover("representable")
	vp.Assert(len(errs) == 0 && len(msgs) == 1, "accepts-what-it-can-represent")
	if len(msgs) == 1 {
		x, err := msgs[0].GetAscii()
		vp.Assert(err == nil && x == s, "text-as-written")
	}
}

// printParse prints a message and reads it back.
func printParse(m *ast.DataMessage) {
	text := m.String()
	vp.Observe("text", text)
	msgs, errs, _ := sml.Parse(text)
	vp.Cover("printed")
	vp.Assert(len(errs) == 0, "printed-text-parses")
	if len(errs) > 0 {
		return
	}
	vp.Assert(len(msgs) == 1, "one-message")
	if len(msgs) != 1 {
		return
	}
	p := msgs[0]
	vp.Assert(p.StreamCode() == m.StreamCode() && p.FunctionCode() == m.FunctionCode(), "same-codes")
	vp.Assert(p.WaitBit() == m.WaitBit() && p.Direction() == m.Direction() && p.Name() == m.Name(), "same-header")
	a, err1 := p.Get()
	b, err2 := m.Get()
	vp.Assert(err1 == nil && err2 == nil && sameNode(a, b), "same-item")
}

func letter(c byte) bool {
	return vp.Or(vp.And(c >= 'A', c <= 'Z'), vp.And(c >= 'a', c <= 'z'))
}

// HSmlHeader: stream, function, wait bit, direction and name.
func HSmlHeader() {
	stream, function := int(vp.Byte("stream")&0x7f), int(vp.Byte("function"))
	w := vp.Choose("w", 3)
	vp.Assume(vp.Or(w != 1, function&1 == 1))
	name := vp.String("name", vp.Choose("len", vp.Param("n")+1))
	for i := 0; i < len(name); i++ { // names that are no SML syntax themselves
		c := name[i]
		if i == 0 {
			vp.Assume(letter(c))
			continue
		}
		alnum := vp.Or(letter(c), vp.Or(vp.And(c >= '0', c <= '9'), c == '_'))
		if i == 1 { // not the beginning of a stream and function, of a direction, or a wait bit
			f := name[0]
			vp.Assume(vp.Or(vp.And(f != 's', f != 'S'), vp.Or(c < '0', c > '9')))
			vp.Assume(vp.Or(vp.And(f != 'h', f != 'H'), vp.And(c != '-', c != '<')))
			vp.Assume(vp.Or(vp.And(f != 'w', f != 'W'), alnum))
		}
		if i == 2 {
			vp.Assume(vp.Or(vp.And(name[0] != 'w', name[0] != 'W'), vp.Or(vp.And(name[1] != 'h', name[1] != 'H'), vp.And(c != '-', c != '<'))))
		}
		vp.Assume(vp.And(c > 32, vp.And(c < 127, c != '/')))
	}
	if len(name) == 1 {
		vp.Assume(name[0] != 'w' && name[0] != 'W')
	}
	var n ast.ItemNode = ast.NewEmptyItemNode()
	if vp.Choose("item", 2) == 1 {
		n = ast.NewBooleanNode(true)
	}
	printParse(ast.NewDataMessage(name, stream, function, w, []string{"H->E", "H<-E", "H<->E"}[vp.Choose("dir", 3)], n))
}

// HSmlASCII: every ASCII text.
func HSmlASCII() {
	n := vp.Choose("n", vp.Param("n")+1)
	it := Item{K: kA, V: vals("c", kA, n)}
	nd := node(it)
	if vp.Choose("nest", 2) == 1 {
		nd = ast.NewListNode(nd, ast.NewASCIINode("x"))
	}
	printParse(ast.NewDataMessage("", 1, 2, 0, "H<-E", nd))
}

// HSmlNumber: numeric, binary and boolean items. Values of the wide formats are taken around 0 and both limits.
func HSmlNumber() {
	k := []int{kB, kBool, kI1, kI2, kI4, kI8, kU1, kU2, kU4, kU8}[vp.Choose("kind", 10)]
	n := vp.Choose("n", vp.Param("n")+1)
	it := Item{K: k}
	for i := 0; i < n; i++ {
		d := uint64(vp.Byte("d"))
		if k == kBool {
			d &= 1
		}
		bits := uint(kindSize[k]) * 8
		if kindSize[k] > 1 {
			d &= uint64(vp.Param("window")) - 1
			if kindSize[k] > 2 {
				d = uint64(vp.Conc(int(d), 0, vp.Param("window")-1))
			}
			switch vp.Choose("near", 3) {
			case 0:
				d -= uint64(vp.Param("window")) / 2
			case 1:
				d += 1<<(bits-1) - uint64(vp.Param("window"))/2
			case 2:
				d <<= 5
			}
			d &= ^uint64(0) >> (64 - bits)
		}
		it.V = append(it.V, d)
	}
	printParse(ast.NewDataMessage("m", 1, 2, 0, "H<-E", node(it)))
}

// HSmlFloat: floats, from a list of values whose decimal form is hard to get right.
func HSmlFloat() {
	fs := []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 1e21, -1e-7, 123456789, math.MaxFloat32, math.SmallestNonzeroFloat32, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 2.2250738585072014e-308, 1.0 / 3, 1e100}
	k := kF4 + vp.Choose("kind", 2)
	var args []interface{}
	for i, n := 0, 1+vp.Choose("n", 2); i < n; i++ {
		f := fs[vp.Choose("f", len(fs))]
		if k == kF4 {
			vp.Assume(math.Abs(f) <= math.MaxFloat32)
			f = float64(float32(f))
		}
		args = append(args, f)
	}
	printParse(ast.NewDataMessage("m", 1, 2, 0, "H<-E", ast.NewFloatNode(kindSize[k], args...)))
}

// HSmlTemplate: nested items with variables and ellipses.
func HSmlTemplate() {
	idx, ell := 0, 0
	t := genSmlList(vp.Param("depth"), &idx, &ell)
	printParse(ast.NewDataMessage("m", 6, 11, vp.Choose("w", 3), "H<-E", t.node()))
}

func genSmlList(depth int, idx, ell *int) tmpl {
	t := tmpl{k: kL}
	n := vp.Choose("kids", vp.Param("n")+1)
	for i := 0; i < n; i++ {
		*idx++
		nm := "v" + string(rune('a'+*idx))
		c := 6
		if depth > 0 {
			c++
		}
		switch vp.Choose("kid", c) {
		case 0:
			t.kids = append(t.kids, tmpl{k: kU2, args: []interface{}{nm, 7, nm + "_2[3]"}})
		case 1:
			t.kids = append(t.kids, tmpl{k: kA, name: nm, min: 2, max: 3 * vp.Choose("max", 2)})
			if t.kids[i].max == 0 {
				t.kids[i].max = -1
			}
		case 2:
			t.kids = append(t.kids, tmpl{k: tItemVar, name: nm})
		case 3:
			t.kids = append(t.kids, tmpl{k: kBool, args: []interface{}{true, nm}})
		case 4:
			t.kids = append(t.kids, tmpl{k: kA, args: []interface{}{"te>xt"}})
		case 5:
			t.kids = append(t.kids, tmpl{k: kB, args: []interface{}{nm, 5}})
		case 6:
			t.kids = append(t.kids, genSmlList(depth-1, idx, ell))
		}
	}
	if n > 0 && vp.Choose("ellipsis", 2) == 1 {
		t.kids = append(t.kids, tmpl{k: tEllipsis, name: "...[" + string(rune('0'+*ell)) + "]"})
		*ell++
	}
	return t
}
