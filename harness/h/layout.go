package h

import (
	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"
)

// asWritten tells whether a parsed message is the given one.
func asWritten(p, m *ast.DataMessage) bool {
	if p.StreamCode() != m.StreamCode() || p.FunctionCode() != m.FunctionCode() || p.WaitBit() != m.WaitBit() || p.Direction() != m.Direction() || p.Name() != m.Name() {
		return false
	}
	a, err1 := p.Get()
	b, err2 := m.Get()
	return err1 == nil && err2 == nil && sameNode(a, b)
}

// gap is what may stand between two tokens: white space, comments, or nothing where the tokens stand apart by themselves.
func gap(optional, comments bool) string {
	n := 3
	if !comments {
		n = 1
	}
	lo := 1
	if optional {
		lo = 0
	}
	space := func(lo, hi int) string {
		s := vp.String("space", lo+vp.Choose("spaces", hi-lo+1))
		for i := 0; i < len(s); i++ {
			c := s[i]
			vp.Assume(vp.Or(vp.Or(c == ' ', c == '\t'), vp.Or(c == '\r', c == '\n')))
		}
		return s
	}
	switch vp.Choose("gap", n) {
	case 1: // a comment right after the token before
		return comment() + space(0, 1)
	case 2:
		return " " + comment() + "\t" + comment()
	}
	return space(lo, vp.Param("spaces"))
}

func comment() string {
	s := vp.String("comment", vp.Choose("comment.n", vp.Param("comment")+1))
	for i := 0; i < len(s); i++ {
		vp.Assume(s[i] != '\n')
	}
	return "//" + s + "\n"
}

// HSmlLayout: white space and comments between tokens and the case of keywords change nothing.
func HSmlLayout() {
	type tok struct {
		s      string
		apart  bool // what follows needs no space
		letter bool // in upper or lower case
	}
	toks := []tok{
		{"S1F13", false, true}, {"W", false, true}, {"H->E", false, true}, {"Hello?", false, false},
		{"<", true, false}, {"L", true, true}, {"[2]", true, false},
		{"<", true, false}, {"A", true, true}, {`"a // b"`, true, false}, {">", true, false},
		{"<", true, false}, {"U1", false, true}, {"0x1F", false, false}, {"2", true, false}, {">", true, false}, {">", true, false}, {".", true, false},
		{"S1F14", false, true}, {"H<-E", true, true}, {"<", true, false}, {"BOOLEAN", false, true}, {"T", false, true}, {"F", true, true}, {">", true, false}, {".", true, false},
	}
	toks[5].apart = true // L[2]
	toks[8].apart = true // A"..."
	toks[0].apart = false
	want := []*ast.DataMessage{
		ast.NewDataMessage("Hello?", 1, 13, 1, "H->E", ast.NewListNode(ast.NewASCIINode("a // b"), ast.NewUintNode(1, 31, 2))),
		ast.NewDataMessage("", 1, 14, 0, "H<-E", ast.NewBooleanNode(true, false)),
	}
	at := vp.Choose("at", len(toks)+1) // the gap that is anything; at the end: before the first token
	lower := vp.Choose("case", 2) == 1
	text := ""
	if at == len(toks) {
		text = gap(true, true)
	}
	for i, t := range toks {
		s := t.s
		if t.letter && lower && i == at {
			b := []byte(s)
			for j, c := range b {
				if c >= 'A' && c <= 'Z' && vp.Bool("lower") {
					b[j] = c + 32
				}
			}
			s = string(b)
			vp.Cover("lower")
		}
		text += s
		switch {
		case i != at || t.letter && lower:
			text += " "
		default:
			text += gap(t.apart, true)
			vp.Cover("gap")
		}
	}
	vp.Observe("text", text)
	ms, errs, _ := sml.Parse(text)
	vp.Assert(len(errs) == 0, "layout-accepted")
	vp.Assert(len(ms) == len(want), "as-many-messages")
	for i := 0; i < len(ms) && i < len(want); i++ {
		vp.Assert(asWritten(ms[i], want[i]), "as-written")
	}
}

// HSmlSize: a size is kept exactly if the number of elements is within it.
func HSmlSize() {
	n := vp.Choose("n", vp.Param("n")+1)
	item := ""
	var nd ast.ItemNode
	var elems []interface{}
	kind := vp.Choose("kind", 5)
	for i := 0; i < n; i++ {
		switch kind {
		case 0:
			item += "<A>"
			elems = append(elems, ast.NewASCIINode(""))
		case 1:
			item += "x"
		case 2:
			item += " 0b1"
			elems = append(elems, 1)
		case 3:
			item += " T"
			elems = append(elems, true)
		case 4:
			item += " 7"
			elems = append(elems, 7)
		}
	}
	switch kind {
	case 0:
		nd = ast.NewListNode(elems...)
	case 1:
		nd = ast.NewASCIINode(item)
		item = "\"" + item + "\""
	case 2:
		nd = ast.NewBinaryNode(elems...)
	case 3:
		nd = ast.NewBooleanNode(elems...)
	case 4:
		nd = ast.NewUintNode(2, elems...)
	}
	digits := func(name string) (string, int) {
		s := vp.String(name, 1+vp.Choose(name+".n", vp.Param("digits")))
		v := 0
		for i := 0; i < len(s); i++ {
			vp.Assume(vp.And(s[i] >= '0', s[i] <= '9'))
			v = v*10 + int(s[i]-'0')
		}
		return s, v
	}
	size, in := "", false
	sp := func() string {
		if vp.Param("spaces") == 0 {
			return ""
		}
		return gap(true, false)
	}
	switch vp.Choose("form", 4) {
	case 0:
		s, v := digits("lo")
		size, in = sp()+s+sp(), n == v
	case 1:
		s, v := digits("lo")
		size, in = s+sp()+".."+sp(), n >= v
	case 2:
		s, v := digits("hi")
		size, in = ".."+sp()+s, n <= v
	case 3:
		s, v := digits("lo")
		t, w := digits("hi")
		size, in = s+".."+t, vp.And(n >= v, n <= w)
	}
	text := "S1F2 H<-E <" + []string{"L", "A", "B", "BOOLEAN", "U2"}[kind] + "[" + size + "]" + item + "> ."
	vp.Observe("text", text)
	ms, errs, _ := sml.Parse(text)
	if in {
		vp.Cover("within")
		vp.Assert(len(errs) == 0 && len(ms) == 1, "size-within-accepted")
		if len(ms) == 1 {
			vp.Assert(asWritten(ms[0], ast.NewDataMessage("", 1, 2, 0, "H<-E", nd)), "as-written")
		}
		return
	}
	vp.Cover("outside")
	vp.Assert(len(errs) > 0 && len(ms) == 0, "size-outside-refused")
}

// HSmlSeveral: messages one after another are read as each alone is.
func HSmlSeveral() {
	var text string
	var want []*ast.DataMessage
	bad := false
	for i := vp.Param("messages"); i > 0; i-- {
		s := vp.String("s", vp.Choose("n", vp.Param("n")+1))
		one := []string{"S1F1 W ", "S6F11 <L <A v> <U1 ", "S5F1 H->E <A \"", "S2F41 <L ... "}[vp.Choose("message", 4)]
		one += s + []string{" .", "> > .", "\"> .", "> ."}[map[string]int{"S1F1 W ": 0, "S6F11 <L <A v> <U1 ": 1, "S5F1 H->E <A \"": 2, "S2F41 <L ... ": 3}[one]]
		for j := 0; j < len(s); j++ { // not the end of the message itself, and no comment
			vp.Assume(vp.And(s[j] != '.', s[j] != '/'))
		}
		ms, errs, _ := sml.Parse(one)
		if len(errs) > 0 || len(ms) != 1 {
			bad = true
		} else {
			want = append(want, ms[0])
		}
		text += one + "\n"
	}
	ms, errs, _ := sml.Parse(text)
	if bad {
		vp.Cover("refused")
		vp.Assert(len(errs) > 0 && len(ms) == 0, "bad-message-refuses-all")
		return
	}
	vp.Cover("several")
	vp.Assert(len(errs) == 0 && len(ms) == len(want), "each-message-read")
	for i := 0; i < len(ms) && i < len(want); i++ {
		vp.Assert(asWritten(ms[i], want[i]), "read-as-alone")
	}
}
