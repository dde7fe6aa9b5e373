package h

import (
	"math"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
)

// panics runs f and tells whether it panicked.
func panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if vp.IsAssume(r) || vp.IsEnd(r) {
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// HEncodeItem: the bytes of a complete message are those of the reference encoder, whichever way the message
// was completed.
func HEncodeItem() {
	h := genHeader()
	it := genItem("it", vp.Param("depth"), vp.Param("n"))
	n := node(it)
	w := 0
	if h.wait {
		w = 1
	}
	var m *ast.DataMessage
	switch vp.Choose("how", 3) {
	case 0:
		m = h.message(n)
	case 1:
		m = ast.NewDataMessage("name", h.stream, h.function, w, "H->E", n).SetSessionIDAndSystemBytes(h.session, h.sys)
	case 2:
		m = ast.NewDataMessage("", h.stream, h.function, 2, "H<-E", n).SetSessionIDAndSystemBytes(h.session, h.sys).SetWaitBit(h.wait)
	}
	vp.Cover("encoded")
	b := m.ToBytes()
	vp.Observe("bytes", b)
	vp.Assert(eqBytes(b, refMessage(h.session, h.stream, h.function, h.wait, h.sys, it)), "message-encoding")
	vp.Assert(eqBytes(n.ToBytes(), refEncode(it)), "item-encoding")
	vp.Assert(m.StreamCode() == h.stream && m.FunctionCode() == h.function && m.SessionID() == h.session, "accessors")
	vp.Assert(eqBytes(m.SystemBytes(), h.sys), "system-bytes")
	vp.Assert(m.Type() == "data message", "type")
}

// HEncodeLong: header bytes of long items (the content is fixed).
func HEncodeLong() {
	k := vp.Choose("kind", 14)
	sizes := []int{0, 1, 255, 256, 257, 65535, 65536, 65537}
	length := sizes[vp.Choose("length", vp.Param("sizes"))]
	it := Item{K: k}
	n := length / kindSize[k]
	if k == kL {
		c := Item{K: kU1, V: vals("v", kU1, 1)}
		for i := 0; i < n; i++ {
			it.L = append(it.L, c)
		}
	} else {
		it.V = make([]uint64, n)
		if n > 0 {
			it.V[n-1] = vals("v", k, 1)[0]
		}
	}
	vp.Cover("encoded")
	vp.Assert(eqBytes(node(it).ToBytes(), refEncode(it)), "item-encoding")
}

// HEncodeIncomplete: a message that lacks its session id, its wait bit or the value of a variable has no encoding.
func HEncodeIncomplete() {
	h := genHeader()
	w := 0
	if h.wait {
		w = 1
	}
	missSession := vp.Bool("no-session")
	missWait := vp.Bool("no-wait")
	missVar := vp.Choose("variable", 10)
	var n ast.ItemNode
	v := vp.Byte("v")
	switch missVar {
	case 0:
		n = ast.NewUintNode(1, v)
	case 1:
		n = ast.NewUintNode(1, "x", v)
	case 2:
		n = ast.NewIntNode(4, int(v), "x")
	case 3:
		n = ast.NewFloatNode(8, "x")
	case 4:
		n = ast.NewBooleanNode(true, "x")
	case 5:
		n = ast.NewBinaryNode("x", v)
	case 6:
		n = ast.NewASCIINodeVariable("x", 0, -1)
	case 7:
		n = ast.NewListNode(ast.NewUintNode(1, v), "x")
	case 8:
		n = ast.NewListNode(ast.NewUintNode(1, v), ast.NewListNode(ast.NewUintNode(2, "x")))
	case 9:
		n = ast.NewListNode(ast.NewUintNode(1, v), "...")
	}
	if missWait {
		w = 2
	}
	m := ast.NewDataMessage("", h.stream, h.function, w, "H<->E", n)
	if !missSession {
		m = m.SetSessionIDAndSystemBytes(h.session, h.sys)
	}
	b := m.ToBytes()
	vp.Observe("bytes", b)
	if missSession || missWait || missVar != 0 {
		vp.Cover("incomplete")
		vp.Assert(len(b) == 0, "incomplete-message-has-no-encoding")
	} else {
		vp.Cover("complete")
		vp.Assert(eqBytes(b, refMessage(h.session, h.stream, h.function, h.wait, h.sys, Item{K: kU1, V: []uint64{uint64(v)}})), "complete-message-encoding")
	}
}

// HControl: every constructor of control messages against E37, and decoding of the result.
func HControl() {
	session := vp.U16("session")
	sys := vp.Bytes("sys", 4)
	status := vp.Byte("status")
	pt, st := vp.Byte("ptype"), vp.Byte("stype")
	var m ast.HSMSMessage
	var want []byte
	var typ string
	sid := int(session)
	which := vp.Choose("constructor", 10)
	switch which {
	case 0:
		m, want, typ = ast.NewHSMSMessageSelectReq(session, sys), refControl(sid, 0, 0, 1, sys), "select.req"
	case 1:
		m, want, typ = ast.NewHSMSMessageSelectRsp(ast.NewHSMSMessageSelectReq(session, sys), status), refControl(sid, 0, status, 2, sys), "select.rsp"
	case 2:
		m, want, typ = ast.NewHSMSMessageDeselectReq(session, sys), refControl(sid, 0, 0, 3, sys), "deselect.req"
	case 3:
		m, want, typ = ast.NewHSMSMessageDeselectRsp(ast.NewHSMSMessageDeselectReq(session, sys), status), refControl(sid, 0, status, 4, sys), "deselect.rsp"
	case 4:
		m, want, typ = ast.NewHSMSMessageLinktestReq(sys), refControl(0xffff, 0, 0, 5, sys), "linktest.req"
	case 5:
		m, want, typ = ast.NewHSMSMessageLinktestRsp(ast.NewHSMSMessageLinktestReq(sys)), refControl(0xffff, 0, 0, 6, sys), "linktest.rsp"
		sid = 0xffff
	case 6:
		vp.Assume(status != 0)
		b2 := st
		if status == 2 {
			b2 = pt
		}
		m, want, typ = ast.NewHSMSMessageRejectReq(session, pt, st, sys, status), refControl(sid, b2, status, 7, sys), "reject.req"
	case 7:
		m, want, typ = ast.NewHSMSMessageSeparateReq(session, sys), refControl(sid, 0, 0, 9, sys), "separate.req"
	case 8: // the response to a request whose header bytes 2 and 3 are not zero
		req := ast.NewHSMSControlMessage([]byte{byte(session >> 8), byte(session), pt, st, 0, 1, sys[0], sys[1], sys[2], sys[3]})
		m, want, typ = ast.NewHSMSMessageSelectRsp(req, status), refControl(sid, 0, status, 2, sys), "select.rsp"
	case 9:
		req := ast.NewHSMSControlMessage([]byte{byte(session >> 8), byte(session), pt, st, 0, 3, sys[0], sys[1], sys[2], sys[3]})
		m, want, typ = ast.NewHSMSMessageDeselectRsp(req, status), refControl(sid, 0, status, 4, sys), "deselect.rsp"
	}
	if which == 4 {
		sid = 0xffff
	}
	checkControl(m, want, typ, uint16(sid), sys)
}

func checkControl(m ast.HSMSMessage, want []byte, typ string, session uint16, sys []byte) {
	b := m.ToBytes()
	vp.Observe("bytes", b)
	vp.Cover("control")
	vp.Assert(eqBytes(b, want), "control-encoding")
	vp.Assert(m.Type() == typ, "control-type")
	vp.Assert(eqBytes(m.SystemBytes(), sys), "control-system-bytes")
	cm, ok := m.(*ast.ControlMessage)
	vp.Assert(ok, "control-go-type")
	if ok {
		vp.Assert(cm.SessionID() == session, "control-session")
		vp.Assert(cm.Status() == want[7], "control-status")
	}
	d, ok := hsms.Parse(b)
	vp.Assert(ok, "control-decodes")
	if !ok {
		return
	}
	vp.Assert(d.Type() == typ, "decoded-type")
	vp.Assert(eqBytes(d.SystemBytes(), sys), "decoded-system-bytes")
	vp.Assert(eqBytes(d.ToBytes(), want), "decoded-bytes")
	if dm, ok := d.(*ast.ControlMessage); ok {
		vp.Assert(dm.SessionID() == session, "decoded-session")
	} else {
		vp.Assert(false, "decoded-go-type")
	}
}

// HControlHeader: any ten header bytes.
func HControlHeader() {
	hd := vp.Bytes("h", 10)
	vp.Assume(hd[4] == 0)
	types := [...]string{"", "select.req", "select.rsp", "deselect.req", "deselect.rsp", "linktest.req", "linktest.rsp", "reject.req", "", "separate.req"}
	st := vp.Choose("stype", 10)
	vp.Assume(types[st] != "")
	hd[5] = byte(st)
	want := append([]byte{0, 0, 0, 10}, hd...)
	given := append([]byte{}, hd...)
	for i := vp.Choose("extra", 3); i > 0; i-- {
		given = append(given, 0x55) // anything behind the ten bytes is not part of the header
	}
	m := ast.NewHSMSControlMessage(given)
	given[0] ^= 0xff // the message keeps its own copy
	checkControl(m, want, types[st], uint16(hd[0])<<8|uint16(hd[1]), hd[6:10])
}

// HRejectFrom: a reject built from the message it rejects.
func HRejectFrom() {
	hd := vp.Bytes("h", 10)
	reason := vp.Byte("reason")
	vp.Assume(reason != 0)
	m := ast.NewHSMSMessageRejectReqFromMsg(ast.NewHSMSControlMessage(hd), reason)
	b2 := hd[5]
	if reason == 2 {
		b2 = hd[4]
	}
	checkControl(m, refControl(int(hd[0])<<8|int(hd[1]), b2, reason, 7, hd[6:10]), "reject.req", uint16(hd[0])<<8|uint16(hd[1]), hd[6:10])
}

// libCanHold: the reference item is one the library's items can represent.
func libCanHold(it Item) bool {
	switch it.K {
	case kL:
		for _, c := range it.L {
			if !libCanHold(c) {
				return false
			}
		}
	case kA:
		ok := true
		for _, c := range it.V {
			ok = vp.And(ok, c < 128)
		}
		return ok
	case kF4, kF8:
		ok := true
		for _, v := range it.V {
			ok = vp.And(ok, isFinite(v, it.K))
		}
		return ok
	}
	return true
}

// HDecodeAny: every byte string up to the bound.
func HDecodeAny() {
	n := vp.Choose("n", vp.Param("max")+1)
	b := vp.Bytes("b", n)
	decodeAgainstReference(b)
}

// HDecodeBody: a correctly framed data message with any body of the given length.
func HDecodeBody() {
	n := vp.Param("min") + vp.Choose("n", vp.Param("max")-vp.Param("min")+1)
	b := append([]byte{0, 0, 0, byte(10 + n), 0, 1, 1, 3, 0, 0, 0, 0, 0, 7}, vp.Bytes("b", n)...)
	decodeAgainstReference(b)
}

// HDecodeNested: bodies that begin with nested lists.
// HDecodeItem: one item of every format with every length that fits a few values, and a few bytes more or less.
func HDecodeItem() {
	k := vp.Choose("kind", 15)
	code := byte(vp.Choose("unused", 64)) // every format code, the unassigned ones as well
	if k < 14 {
		vp.Assume(code == kindCode[k])
	} else {
		for _, c := range kindCode {
			vp.Assume(code != c)
		}
	}
	max := vp.Param("max")
	if k == kL || k == 14 {
		max = 2
	} else if kindSize[k] == 1 {
		max = 4
	}
	n := vp.Choose("n", max+1)
	have := n - 1 + vp.Choose("have", 3)
	if have < 0 {
		have = 0
	}
	body := append([]byte{code<<2 | 1, byte(n)}, vp.Bytes("b", have)...)
	b := append([]byte{0, 0, 0, byte(10 + len(body)), 0, 1, 1, 3, 0, 0, 0, 0, 0, 7}, body...)
	decodeAgainstReference(b)
}

func HDecodeNested() {
	d := vp.Param("depth")
	var body []byte
	for i := 0; i < d; i++ {
		body = append(body, 0x01, byte(vp.Choose("ln", 3)))
	}
	n := vp.Choose("n", vp.Param("max")+1)
	body = append(body, vp.Bytes("b", n)...)
	b := append([]byte{0, 0, 0, byte(10 + len(body)), 0, 1, 1, 3, 0, 0, 0, 0, 0, 7}, body...)
	decodeAgainstReference(b)
}

// HDecodeLength: a declared item length against the bytes that are there, with all length-byte counts.
func HDecodeLength() {
	nl := 1 + vp.Choose("length-bytes", 3)
	k := vp.Choose("kind", 14)
	have := vp.Choose("have", vp.Param("have")+1)
	if big := vp.Choose("big", 2); big == 1 {
		have += 256
	}
	body := []byte{kindCode[k]<<2 | byte(nl)}
	lb := vp.Bytes("len", nl)
	// declared lengths far below what is there are HDecodeBody's; here: about right, and anything above
	declared := 0
	for _, x := range lb {
		declared = declared<<8 | int(x)
	}
	fits := have
	if k == kL {
		fits = have / 2
	}
	vp.Assume(declared >= fits-2)
	body = append(body, lb...)
	for i := 0; i < have; i++ {
		switch {
		case k == kL && i%2 == 0:
			body = append(body, 0x01) // empty lists
		case k == kL:
			body = append(body, 0)
		default:
			body = append(body, byte(i&0x3f))
		}
	}
	n := 10 + len(body)
	b := append([]byte{0, 0, byte(n >> 8), byte(n), 0, 1, 1, 3, 0, 0, 0, 0, 0, 7}, body...)
	decodeAgainstReference(b)
}

func decodeAgainstReference(b []byte) {
	keep := append([]byte{}, b...)
	m, ok := hsms.Parse(b)
	vp.Observe("ok", ok)
	vp.Assert(eqBytes(b, keep), "input-not-modified")
	b = keep
	n := len(b)
	if n < 14 || int(b[0])<<24|int(b[1])<<16|int(b[2])<<8|int(b[3]) != n-4 {
		vp.Cover("bad-length")
		vp.Assert(!ok, "refuses-wrong-message-length")
		return
	}
	if b[8] != 0 {
		vp.Assert(!ok, "refuses-unknown-ptype")
		return
	}
	st := b[9]
	if st == 0 {
		it := Item{K: kNone}
		good := true
		if n > 14 {
			var used int
			it, used, good = refDecode(b[14:])
			good = good && used == n-14
		}
		if !good {
			vp.Cover("bad-body")
			vp.Assert(!ok, "refuses-malformed-body")
			return
		}
		wait := b[6]&0x80 != 0
		if !libCanHold(it) || wait && b[7]&1 == 0 {
			vp.Cover("not-representable")
			vp.Assert(!ok, "refuses-what-it-cannot-represent")
			return
		}
		vp.Cover("good-data")
		vp.Assert(ok, "accepts-well-formed-message")
		if !ok {
			return
		}
		d, isD := m.(*ast.DataMessage)
		vp.Assert(isD, "data-message")
		if !isD {
			return
		}
		vp.Assert(d.StreamCode() == int(b[6]&0x7f) && d.FunctionCode() == int(b[7]), "stream-function")
		vp.Assert((d.WaitBit() == "true") == wait, "wait-bit")
		vp.Assert(d.SessionID() == int(b[4])<<8|int(b[5]), "session")
		vp.Assert(eqBytes(d.SystemBytes(), b[10:14]), "system-bytes")
		root, err := d.Get()
		vp.Assert(err == nil && same(root, it), "item-as-encoded")
		return
	}
	if st >= 1 && st <= 7 || st == 9 {
		if n != 14 {
			vp.Cover("long-control")
			vp.Assert(!ok, "refuses-control-message-with-text")
			return
		}
		vp.Cover("good-control")
		vp.Assert(ok, "accepts-control-message")
		if ok {
			_, isC := m.(*ast.ControlMessage)
			vp.Assert(isC && eqBytes(m.ToBytes(), b), "control-as-encoded")
		}
		return
	}
	vp.Assert(!ok, "refuses-unknown-stype")
}

// goVal turns the low bits of v into a value of the chosen Go integer type; the mathematical value is
// neg ? int64(bits) : bits.
func goVal(which int, v uint64) (x interface{}, bits uint64, signed bool) {
	switch which {
	case 0:
		return int(v), v, true
	case 1:
		return int8(v), uint64(int64(int8(v))), true
	case 2:
		return int16(v), uint64(int64(int16(v))), true
	case 3:
		return int32(v), uint64(int64(int32(v))), true
	case 4:
		return int64(v), v, true
	case 5:
		return uint(v), v, false
	case 6:
		return uint8(v), v & 0xff, false
	case 7:
		return uint16(v), v & 0xffff, false
	case 8:
		return uint32(v), v & 0xffffffff, false
	}
	return v, v, false
}

// HIntConstructors: I* and U* items from every Go integer type.
func HIntConstructors() {
	k := kI1 + vp.Choose("kind", 8)
	size := kindSize[k]
	n := vp.Choose("n", vp.Param("n")) + 1
	args := make([]interface{}, n)
	bits := make([]uint64, n)
	fits := true
	for i := range args {
		var signed bool
		args[i], bits[i], signed = goVal(vp.Choose("type", 10), vp.U64("v"))
		neg := vp.And(signed, bits[i]>>63 == 1)
		if k <= kI8 {
			min := int64(-1) << (uint(size)*8 - 1)
			max := ^min
			fits = vp.And(fits, vp.Or(vp.And(neg, int64(bits[i]) >= min), vp.And(!neg, bits[i] <= uint64(max))))
		} else {
			max := ^uint64(0) >> (64 - uint(size)*8)
			fits = vp.And(fits, vp.And(!neg, bits[i] <= max))
		}
	}
	var nd ast.ItemNode
	p := panics(func() {
		if k <= kI8 {
			nd = ast.NewIntNode(size, args...)
		} else {
			nd = ast.NewUintNode(size, args...)
		}
	})
	vp.Observe("panicked", p)
	if p {
		vp.Cover("refused")
		vp.Assert(!fits, "accepts-representable-values")
		return
	}
	vp.Cover("accepted")
	vp.Assert(fits, "refuses-unrepresentable-values")
	vp.Assert(same(nd, Item{K: k, V: bits}), "reads-back-exactly")
}

// HBinaryConstructors: binary items from integers and "0b" strings.
func HBinaryConstructors() {
	var arg interface{}
	var fits bool
	var want uint64
	switch vp.Choose("type", 4) {
	case 0:
		v := int(vp.I64("v"))
		arg, fits, want = v, vp.And(v >= 0, v < 256), uint64(v)
	case 1:
		v := vp.Byte("v")
		arg, fits, want = v, true, uint64(v)
	case 2:
		v := int8(vp.Byte("v"))
		arg, fits, want = v, v >= 0, uint64(v)
	case 3:
		s := vp.String("s", vp.Choose("len", vp.Param("len")+1))
		arg = "0b" + s
		fits = len(s) > 0
		for i := 0; i < len(s); i++ {
			fits = vp.And(fits, vp.Or(s[i] == '0', s[i] == '1'))
			want = want<<1 | uint64(s[i]&1)
		}
		for i := 0; i < len(s); i++ { // digit separators are Go syntax, not the documented format
			vp.Assume(s[i] != '_')
		}
		fits = vp.And(fits, want < 256)
	}
	var nd ast.ItemNode
	p := panics(func() { nd = ast.NewBinaryNode(arg) })
	vp.Observe("panicked", p)
	if p {
		vp.Cover("refused")
		vp.Assert(!fits, "accepts-representable-values")
		return
	}
	vp.Cover("accepted")
	vp.Assert(fits, "refuses-unrepresentable-values")
	vp.Assert(same(nd, Item{K: kB, V: []uint64{want}}), "reads-back-exactly")
}

// HTextConstructors: ASCII items from any string, boolean items.
func HTextConstructors() {
	if vp.Choose("kind", 2) == 0 {
		s := vp.String("s", vp.Choose("len", vp.Param("len")+1))
		fits := true
		v := make([]uint64, len(s))
		for i := 0; i < len(s); i++ {
			fits = vp.And(fits, s[i] < 128)
			v[i] = uint64(s[i])
		}
		var nd ast.ItemNode
		p := panics(func() { nd = ast.NewASCIINode(s) })
		vp.Observe("panicked", p)
		if p {
			vp.Cover("refused")
			vp.Assert(!fits, "accepts-representable-values")
			return
		}
		vp.Cover("accepted")
		vp.Assert(fits, "refuses-unrepresentable-values")
		vp.Assert(same(nd, Item{K: kA, V: v}), "reads-back-exactly")
		return
	}
	n := vp.Choose("n", 4)
	args := make([]interface{}, n)
	v := make([]uint64, n)
	for i := range args {
		x := vp.Bool("b")
		args[i] = x
		if x {
			v[i] = 1
		}
	}
	vp.Assert(same(ast.NewBooleanNode(args...), Item{K: kBool, V: v}), "reads-back-exactly")
}

// HFloatConstructors: F4 and F8 items from floats and integers.
func HFloatConstructors() {
	k := kF4 + vp.Choose("kind", 2)
	var arg interface{}
	var x float64
	exact := true
	switch vp.Choose("type", 4) {
	case 0:
		x = vp.Float64("f8")
		arg = x
	case 1:
		y := vp.Float32("f4")
		x = float64(y)
		arg = y
	case 2:
		v := vp.I32("i")
		x = float64(v)
		arg = v
	case 3:
		v := vp.U16("u")
		x = float64(v)
		arg = v
	}
	fits := isFinite(math.Float64bits(x), kF8)
	if k == kF4 {
		fits = vp.And(fits, math.Abs(x) <= math.MaxFloat32)
	}
	var nd ast.ItemNode
	p := panics(func() { nd = ast.NewFloatNode(kindSize[k], arg) })
	vp.Observe("panicked", p)
	if p {
		vp.Cover("refused")
		vp.Assert(!fits, "accepts-representable-values")
		return
	}
	vp.Cover("accepted")
	vp.Assert(fits, "refuses-unrepresentable-values")
	v, ok := nd.Values().([]float64)
	vp.Assert(ok && len(v) == 1 && nd.Size() == 1 && nd.Type() == kindName[k], "float-node-shape")
	if ok && len(v) == 1 && exact {
		if k == kF8 {
			vp.Assert(math.Float64bits(v[0]) == math.Float64bits(x), "reads-back-exactly")
		} else { // precision may be dropped to what the format holds
			vp.Assert(float32(v[0]) == float32(x), "reads-back-exactly")
		}
	}
}

// HOtherConstructors: arguments of Go types that a constructor is not made for are refused or represented exactly.
func HOtherConstructors() {
	k := []int{kB, kBool, kI1, kI2, kI4, kI8, kU1, kU2, kU4, kU8, kF4, kF8}[vp.Choose("kind", 12)]
	var arg interface{}
	var bits uint64 // the value as a 64-bit integer
	var signed, integer bool
	var x float64
	switch t := vp.Choose("type", 13); {
	case t < 10:
		arg, bits, signed = goVal(t, vp.U64("v"))
		integer = true
	case t == 10:
		x = vp.Float64("f8")
		arg = x
	case t == 11:
		y := vp.Float32("f4")
		x = float64(y)
		arg = y
	default:
		v := vp.Bool("b")
		if v {
			bits, x = 1, 1
		}
		arg, integer = v, true
	}
	var nd ast.ItemNode
	p := panics(func() {
		switch {
		case k == kB:
			nd = ast.NewBinaryNode(arg)
		case k == kBool:
			nd = ast.NewBooleanNode(arg)
		case k <= kI8:
			nd = ast.NewIntNode(kindSize[k], arg)
		case k <= kU8:
			nd = ast.NewUintNode(kindSize[k], arg)
		default:
			nd = ast.NewFloatNode(kindSize[k], arg)
		}
	})
	vp.Observe("panicked", p)
	if p {
		vp.Cover("refused")
		return
	}
	vp.Cover("accepted")
	neg := vp.And(signed, bits>>63 == 1)
	switch v := nd.Values().(type) {
	case []int:
		vp.Assert(len(v) == 1 && v[0] >= 0 && v[0] < 256, "a-byte")
		if integer {
			vp.Assert(vp.And(!neg, uint64(v[0]) == bits), "represented-exactly")
		} else {
			vp.Assert(float64(v[0]) == x, "represented-exactly")
		}
	case []bool:
		if integer {
			vp.Assert(len(v) == 1 && v[0] == (bits != 0), "represented-exactly")
		} else {
			vp.Assert(len(v) == 1 && v[0] == (x != 0), "represented-exactly")
		}
	case []int64:
		if integer {
			vp.Assert(len(v) == 1 && (neg == (v[0] < 0)) && uint64(v[0]) == bits, "represented-exactly")
		} else {
			vp.Assert(len(v) == 1 && float64(v[0]) == x, "represented-exactly")
		}
	case []uint64:
		if integer {
			vp.Assert(len(v) == 1 && !neg && v[0] == bits, "represented-exactly")
		} else {
			vp.Assert(len(v) == 1 && float64(v[0]) == x, "represented-exactly")
		}
	case []float64: // precision may be dropped to what the format holds
		if integer && signed {
			x = float64(int64(bits))
		} else if integer {
			x = float64(bits)
		}
		if k == kF8 {
			vp.Assert(len(v) == 1 && v[0] == x, "represented-exactly")
		} else {
			vp.Assert(len(v) == 1 && float32(v[0]) == float32(x), "represented-exactly")
		}
	default:
		vp.Assert(false, "a-known-item")
	}
}
