package h

import (
	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/hsms"
)

type header struct {
	session, stream, function int
	wait                      bool
	sys                       []byte
}

func genHeader() header {
	var h header
	h.session = int(vp.U16("session"))
	h.stream = int(vp.Byte("stream") & 0x7f)
	h.function = int(vp.Byte("function"))
	h.wait = vp.Bool("wait")
	vp.Assume(vp.Or(!h.wait, h.function&1 == 1))
	h.sys = vp.Bytes("sys", 4)
	return h
}

func (h header) message(n ast.ItemNode) *ast.DataMessage {
	w := 0
	if h.wait {
		w = 1
	}
	return ast.NewHSMSDataMessage("", h.stream, h.function, w, "H<->E", n, h.session, h.sys)
}

func checkRoundTrip(h header, it Item) {
	n := node(it)
	m := h.message(n)
	b := m.ToBytes()
	vp.Observe("bytes", b)
	vp.Assert(eqBytes(b, refMessage(h.session, h.stream, h.function, h.wait, h.sys, it)), "encoding-as-E5-E37")
	d, ok := hsms.Parse(b)
	vp.Assert(ok, "decodes")
	if !ok {
		return
	}
	dm, isData := d.(*ast.DataMessage)
	vp.Assert(isData, "decodes-to-data-message")
	if !isData {
		return
	}
	wb := "false"
	if h.wait {
		wb = "true"
	}
	vp.Assert(dm.StreamCode() == h.stream, "stream")
	vp.Assert(dm.FunctionCode() == h.function, "function")
	vp.Assert(dm.WaitBit() == wb, "wait-bit")
	vp.Assert(dm.SessionID() == h.session, "session-id")
	vp.Assert(eqBytes(dm.SystemBytes(), h.sys), "system-bytes")
	root, err := dm.Get()
	vp.Assert(err == nil, "root-item")
	if err == nil {
		vp.Assert(same(root, it), "same-item")
	}
	vp.Assert(eqBytes(dm.ToBytes(), b), "re-encoding")
	vp.Cover("round-trip")
}

// HRoundTripItem: every item kind and shape up to the bound, every header.
func HRoundTripItem() {
	h := genHeader()
	checkRoundTrip(h, genItem("it", vp.Param("depth"), vp.Param("n")))
}

// HRoundTripHeaderOnly: a message without item.
func HRoundTripHeaderOnly() {
	checkRoundTrip(genHeader(), Item{K: kNone})
}

// HRoundTripLong: items around the length-byte boundaries; the first, the last and one middle element are
// symbolic, the others fixed.
func HRoundTripLong() {
	h := header{session: 1, stream: 1, function: 1, sys: []byte{0, 0, 0, 1}}
	k := vp.Choose("kind", 14)
	ns := []int{vp.Param("n0"), vp.Param("n1"), vp.Param("n2")}
	length := ns[vp.Choose("length", len(ns))]
	it := Item{K: k}
	if k == kL {
		for i := 0; i < length; i++ {
			c := Item{K: kU1, V: []uint64{uint64(i & 0xff)}}
			if i == 0 || i == length/2 || i == length-1 {
				c.V = vals("v", kU1, 1)
			}
			it.L = append(it.L, c)
		}
	} else {
		n := length / kindSize[k]
		for i := 0; i < n; i++ {
			if i == 0 || i == n/2 || i == n-1 {
				it.V = append(it.V, vals("v", k, 1)...)
			} else if k == kBool {
				it.V = append(it.V, uint64(i&1))
			} else {
				it.V = append(it.V, uint64(i&0x7f))
			}
		}
	}
	checkRoundTrip(h, it)
}
