package h

import (
	"encoding/binary"
	"errors"
	"io"
	"runtime"
	"sync"

	"verif/harness/vp"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/codec"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

var errBroken = errors.New("broken")

// pipe is a transport: it hands out data in pieces of whatever size is chosen and records what is written.
type pipe struct {
	data   []byte
	end    error // what comes after the data
	short  int   // reads that may still return less than fits (-1: every read returns one byte)
	joined bool  // the end is reported with the last data
	out    []byte
	writes int
	fail   int // the write that fails, -1 none
	yield  bool
	closes int
}

func (p *pipe) Read(b []byte) (int, error) {
	if len(p.data) == 0 {
		return 0, p.end
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := len(b)
	if n > len(p.data) {
		n = len(p.data)
	}
	if p.short < 0 {
		n = 1
	} else if p.short > 0 && n > 1 {
		if k := vp.Choose("short", n); k > 0 {
			n, p.short = k, p.short-1
		}
	}
	copy(b, p.data[:n])
	p.data = p.data[n:]
	if p.joined && len(p.data) == 0 {
		return n, p.end
	}
	return n, nil
}

func (p *pipe) Write(b []byte) (int, error) {
	p.writes++
	if p.fail == p.writes-1 {
		return 0, errBroken
	}
	if p.yield { // another goroutine may run in the middle of a write
		h := len(b) / 2
		p.out = append(p.out, b[:h]...)
		runtime.Gosched()
		p.out = append(p.out, b[h:]...)
		return len(b), nil
	}
	p.out = append(p.out, b...)
	return len(b), nil
}

func (p *pipe) Close() error { p.closes++; return nil }

// stack makes the framing codec, bare or below the buffering codec.
func stack(rw io.ReadWriter) link.Codec {
	var proto link.Protocol = codec.SECSII()
	switch vp.Choose("stack", 3) {
	case 1:
		proto = codec.Bufio(proto, 16, 16)
	case 2:
		proto = codec.Bufio(proto, 64, 0)
	}
	c, err := proto.NewCodec(rw)
	vp.Assert(err == nil, "codec-created")
	return c
}

// genFrame makes a frame: a control message or a data message without or with an item.
func genFrame(max int) []byte {
	sys := vp.Bytes("sys", 4)
	session := int(vp.U16("session"))
	k := vp.Choose("frame", max+3)
	if k == 0 {
		return refControl(session, 0, 0, byte(1+2*vp.Choose("stype", 3)), sys)
	}
	stream, function := int(vp.Byte("stream")&0x7f), int(vp.Byte("function"))
	wait := function%2 == 1 && vp.Bool("wait")
	if k == 1 {
		b := []byte{0, 0, 0, 10, byte(session >> 8), byte(session), byte(stream), byte(function), 0, 0, sys[0], sys[1], sys[2], sys[3]}
		if wait {
			b[6] |= 0x80
		}
		return b
	}
	it := Item{K: kB, V: vals("v", kB, k-2)}
	return refMessage(session, stream, function, wait, sys, it)
}

// HFrames: frames arrive in pieces of any size, and the stream may end anywhere.
func HFrames() {
	var frames [][]byte
	p := &pipe{end: io.EOF, fail: -1, short: vp.Param("short")}
	switch vp.Choose("end", 3) {
	case 1:
		p.end = errBroken
	case 2:
		p.joined = true
	}
	for i := 0; i < vp.Param("frames"); i++ {
		f := genFrame(vp.Param("max"))
		frames = append(frames, f)
		p.data = append(p.data, f...)
	}
	total := len(p.data)
	cut := total
	if vp.Param("cut") == 1 {
		cut = vp.Choose("cut", total)
	}
	p.data = p.data[:cut:cut]
	c := stack(p)
	at := 0
	var got []ast.HSMSMessage
	defer func() { // what was delivered stays as it was, whatever is received afterwards
		for i, m := range got {
			vp.Assert(eqBytes(m.ToBytes(), frames[i]), "delivered-message-is-stable")
		}
	}()
	for _, f := range frames {
		m, err := c.Receive()
		at += len(f)
		if at > cut {
			vp.Cover("cut")
			vp.Assert(err != nil && m == nil, "partial-frame-is-an-error")
			return
		}
		vp.Cover("delivered")
		vp.Assert(err == nil, "whole-frame-is-delivered")
		if err != nil {
			return
		}
		msg, ok := m.(ast.HSMSMessage)
		vp.Assert(ok, "a-message")
		if !ok {
			return
		}
		vp.Assert(eqBytes(msg.ToBytes(), f), "frame-content")
		got = append(got, msg)
	}
	m, err := c.Receive()
	vp.Assert(err != nil && m == nil, "end-is-an-error")
}

// HFramesLong: two frames around the size of the read buffers, read in whole, or cut once at any place.
func HFramesLong() {
	sizes := []int{250, 255, 256, 300, 4096, 5000}
	n := sizes[vp.Choose("size", vp.Param("sizes"))]
	first := genLong(n, 1)
	second := genLong(3, 2)
	p := &pipe{end: io.EOF, fail: -1, short: 1, data: append(append([]byte{}, first...), second...)}
	c := stack(p)
	for _, f := range [][]byte{first, second} {
		m, err := c.Receive()
		vp.Cover("delivered")
		vp.Assert(err == nil, "whole-frame-is-delivered")
		if err != nil {
			return
		}
		vp.Assert(eqBytes(m.(ast.HSMSMessage).ToBytes(), f), "frame-content")
	}
}

func genLong(n, stream int) []byte {
	it := Item{K: kB, V: make([]uint64, n)}
	it.V[n-1] = vals("v", kB, 1)[0]
	it.V[0] = vals("v", kB, 1)[0]
	return refMessage(1, stream, 1, true, vp.Bytes("sys", 4), it)
}

// HFrameSend: sending writes the given bytes, once; a transport error is returned.
func HFrameSend() {
	p := &pipe{end: io.EOF, fail: -1}
	fail := vp.Choose("fail", 2) == 1
	if fail {
		p.fail = vp.Choose("at", 2)
	}
	c := stack(p)
	var want []byte
	for i := 0; i < 2; i++ {
		b := vp.Bytes("bytes", vp.Choose("len", vp.Param("len")+1))
		keep := append([]byte{}, b...)
		err := c.Send(b)
		if p.fail >= 0 && p.writes > p.fail {
			vp.Cover("failed")
			vp.Assert(err != nil, "transport-error-returned")
			return
		}
		vp.Cover("sent")
		vp.Assert(err == nil, "sent")
		want = append(want, keep...)
		vp.Assert(eqBytes(p.out, want), "bytes-written")
		vp.Assert(eqBytes(b, keep), "argument-unchanged")
	}
	if vp.Choose("other", 2) == 1 {
		vp.Assert(c.Send("text") != nil, "other-types-refused")
		vp.Assert(eqBytes(p.out, want), "nothing-written")
	}
}

// HFrameSenders: frames sent concurrently over one session come out whole, each once.
func HFrameSenders() {
	p := &pipe{end: io.EOF, fail: -1, yield: true}
	c, err := codec.SECSII().NewCodec(p)
	if err != nil {
		return
	}
	s := link.NewSession(c, vp.Param("queue"))
	n, per := vp.Param("senders"), vp.Param("per")
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				b := byte(g*16 + i)
				vp.Assert(s.Send([]byte{b, b, b, b}) == nil, "sent")
			}
		}()
	}
	wg.Wait()
	for vp.Param("queue") > 0 && len(p.out) < 4*n*per {
		runtime.Gosched()
	}
	vp.Cover("done")
	vp.Assert(len(p.out) == 4*n*per, "each-frame-once")
	seen := map[byte]bool{}
	last := map[byte]byte{}
	for i := 0; i+4 <= len(p.out); i += 4 {
		b := p.out[i]
		vp.Assert(b == p.out[i+1] && b == p.out[i+2] && b == p.out[i+3], "frames-not-mixed")
		vp.Assert(!seen[b], "each-frame-once")
		seen[b] = true
		l, ok := last[b/16]
		vp.Assert(!ok || l < b, "in-order")
		last[b/16] = b
	}
}

// fixlen makes a length-prefixed codec of some width, byte order and limits.
func fixlen(rw io.ReadWriter, maxLimit int) (c link.Codec, width, recv, send int, order binary.ByteOrder) {
	width = []int{1, 2, 4, 8}[vp.Choose("width", 4)]
	order = binary.BigEndian
	if vp.Choose("order", 2) == 1 {
		order = binary.LittleEndian
	}
	recv, send = vp.Choose("recv", maxLimit+1), vp.Choose("send", maxLimit+1)
	c, err := codec.FixLen(codec.Byte(), width, order, recv, send).NewCodec(rw)
	vp.Assert(err == nil, "codec-created")
	return
}

func fixHead(width, n int, order binary.ByteOrder) []byte {
	b := make([]byte, width)
	for i := range b {
		v := byte(uint64(n) >> uint(8*i))
		if order == binary.BigEndian {
			b[width-1-i] = v
		} else {
			b[i] = v
		}
	}
	return b
}

// HFixSend: messages within the send limit go out whole behind their length, longer ones not at all.
func HFixSend() {
	p := &pipe{end: io.EOF, fail: -1}
	c, width, _, send, order := fixlen(p, vp.Param("limit"))
	var want []byte
	for i := 0; i < vp.Param("n"); i++ {
		b := vp.Bytes("bytes", vp.Choose("len", vp.Param("limit")+2))
		err := c.Send(b)
		if len(b) > send {
			vp.Cover("too-long")
			vp.Assert(err != nil, "too-long-is-refused")
		} else {
			vp.Cover("sent")
			vp.Assert(err == nil, "sent")
			want = append(append(want, fixHead(width, len(b), order)...), b...)
		}
		vp.Assert(eqBytes(p.out, want), "bytes-written")
	}
}

// HFixSendWide: the limit of the head's own width holds whatever limit is configured.
func HFixSendWide() {
	p := &pipe{end: io.EOF, fail: -1}
	width := 1 + vp.Choose("width", vp.Param("widths"))
	top := 1<<(8*width) - 1
	limit := top + vp.Choose("limit", 3) - 1
	c, err := codec.FixLen(codec.Byte(), width, binary.BigEndian, limit, limit).NewCodec(p)
	vp.Assert(err == nil, "codec-created")
	n := top - 2 + vp.Choose("len", 5)
	b := make([]byte, n)
	b[n-1] = vp.Byte("last")
	err = c.Send(b)
	if n > limit || n > top {
		vp.Cover("too-long")
		vp.Assert(err != nil, "too-long-is-refused")
		vp.Assert(len(p.out) == 0, "nothing-written")
		return
	}
	vp.Cover("sent")
	vp.Assert(err == nil, "sent")
	vp.Assert(eqBytes(p.out, append(fixHead(width, n, binary.BigEndian), b...)), "bytes-written")
}

// HFixReceive: what follows the head is delivered whatever the pieces, unless it is announced as too long.
func HFixReceive() {
	p := &pipe{end: io.EOF, fail: -1, short: vp.Param("short")}
	c, width, recv, _, order := fixlen(p, vp.Param("limit"))
	var bodies [][]byte
	for i := 0; i < vp.Param("n"); i++ {
		b := vp.Bytes("bytes", vp.Choose("len", vp.Param("limit")+2))
		bodies = append(bodies, b)
		p.data = append(append(p.data, fixHead(width, len(b), order)...), b...)
	}
	cut := len(p.data)
	if vp.Param("cut") == 1 {
		cut = vp.Choose("cut", len(p.data))
		p.data = p.data[:cut:cut]
	}
	at := 0
	for _, b := range bodies {
		m, err := c.Receive()
		at += width + len(b)
		if len(b) > recv || at > cut {
			vp.Cover("refused")
			vp.Assert(err != nil, "refused")
			vp.Assert(noBytes(m), "nothing-delivered")
			return
		}
		if len(b) == 0 { // the byte codec reads an empty message as the end
			vp.Assert(noBytes(m), "empty")
			continue
		}
		vp.Cover("delivered")
		vp.Assert(err == nil, "delivered")
		g, ok := m.([]byte)
		vp.Assert(ok && eqBytes(g, b), "content")
	}
}

func noBytes(m interface{}) bool {
	b, ok := m.([]byte)
	return m == nil || ok && len(b) == 0
}

// HFixAnnounced: any announced length.
func HFixAnnounced() {
	p := &pipe{end: io.EOF, fail: -1}
	c, width, recv, _, order := fixlen(p, vp.Param("limit"))
	head := vp.Bytes("head", width)
	p.data = append(append(p.data, head...), 1, 2, 3, 4, 5, 6, 7, 8)
	var n uint64
	for i := 0; i < width; i++ {
		if order == binary.BigEndian {
			n = n<<8 | uint64(head[i])
		} else {
			n = n<<8 | uint64(head[width-1-i])
		}
	}
	m, err := c.Receive()
	if n > uint64(recv) {
		vp.Cover("too-long")
		vp.Assert(err != nil && noBytes(m), "too-long-is-refused")
		return
	}
	vp.Cover("within")
	if n == 0 {
		return
	}
	g, ok := m.([]byte)
	vp.Assert(err == nil && ok && uint64(len(g)) == n, "delivered")
	if ok {
		for i := range g {
			vp.Assert(g[i] == byte(i+1), "content")
		}
	}
}

// HFixLarge: messages longer than one read of the byte codec are delivered whole, and those after them too.
func HFixLarge() {
	p := &pipe{end: io.EOF, fail: -1}
	size := 4090 + vp.Choose("size", 6)
	if vp.Choose("far", 2) == 1 {
		size += vp.Param("far")
	}
	limit := size + vp.Choose("limit", 2) - 1 // within, or one byte beyond
	var proto link.Protocol = codec.FixLen(codec.Byte(), 4, binary.BigEndian, limit, size)
	if vp.Choose("bufio", 2) == 1 {
		proto = codec.Bufio(proto, 64, 64)
	}
	c, err := proto.NewCodec(p)
	vp.Assert(err == nil, "codec-created")
	if err != nil {
		return
	}
	b := make([]byte, size)
	for i := range b {
		b[i] = byte(i)
	}
	b[0], b[4089], b[size-1] = vp.Byte("first"), vp.Byte("mid"), vp.Byte("last")
	small := []byte{7, vp.Byte("small")}
	vp.Assert(c.Send(b) == nil && c.Send(small) == nil, "sent")
	want := append(append(fixHead(4, size, binary.BigEndian), b...), append(fixHead(4, 2, binary.BigEndian), small...)...)
	vp.Assert(eqBytes(p.out, want), "bytes-written")
	p.data = p.out
	m, err := c.Receive()
	if limit < size {
		vp.Cover("refused")
		vp.Assert(err != nil && noBytes(m), "refused")
		return
	}
	vp.Cover("delivered")
	g, ok := m.([]byte)
	vp.Assert(err == nil && ok && eqBytes(g, b), "content")
	m, err = c.Receive()
	g, ok = m.([]byte)
	vp.Assert(err == nil && ok && eqBytes(g, small), "content")
}
