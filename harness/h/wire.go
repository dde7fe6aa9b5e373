package h

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// SType of the control messages.
const (
	sData = iota
	sSelectReq
	sSelectRsp
	sDeselectReq
	sDeselectRsp
	sLinktestReq
	sLinktestRsp
	sReject
	_
	sSeparate
)

// frame is one HSMS message on the wire: the 10 header bytes and the body.
type frame struct {
	h    []byte
	body []byte
}

func (f frame) session() int { return int(f.h[0])<<8 | int(f.h[1]) }
func (f frame) stype() byte  { return f.h[5] }
func (f frame) sys() []byte  { return f.h[6:10] }

func (f frame) bytes() []byte {
	n := len(f.h) + len(f.body)
	b := []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	return append(append(b, f.h...), f.body...)
}

func control(session int, b2, b3, stype byte, sys []byte) frame {
	return frame{h: append([]byte{byte(session >> 8), byte(session), b2, b3, 0, stype}, sys...)}
}

func data(session, stream, function int, wait bool, sys []byte, body []byte) frame {
	s := byte(stream)
	if wait {
		s |= 0x80
	}
	return frame{h: append([]byte{byte(session >> 8), byte(session), s, byte(function), 0, 0}, sys...), body: body}
}

// freePort is a port nobody listens on.
func freePort() int {
	if vp.Symbolic() {
		return 5000
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return 5000
	}
	defer l.Close()
	return l.Addr().(*net.TCPAddr).Port
}

// quiet is how long to wait for messages that should not come.
func quiet() time.Duration {
	if vp.Symbolic() {
		return 400 * time.Millisecond
	}
	return 60 * time.Millisecond
}

// Peer is the other end of an endpoint's connection.
type Peer struct {
	c         net.Conn
	mu        sync.Mutex
	in        []frame
	closed    bool
	more      chan struct{}
	linktests int // linktest requests received
	mute      bool
	bad       bool // received bytes that are no message
	n         uint32
	auto      bool    // answer S1F13 and S1F1
	are       int     // answer to S1F1: 0 S1F2, 1 S1F0, 2 none
	asked     int     // S1F1 received
	own       []frame // primaries of the endpoint, set aside
}

func newPeer(c net.Conn) *Peer {
	p := &Peer{c: c, more: make(chan struct{}, 1000)}
	go p.read()
	return p
}

func (p *Peer) read() {
	for {
		head := make([]byte, 4)
		if _, err := io.ReadFull(p.c, head); err != nil {
			break
		}
		n := int(binary.BigEndian.Uint32(head))
		if n < 10 || n > 1<<20 {
			p.mu.Lock()
			p.bad = true
			p.mu.Unlock()
			break
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(p.c, b); err != nil {
			break
		}
		f := frame{h: b[:10], body: b[10:]}
		if f.stype() == sLinktestReq {
			p.mu.Lock()
			p.linktests++
			mute := p.mute
			p.mu.Unlock()
			if !mute {
				p.send(control(0xffff, 0, 0, sLinktestRsp, f.sys()))
			}
			continue
		}
		p.mu.Lock()
		auto := p.auto && f.stype() == sData && f.h[2]&0x7f == 1 && (f.h[3] == 1 || f.h[3] == 13)
		if !auto {
			p.in = append(p.in, f)
		}
		p.mu.Unlock()
		if auto {
			body := Item{K: kL}
			if f.h[3] == 13 {
				body = bodyS1F14
			} else {
				p.asked++
				if p.are == 1 {
					p.send(data(f.session(), 1, 0, false, f.sys(), nil))
				}
				if p.are != 0 {
					continue
				}
			}
			p.send(data(f.session(), 1, int(f.h[3])+1, false, f.sys(), refEncode(body)))
			continue
		}
		p.more <- struct{}{}
	}
	p.mu.Lock()
	p.closed = true
	p.mu.Unlock()
	p.more <- struct{}{}
}

func (p *Peer) send(f frame) {
	p.c.Write(f.bytes())
}

// recv waits for the next message that is no linktest.req.
func (p *Peer) recv(d time.Duration) (frame, bool) {
	deadline := time.After(d)
	for {
		p.mu.Lock()
		if len(p.in) > 0 {
			f := p.in[0]
			p.in = p.in[1:]
			p.mu.Unlock()
			return f, true
		}
		closed := p.closed
		p.mu.Unlock()
		if closed {
			return frame{}, false
		}
		select {
		case <-p.more:
		case <-deadline:
			return frame{}, false
		}
	}
}

func (p *Peer) isClosed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closed
}

// sync sends a linktest.req and returns everything received until its answer and a quiet while after it.
func (p *Peer) sync() (got []frame, alive bool) {
	p.n++
	sys := []byte{0xEE, 0xEE, byte(p.n >> 8), byte(p.n)}
	p.send(control(0xffff, 0, 0, sLinktestReq, sys))
	d := 2 * time.Second
	for {
		f, ok := p.recv(d)
		if !ok {
			return
		}
		if f.stype() == sLinktestRsp && f.h[6] == 0xEE && f.h[7] == 0xEE && f.h[8] == byte(p.n>>8) && f.h[9] == byte(p.n) {
			vp.Assert(!alive, "one-linktest-response")
			alive = true
			d = quiet()
			continue
		}
		got = append(got, f)
	}
}

// awaitClosed waits for the endpoint to close the connection.
func (p *Peer) awaitClosed(d time.Duration) bool {
	for {
		if p.isClosed() {
			return true
		}
		if _, ok := p.recv(d); !ok {
			return p.isClosed()
		}
	}
}

// dial connects to a passive endpoint, which may still be about to listen.
func dial(port int) *Peer {
	for i := 0; i < 200; i++ {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), time.Second)
		if err == nil {
			return newPeer(c)
		}
		time.Sleep(20 * time.Millisecond)
	}
	return nil
}

// await waits for a condition to become true.
func await(d time.Duration, f func() bool) bool {
	step := 10 * time.Millisecond
	if vp.Symbolic() {
		step = 100 * time.Millisecond
	}
	for t := time.Duration(0); t < d; t += step {
		if f() {
			return true
		}
		time.Sleep(step)
	}
	return f()
}

// passive makes an enabled passive endpoint and the peer connected to it.
func passive(session int, conf func(*hsms.HsmsProtocol)) (*hsms.HsmsProtocol, *Peer, int) {
	port := freePort()
	e := hsms.NewHsmsProtocol("127.0.0.1", port, false, session, "e")
	e.Timeouts().SetLinktest(30)
	e.Timeouts().SetT6ControlTransTimeout(2)
	e.Timeouts().SetT3ReplyTimeout(1)
	if conf != nil {
		conf(e)
	}
	e.Enable()
	p := dial(port)
	vp.Assert(p != nil, "endpoint-listens")
	if p == nil {
		vp.End()
	}
	return e, p, port
}

// selectBy selects the session from the peer.
func (p *Peer) selectBy(e *hsms.HsmsProtocol, session int) {
	p.send(control(session, 0, 0, sSelectReq, []byte{0xEE, 0, 0, 1}))
	f, ok := p.recv(2 * time.Second)
	vp.Assert(ok && f.stype() == sSelectRsp && f.h[3] == 0, "selected")
	if !ok {
		vp.End()
	}
	await(time.Second, func() bool { return e.CurrentState() == hsms.StateConnectedSelected })
}

// active makes an enabled active endpoint and the peer it connected to; the select.req is yet to be answered.
func active(session int, conf func(*hsms.HsmsProtocol)) (*hsms.HsmsProtocol, *Peer, net.Listener) {
	port := freePort()
	l, err := net.Listen("tcp", fmt.Sprintf("127.0.0.1:%d", port))
	if err != nil {
		vp.End()
	}
	e := hsms.NewHsmsProtocol("127.0.0.1", port, true, session, "h")
	e.Timeouts().SetLinktest(30)
	e.Timeouts().SetT6ControlTransTimeout(2)
	e.Timeouts().SetT3ReplyTimeout(1)
	e.Timeouts().SetT5ConnSeparateTimeout(1)
	e.Timeouts().SetReconnectBackoffBase(1)
	e.Timeouts().SetReconnectBackoffMax(1)
	if conf != nil {
		conf(e)
	}
	e.Enable()
	return e, acceptPeer(l), l
}

// acceptPeer takes the endpoint's next connection.
func acceptPeer(l net.Listener) *Peer {
	ch := make(chan net.Conn, 1)
	go func() {
		c, err := l.Accept()
		if err == nil {
			ch <- c
		}
	}()
	select {
	case c := <-ch:
		return newPeer(c)
	case <-time.After(5 * time.Second):
		return nil
	}
}

// stop ends an endpoint and the peer's connection.
func stop(e *hsms.HsmsProtocol, p *Peer) {
	p.c.Close()
	e.Disable()
}

// record is what a handler was given.
type record struct {
	mu sync.Mutex
	ms []*ast.DataMessage
}

func (r *record) add(m *ast.DataMessage) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.ms = append(r.ms, m)
}

func (r *record) take() []*ast.DataMessage {
	r.mu.Lock()
	defer r.mu.Unlock()
	ms := r.ms
	r.ms = nil
	return ms
}

// replier registers a handler that records its message and answers function+1 with the given item.
func (r *record) replier(e *hsms.HsmsProtocol, stream, function int, item ast.ItemNode) {
	e.RegisterHandler(stream, function, func(m *ast.DataMessage) (*ast.DataMessage, error) {
		r.add(m)
		return ast.NewDataMessage("", stream, function+1, 0, "H<-E", item), nil
	})
}

func secs(n int) time.Duration { return time.Duration(n) * time.Second }
