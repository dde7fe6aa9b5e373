package h

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"verif/harness/vp"

	link "github.com/younglifestyle/secs4go"
)

// acceptError is an error of Accept.
type acceptError struct{ temporary bool }

func (e acceptError) Error() string   { return "accept" }
func (e acceptError) Timeout() bool   { return false }
func (e acceptError) Temporary() bool { return e.temporary }

// fakeListener hands out the connections and errors it is given.
type fakeListener struct {
	ch     chan interface{}
	done   chan struct{}
	mu     sync.Mutex
	closed bool
	calls  []time.Time
}

func newFakeListener() *fakeListener {
	return &fakeListener{ch: make(chan interface{}, 100), done: make(chan struct{})}
}

func (l *fakeListener) Accept() (net.Conn, error) {
	l.mu.Lock()
	l.calls = append(l.calls, time.Now())
	l.mu.Unlock()
	select {
	case x := <-l.ch:
		if c, ok := x.(*fakeConn); ok {
			return c, nil
		}
		return nil, x.(error)
	case <-l.done:
		return nil, errors.New("accept tcp 127.0.0.1:5000: use of closed network connection")
	}
}

func (l *fakeListener) Close() error {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.closed {
		l.closed = true
		close(l.done)
	}
	return nil
}

func (l *fakeListener) Addr() net.Addr { return nil }

// fakeConn counts closes; reading blocks until then.
type fakeConn struct {
	mu     sync.Mutex
	closes int
	done   chan struct{}
	bad    bool // no codec can be made for it
	slow   bool // its codec takes a while
}

func newFakeConn() *fakeConn { return &fakeConn{done: make(chan struct{})} }

func (c *fakeConn) Read(b []byte) (int, error)         { <-c.done; return 0, io.EOF }
func (c *fakeConn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *fakeConn) LocalAddr() net.Addr                { return nil }
func (c *fakeConn) RemoteAddr() net.Addr               { return nil }
func (c *fakeConn) SetDeadline(t time.Time) error      { return nil }
func (c *fakeConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *fakeConn) SetWriteDeadline(t time.Time) error { return nil }
func (c *fakeConn) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	if c.closes == 1 {
		close(c.done)
	}
	return nil
}

func (c *fakeConn) closed() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.closes
}

type connCodec struct{ c *fakeConn }

func (k *connCodec) Receive() (interface{}, error) {
	b := make([]byte, 1)
	_, err := k.c.Read(b)
	return nil, err
}
func (k *connCodec) Send(interface{}) error { return nil }
func (k *connCodec) Close() error           { return k.c.Close() }

// fakeProtocol makes a codec of a connection, or fails to.
var fakeProtocol = link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
	c := rw.(*fakeConn)
	if c.slow {
		time.Sleep(50 * time.Millisecond)
	}
	if c.bad {
		return nil, errors.New("no codec")
	}
	return &connCodec{c}, nil
})

// served is what a server's handler was given.
type served struct {
	mu   sync.Mutex
	all  []*link.Session
	back []*link.Session // those that were closed and noticed it
}

func (s *served) HandleSession(x *link.Session) {
	s.mu.Lock()
	s.all = append(s.all, x)
	s.mu.Unlock()
	x.Receive() // until it is closed
	s.mu.Lock()
	s.back = append(s.back, x)
	s.mu.Unlock()
}

// of returns the session of a connection and how often it was handled.
func (s *served) of(c *fakeConn) (x *link.Session, n int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, y := range s.all {
		if y.Codec().(*connCodec).c == c {
			x = y
			n++
		}
	}
	return
}

// HServer: connections arrive, fail and are closed, accepting fails, and the server is stopped, in any order.
func HServer() {
	l := newFakeListener()
	sv := &served{}
	server := link.NewServer(l, fakeProtocol, vp.Param("queue"), sv)
	ended := make(chan error, 1)
	go func() { ended <- server.Serve() }()
	var conns []*fakeConn
	open := map[*fakeConn]bool{}
	broken, stopped := false, false
	delay := 5 * time.Millisecond
	for i := 0; i < vp.Param("steps"); i++ {
		switch vp.Choose("op", 4) {
		case 0: // a connection, one without a codec, one with a slow codec (and another right after it)
			n := len(conns)
			c := newFakeConn()
			conns = append(conns, c)
			c.bad = vp.Bool("bad")
			if c.slow = vp.Bool("slow"); c.slow {
				conns = append(conns, newFakeConn())
			}
			if stopped || broken {
				conns = conns[:n]
				continue
			}
			for _, c := range conns[n:] {
				open[c] = !c.bad
				delay = 5 * time.Millisecond
				l.ch <- c
			}
			if c.slow {
				settle()
				_, k := sv.of(conns[n+1])
				vp.Assert(k == 1, "not-held-up-by-another-connection")
				settle()
			}
			vp.Cover("connected")
		case 1: // accepting fails, once or more often, for a while or for good
			for j := vp.Choose("errors", 3); j >= 0 && !stopped && !broken; j-- {
				x := acceptError{vp.Bool("temporary")}
				l.ch <- x
				settleFor(delay)
				delay *= 2
				settle()
				select {
				case err := <-ended:
					broken = true
					vp.Assert(!x.temporary, "temporary-error-does-not-end-serving")
					vp.Assert(err == error(x), "accept-error-returned")
					ended <- err
					vp.Cover("broken")
				default:
					vp.Assert(x.temporary, "accept-error-ends-serving")
					vp.Cover("temporary")
				}
			}
		case 2: // a connection is closed by the peer or the application
			if len(conns) == 0 {
				continue
			}
			c := conns[vp.Choose("which", len(conns))]
			if x, _ := sv.of(c); x != nil {
				x.Close()
			}
			open[c] = false
		case 3:
			server.Stop()
			stopped = true
			for _, c := range conns {
				open[c] = false
			}
			vp.Cover("stopped")
			if !broken {
				settle()
				select {
				case err := <-ended:
					vp.Assert(err == io.EOF, "stop-ends-serving")
					ended <- err
				default:
					vp.Assert(false, "stop-ends-serving")
				}
			}
		}
		settle()
		for _, c := range conns {
			x, n := sv.of(c)
			if c.bad {
				vp.Assert(n == 0 && c.closed() == 1, "connection-without-codec-closed")
				continue
			}
			vp.Assert(n == 1, "each-connection-handled-once")
			if n == 0 {
				continue
			}
			vp.Assert(x.IsClosed() == !open[c], "open")
			if open[c] {
				vp.Assert(c.closed() == 0 && server.GetSession(x.ID()) == x, "open-session-found")
			} else {
				vp.Assert(c.closed() == 1 && server.GetSession(x.ID()) == nil, "closed-session-not-found")
			}
		}
	}
	if !stopped {
		server.Stop()
	}
}

// HServerStop: the server is stopped while a connection arrives.
func HServerStop() {
	l := newFakeListener()
	sv := &served{}
	server := link.NewServer(l, fakeProtocol, 0, sv)
	ended := make(chan error, 1)
	go func() { ended <- server.Serve() }()
	c := newFakeConn()
	done := make(chan bool, 1)
	go func() { server.Stop(); done <- true }()
	l.ch <- c
	<-done
	settle()
	vp.Cover("stopped")
	select {
	case err := <-ended:
		vp.Assert(err == io.EOF, "stop-ends-serving")
	default:
		vp.Assert(false, "stop-ends-serving")
	}
	if len(l.ch) == 0 { // accepted
		vp.Cover("accepted")
		vp.Assert(c.closed() == 1, "all-closed")
		if x, n := sv.of(c); n > 0 {
			vp.Assert(x.IsClosed() && server.GetSession(x.ID()) == nil, "all-closed")
		}
	}
}

// HAccept: accepting survives temporary errors, with delays that double from 5 ms up to a second.
func HAccept() {
	l := newFakeListener()
	n := vp.Choose("errors", vp.Param("n")+1)
	for i := 0; i < n; i++ {
		l.ch <- acceptError{true}
	}
	last := acceptError{vp.Bool("temporary")}
	var want error
	c := newFakeConn()
	switch vp.Choose("then", 3) {
	case 0:
		l.ch <- c
	case 1:
		want = last
		if l.ch <- last; last.temporary {
			want = nil
			n++
			l.ch <- c
		}
	case 2:
		want = io.EOF
		l.Close()
		l.ch = nil
		n = 0
	}
	got, err := link.Accept(l)
	vp.Assert(err == want, "accept-error-returned")
	if want == nil {
		vp.Assert(got == net.Conn(c), "connection-accepted")
	}
	vp.Assert(len(l.calls) == n+1, "retried-after-each-temporary-error")
	d := 5 * time.Millisecond
	for i := 1; i < len(l.calls); i++ {
		vp.Assert(l.calls[i].Sub(l.calls[i-1]) >= d, "waits-between-attempts")
		if vp.Symbolic() {
			vp.Assert(l.calls[i].Sub(l.calls[i-1]) == d, "waits-between-attempts")
		}
		if d *= 2; d > time.Second {
			d = time.Second
		}
	}
	vp.Cover("accepted")
}

// HDial: a connection that gets no codec is not left open.
func HDial() {
	port := freePort()
	address := fmt.Sprintf("127.0.0.1:%d", port)
	l, err := net.Listen("tcp", address)
	if err != nil {
		vp.End()
	}
	defer l.Close()
	bad := vp.Bool("bad")
	proto := link.ProtocolFunc(func(rw io.ReadWriter) (link.Codec, error) {
		if bad {
			return nil, errors.New("no codec")
		}
		return &rawCodec{rw.(net.Conn)}, nil
	})
	var s *link.Session
	if vp.Choose("timeout", 2) == 1 {
		s, err = link.DialTimeout("tcp", address, time.Second, proto, 0)
	} else {
		s, err = link.Dial("tcp", address, proto, 0)
	}
	c, aerr := l.Accept()
	vp.Assert(aerr == nil, "connected")
	if aerr != nil {
		return
	}
	closed := make(chan bool, 1)
	go func() {
		_, err := c.Read(make([]byte, 1))
		closed <- err != nil
	}()
	if bad {
		vp.Assert(s == nil && err != nil, "dial-fails-without-codec")
		vp.Cover("refused")
	} else {
		vp.Assert(s != nil && err == nil && !s.IsClosed(), "dial-gives-an-open-session")
		select {
		case <-closed:
			vp.Assert(false, "dialled-connection-stays-open")
		case <-time.After(quiet()):
		}
		s.Close()
		vp.Cover("dialled")
	}
	select {
	case ok := <-closed:
		vp.Assert(ok, "connection-closed")
	case <-time.After(2 * time.Second):
		vp.Assert(false, "connection-closed")
	}
	c.Close()
}

type rawCodec struct{ c net.Conn }

func (k *rawCodec) Receive() (interface{}, error) {
	b := make([]byte, 1)
	_, err := k.c.Read(b)
	return b, err
}
func (k *rawCodec) Send(interface{}) error { return nil }
func (k *rawCodec) Close() error           { return k.c.Close() }
