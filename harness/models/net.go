package models

import (
	"context"
	"io"
	"net"
	"time"
)

// An in-memory TCP: listeners by address, connections as pairs of byte queues.

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

type queue struct {
	buf     []byte
	closed  bool // writer closed
	gone    bool // reader closed
	waiters []chan struct{}
}

func (q *queue) wake() {
	for _, ch := range q.waiters {
		close(ch)
	}
	q.waiters = nil
}

// Conn is one end of a modelled connection.
type Conn struct {
	in, out     *queue
	local, peer addr
	closed      bool
	rd          time.Time
}

func closedErr(op string) error {
	return &net.OpError{Op: op, Net: "tcp", Err: net.ErrClosed}
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (c *Conn) Read(p []byte) (int, error) {
	for {
		if c.closed {
			return 0, closedErr("read")
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in.buf) > 0 {
			n := copy(p, c.in.buf)
			c.in.buf = c.in.buf[n:]
			return n, nil
		}
		if c.in.closed {
			return 0, io.EOF
		}
		ch := make(chan struct{})
		c.in.waiters = append(c.in.waiters, ch)
		if c.rd.IsZero() {
			<-ch
			continue
		}
		d := c.rd.Sub(time.Now())
		if d <= 0 {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: timeoutErr{}}
		}
		select {
		case <-ch:
		case <-time.After(d):
		}
	}
}

func (c *Conn) Write(p []byte) (int, error) {
	if c.closed {
		return 0, closedErr("write")
	}
	if c.out.gone {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: ErrString("broken pipe")}
	}
	c.out.buf = append(c.out.buf, p...)
	c.out.wake()
	return len(p), nil
}

func (c *Conn) Close() error {
	if c.closed {
		return closedErr("close")
	}
	c.closed = true
	c.out.closed = true
	c.in.gone = true
	c.out.wake()
	c.in.wake()
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.peer }
func (c *Conn) SetDeadline(t time.Time) error {
	c.rd = t
	c.in.wake()
	return nil
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.rd = t
	c.in.wake()
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error       { return nil }
func (c *Conn) SetNoDelay(b bool) error                  { return nil }
func (c *Conn) SetKeepAlive(b bool) error                { return nil }
func (c *Conn) SetKeepAlivePeriod(d time.Duration) error { return nil }

// Listener accepts modelled connections.
type Listener struct {
	a       addr
	pending []*Conn
	closed  bool
	waiters []chan struct{}
}

func (l *Listener) wake() {
	for _, ch := range l.waiters {
		close(ch)
	}
	l.waiters = nil
}

func (l *Listener) Accept() (net.Conn, error) {
	for {
		if l.closed {
			return nil, closedErr("accept")
		}
		if len(l.pending) > 0 {
			c := l.pending[0]
			l.pending = l.pending[1:]
			return c, nil
		}
		ch := make(chan struct{})
		l.waiters = append(l.waiters, ch)
		<-ch
	}
}

func (l *Listener) Close() error {
	if l.closed {
		return closedErr("close")
	}
	l.closed = true
	delete(nets().ls, string(l.a))
	for _, c := range l.pending {
		c.Close()
	}
	l.wake()
	return nil
}

func (l *Listener) Addr() net.Addr { return l.a }

type netState struct {
	ls map[string]*Listener
	n  int
}

func nets() *netState {
	if g := global("net"); g != nil {
		return g.(*netState)
	}
	s := &netState{ls: map[string]*Listener{}, n: 40000}
	setGlobal("net", s)
	return s
}

func NetListen(network, address string) (net.Listener, error) {
	s := nets()
	if _, ok := s.ls[address]; ok {
		return nil, &net.OpError{Op: "listen", Net: network, Err: ErrString("address already in use")}
	}
	l := &Listener{a: addr(address)}
	s.ls[address] = l
	return l, nil
}

func NetDial(network, address string) (net.Conn, error) {
	s := nets()
	l, ok := s.ls[address]
	if !ok {
		return nil, &net.OpError{Op: "dial", Net: network, Err: ErrString("connection refused")}
	}
	a, b := &queue{}, &queue{}
	s.n++
	me := addr("127.0.0.1:" + itoa(s.n))
	c := &Conn{in: a, out: b, local: me, peer: l.a}
	l.pending = append(l.pending, &Conn{in: b, out: a, local: l.a, peer: me})
	l.wake()
	return c, nil
}

func itoa(n int) string {
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	return s
}

func NetDialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return NetDial(network, address)
}

func DialerDial(d *net.Dialer, network, address string) (net.Conn, error) {
	return NetDial(network, address)
}
func DialerDialContext(d *net.Dialer, ctx context.Context, network, address string) (net.Conn, error) {
	return NetDial(network, address)
}

func JoinHostPort(h, p string) string { return h + ":" + p }

func OpErrorError(e *net.OpError) string {
	if e == nil {
		return "<nil>"
	}
	return e.Op + " " + e.Net + ": " + e.Err.Error()
}
