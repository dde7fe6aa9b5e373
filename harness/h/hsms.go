package h

import (
	"fmt"
	"net"
	"sync"
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// HPassive: any sequence of control and data messages from a connecting peer.
func HPassive() {
	configured := []int{7, 0, 0xffff}[vp.Choose("session", vp.Param("sessions"))]
	r := &record{}
	e, p, _ := passive(configured, func(e *hsms.HsmsProtocol) {
		r.replier(e, 1, 1, ast.NewUintNode(1, 5))
	})
	session := configured
	selected := false
	if vp.Param("selected") == 1 {
		p.selectBy(e, session)
		selected = true
	}
	for i := 0; i < vp.Param("steps"); i++ {
		sys := vp.Bytes("sys", 4)
		vp.Assume(sys[0] != 0xEE)
		kind := vp.Choose("kind", 10)
		var want []frame
		closes := false
		handled := 0
		switch kind {
		case 0:
			s := int(vp.U16("ask"))
			p.send(control(s, 0, 0, sSelectReq, sys))
			accept := false
			if s == session || s == 0xffff {
				accept = true
			} else if session == 0 || session == 0xffff {
				accept, session = true, s
			}
			if accept {
				vp.Cover("selected")
				want = []frame{control(s, 0, 0, sSelectRsp, sys)}
				selected = true
			} else {
				vp.Cover("denied")
				f, ok := p.recv(secs(2))
				vp.Assert(ok, "select-answered")
				if ok {
					vp.Assert(f.stype() == sSelectRsp && f.h[3] != 0 || f.stype() == sReject, "select-denied")
					vp.Assert(f.session() == s, "answer-session")
					vp.Assert(eqBytes(f.sys(), sys), "answer-system-bytes")
				}
				vp.Assert(!(e.CurrentState() == hsms.StateConnectedSelected && !selected), "not-selected-by-denied-request")
				if p.awaitClosed(quiet()) {
					vp.Assert(await(secs(2), func() bool { return e.CurrentState() == hsms.StateNotConnected }), "disconnected")
					stop(e, p)
					return
				}
			}
		case 1:
			s := int(vp.U16("ask"))
			p.send(control(s, 0, 0, sDeselectReq, sys))
			want = []frame{control(s, 0, 0, sDeselectRsp, sys)}
			selected = false
		case 2:
			p.send(control(0xffff, 0, 0, sLinktestReq, sys))
			want = []frame{control(0xffff, 0, 0, sLinktestRsp, sys)}
		case 3:
			p.send(control(session, 0, vp.Byte("status"), sSelectRsp, sys))
		case 4:
			p.send(control(session, 0, vp.Byte("status"), sDeselectRsp, sys))
		case 5:
			p.send(control(0xffff, 0, 0, sLinktestRsp, sys))
		case 6:
			p.send(control(session, vp.Byte("type"), vp.Byte("reason"), sReject, sys))
		case 7:
			p.send(control(session, 0, 0, sSeparate, sys))
			closes = true
		case 8:
			w := vp.Bool("wait")
			p.send(data(session, 1, 1, w, sys, nil))
			if selected {
				vp.Cover("delivered")
				handled = 1
				if w {
					want = []frame{data(session, 1, 2, false, sys, refEncode(Item{K: kU1, V: []uint64{5}}))}
				}
			} else {
				vp.Cover("rejected")
				want = []frame{control(session, 0, 4, sReject, sys)}
			}
		case 9: // a reply that nobody asked for
			p.send(data(session, 1, 2, false, sys, nil))
			if !selected {
				want = []frame{control(session, 0, 4, sReject, sys)}
			}
		}
		if closes {
			vp.Cover("separated")
			vp.Assert(p.awaitClosed(secs(2)), "separate-closes")
			vp.Assert(len(p.in) == 0, "separate-not-answered")
			vp.Assert(await(secs(2), func() bool { return e.CurrentState() == hsms.StateNotConnected && !e.Connected() }), "disconnected")
			vp.Assert(len(r.take()) == 0, "nothing-handled")
			break
		}
		got, alive := p.sync()
		vp.Assert(alive, "link-alive")
		if !alive {
			break
		}
		vp.Assert(len(got) == len(want), "number-of-answers")
		for j := 0; j < len(got) && j < len(want); j++ {
			vp.Assert(got[j].stype() == want[j].stype(), "answer-type")
			vp.Assert(got[j].session() == want[j].session(), "answer-session")
			vp.Assert(eqBytes(got[j].sys(), want[j].sys()), "answer-system-bytes")
			vp.Assert(got[j].h[2] == want[j].h[2] && got[j].h[3] == want[j].h[3], "answer-header")
			vp.Assert(eqBytes(got[j].body, want[j].body), "answer-body")
		}
		ms := r.take()
		vp.Assert(len(ms) == handled, "times-handled")
		if len(ms) == 1 {
			vp.Assert(eqBytes(ms[0].SystemBytes(), sys) && ms[0].StreamCode() == 1 && ms[0].FunctionCode() == 1, "handled-message")
		}
		vp.Assert((e.CurrentState() == hsms.StateConnectedSelected) == selected, "state")
	}
	stop(e, p)
}

// HActive: an endpoint that connects is selected by the answer to its own select request only.
func HActive() {
	session := int(vp.U16("session"))
	r := &record{}
	e, p, l := active(session, func(e *hsms.HsmsProtocol) {
		r.replier(e, 1, 1, ast.NewUintNode(1, 5))
		e.Timeouts().SetT7NotSelectTimeout(5)
	})
	defer l.Close()
	vp.Assert(p != nil, "endpoint-connects")
	if p == nil {
		return
	}
	req, ok := p.recv(secs(2))
	vp.Assert(ok && req.stype() == sSelectReq && req.session() == session, "select-requested")
	if !ok {
		stop(e, p)
		return
	}
	other := append([]byte{req.h[6] ^ 0x40}, req.h[7:10]...)
	for i := 0; i < vp.Param("noise"); i++ {
		want := 0
		switch vp.Choose("noise", 5) {
		case 0:
			p.send(control(session, 0, 0, sSelectRsp, other))
		case 1:
			p.send(control(session, 0, 0, sDeselectRsp, req.sys()))
		case 2:
			p.send(control(0xffff, 0, 0, sLinktestRsp, req.sys()))
		case 3:
			p.send(data(session, 1, 1, true, req.sys(), nil))
			want = 1
		case 4:
			p.send(data(session, 1, 2, false, req.sys(), nil))
			want = 1
		}
		got, alive := p.sync()
		vp.Assert(alive, "link-alive")
		vp.Assert(len(got) == want, "number-of-answers")
		for _, g := range got {
			vp.Assert(g.stype() == sReject && g.h[3] == 4 && eqBytes(g.sys(), req.sys()), "data-rejected")
		}
		vp.Assert(e.CurrentState() == hsms.StateConnectedNotSelected, "not-selected")
		vp.Assert(len(r.take()) == 0, "nothing-handled")
		if !alive {
			return
		}
	}
	status := vp.Byte("status")
	p.send(control(session, 0, status, sSelectRsp, req.sys()))
	if status != 0 {
		vp.Cover("refused")
		vp.Assert(p.awaitClosed(secs(2)), "refused-select-closes")
		vp.Assert(e.CurrentState() == hsms.StateNotConnected, "not-selected")
		stop(e, p)
		return
	}
	vp.Cover("selected")
	vp.Assert(await(secs(1), func() bool { return e.CurrentState() == hsms.StateConnectedSelected }), "selected")
	sys := []byte{0xEE, 1, 2, 3}
	p.send(data(session, 1, 1, true, sys, nil))
	got, alive := p.sync()
	vp.Assert(alive, "link-alive")
	vp.Assert(len(got) == 1 && len(r.take()) == 1, "number-of-answers")
	if len(got) == 1 {
		vp.Assert(eqBytes(got[0].bytes(), data(session, 1, 2, false, sys, refEncode(Item{K: kU1, V: []uint64{5}})).bytes()), "answer")
	}
	// a second answer to the same request changes nothing
	p.send(control(session, 0, vp.Byte("again"), sSelectRsp, req.sys()))
	got, alive = p.sync()
	vp.Assert(alive && len(got) == 0 && e.CurrentState() == hsms.StateConnectedSelected, "late-answer-ignored")
	stop(e, p)
}

// HT7: a connection that is not selected in time is closed, one that is stays.
func HT7() {
	var e *hsms.HsmsProtocol
	var p *Peer
	conf := func(e *hsms.HsmsProtocol) {
		e.Timeouts().SetT7NotSelectTimeout(1)
		e.Timeouts().SetT6ControlTransTimeout(5)
	}
	isActive := vp.Choose("active", 2) == 1
	session := 9
	if isActive {
		var l interface{ Close() error }
		e, p, l = active(session, conf)
		defer l.Close()
		if p == nil {
			vp.Assert(false, "endpoint-connects")
			return
		}
		req, _ := p.recv(secs(2))
		if vp.Choose("select", 2) == 1 {
			p.send(control(session, 0, 0, sSelectRsp, req.sys()))
			stays(e, p, session)
			return
		}
	} else {
		e, p, _ = passive(session, conf)
		if vp.Choose("select", 2) == 1 {
			p.selectBy(e, session)
			stays(e, p, session)
			return
		}
	}
	vp.Cover("closed")
	vp.Assert(p.awaitClosed(secs(3)), "unselected-is-closed")
	vp.Assert(await(secs(2), func() bool { return e.CurrentState() == hsms.StateNotConnected || !isActive || e.Connected() }), "disconnected")
	stop(e, p)
}

func stays(e *hsms.HsmsProtocol, p *Peer, session int) {
	settleFor(secs(2))
	vp.Cover("stays")
	_, alive := p.sync()
	vp.Assert(alive && e.CurrentState() == hsms.StateConnectedSelected, "selected-stays")
	// deselecting starts the time anew
	p.send(control(session, 0, 0, sDeselectReq, []byte{0xEE, 9, 9, 9}))
	f, ok := p.recv(secs(2))
	vp.Assert(ok && f.stype() == sDeselectRsp && f.h[3] == 0, "deselected")
	vp.Assert(p.awaitClosed(secs(3)), "deselected-is-closed")
	stop(e, p)
}

// HRequests: concurrent requests, answered in any order amid other messages.
func HRequests() {
	session := int(vp.U16("session"))
	vp.Assume(vp.And(session != 0, session != 0xffff))
	r := &record{}
	e, p, _ := passive(session, func(e *hsms.HsmsProtocol) {
		r.replier(e, 2, 25, ast.NewUintNode(1, 5))
		e.Timeouts().SetT3ReplyTimeout(3)
	})
	p.selectBy(e, session)
	type result struct {
		m   *ast.DataMessage
		err error
	}
	n := vp.Param("requests")
	res := make([]chan result, n)
	for i := 0; i < n; i++ {
		i := i
		res[i] = make(chan result, 1)
		go func() {
			w := 1 + vp.Param("wait")
			m, err := e.SendAndWait(ast.NewDataMessage("", 1, 3+2*i, w, "H->E", ast.NewUintNode(4, 100+i)))
			res[i] <- result{m, err}
		}()
	}
	reqs := make([]*frame, n)
	for i := 0; i < n; i++ {
		f, ok := p.recv(secs(2))
		vp.Assert(ok && f.stype() == sData, "request-sent")
		if !ok {
			stop(e, p)
			return
		}
		k := (int(f.h[3]) - 3) / 2
		vp.Assert(k >= 0 && k < n && reqs[k] == nil, "each-request-once")
		reqs[k] = &f
		asks := vp.Param("wait") >= 0 || f.h[2]&0x80 != 0
		want := data(session, 1, 3+2*k, asks, f.sys(), refEncode(Item{K: kU4, V: []uint64{uint64(100 + k)}}))
		vp.Assert(eqBytes(f.bytes(), want.bytes()), "request-content")
		for j := 0; j < k; j++ {
			if reqs[j] != nil {
				vp.Assert(!eqBytes(reqs[j].sys(), f.sys()), "system-bytes-differ")
			}
		}
	}
	value := make([]uint64, n)
	answered := make([]bool, n)
	handled := 0
	for i := 0; i < vp.Param("steps"); i++ {
		k := vp.Choose("which", n)
		sys := reqs[k].sys()
		switch vp.Choose("message", 5) {
		case 0: // its reply
			v := uint64(vp.U32("value"))
			if !answered[k] {
				value[k], answered[k] = v, true
			}
			p.send(data(session, 1, 4+2*k, false, sys, refEncode(Item{K: kU4, V: []uint64{v}})))
		case 1: // a reply to an unknown request
			o := vp.Bytes("other", 4)
			for j := range reqs {
				vp.Assume(!eqBytes(o, reqs[j].sys()))
			}
			p.send(data(session, 1, 4+2*k, false, o, refEncode(Item{K: kU4, V: []uint64{7}})))
		case 2: // a primary with the system bytes of the request
			p.send(data(session, 2, 25, true, sys, nil))
			handled++
		case 3: // a response to another kind of request
			p.send(control(0xffff, 0, 0, sLinktestRsp, sys))
		case 4:
			p.send(control(session, 0, 0, sDeselectRsp, sys))
		}
	}
	got, alive := p.sync()
	vp.Assert(alive, "link-alive")
	vp.Assert(len(got) == handled && len(r.take()) == handled, "primaries-answered")
	for _, g := range got {
		vp.Assert(g.stype() == sData && g.h[2] == 2 && g.h[3] == 26, "primaries-answered")
	}
	timeouts := 0
	for i := 0; i < n; i++ {
		x := <-res[i]
		if answered[i] {
			vp.Cover("answered")
			vp.Assert(x.err == nil && x.m != nil, "reply-returned")
			if x.m != nil {
				want := data(session, 1, 4+2*i, false, reqs[i].sys(), refEncode(Item{K: kU4, V: []uint64{value[i]}}))
				vp.Assert(eqBytes(x.m.ToBytes(), want.bytes()), "own-reply")
			}
		} else {
			vp.Cover("timeout")
			vp.Assert(x.err != nil && x.m == nil, "no-reply-is-an-error")
			timeouts++
		}
	}
	// each request without a reply is reported by S9F9 with its header, a late reply changes nothing
	got, alive = p.sync()
	vp.Assert(alive && len(got) == timeouts, "timeouts-reported")
	reported := map[int]bool{}
	for _, g := range got {
		vp.Assert(g.stype() == sData && g.h[2] == 9 && g.h[3] == 9 && g.session() == session, "S9F9")
		for i := 0; i < n; i++ {
			if !answered[i] && !reported[i] && eqBytes(g.body, refEncode(Item{K: kB, V: u64s(reqs[i].h)})) {
				reported[i] = true
				break
			}
		}
	}
	vp.Assert(len(reported) == timeouts, "S9F9-header")
	if timeouts > 0 {
		for i := 0; i < n; i++ {
			if !answered[i] {
				p.send(data(session, 1, 4+2*i, false, reqs[i].sys(), nil))
			}
		}
		got, alive = p.sync()
		vp.Assert(alive && len(got) == 0, "late-reply-ignored")
	}
	stop(e, p)
}

func u64s(b []byte) []uint64 {
	v := make([]uint64, len(b))
	for i := range b {
		v[i] = uint64(b[i])
	}
	return v
}

func settleFor(d time.Duration) { time.Sleep(d) }

// HPrimaries: a sequence of primaries reaches the handlers unaltered and in order, and is answered in kind.
func HPrimaries() {
	session := 7
	r := &record{}
	var reply Item
	mode := vp.Choose("mode", 4) // of the handler: reply, reply with an undetermined wait bit, none, error
	e, p, _ := passive(session, nil)
	h := func(m *ast.DataMessage) (*ast.DataMessage, error) {
		r.add(m)
		switch mode {
		case 1:
			return ast.NewDataMessage("", m.StreamCode(), m.FunctionCode()+1, 2, "H<-E", node(reply)), nil
		case 2:
			return nil, nil
		case 3:
			return nil, errBroken
		}
		return ast.NewDataMessage("", m.StreamCode(), m.FunctionCode()+1, 0, "H<-E", node(reply)), nil
	}
	e.RegisterHandler(1, 1, h)
	e.RegisterHandler(11, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) { r.add(nil); return nil, nil })
	e.RegisterHandler(1, 11, func(m *ast.DataMessage) (*ast.DataMessage, error) { r.add(nil); return nil, nil })
	if vp.Choose("default", 2) == 1 {
		e.RegisterDefaultHandler(h)
	} else {
		e.RegisterHandler(6, 11, h)
	}
	p.selectBy(e, session)
	reply = genItem("reply", 0, 1)
	var sent []frame
	var want []frame
	for i := 0; i < vp.Param("n"); i++ {
		s, f := 1, 1
		if vp.Choose("which", 2) == 1 {
			s, f = 6, 11
		}
		var body []byte
		if vp.Choose("body", 2) == 1 {
			body = refEncode(Item{K: kL, L: []Item{{K: kA, V: []uint64{uint64(vp.Byte("char") & 0x7f)}}, {K: kI2, V: vals("v", kI2, 1)}}})
		}
		from := session
		if vp.Param("n") == 1 {
			from = int(vp.U16("from"))
		}
		m := data(from, s, f, vp.Bool("wait"), vp.Bytes("sys", 4), body)
		vp.Assume(m.h[6] != 0xEE)
		sent = append(sent, m)
		if m.h[2]&0x80 != 0 && mode < 2 {
			want = append(want, data(session, s, f+1, false, m.sys(), refEncode(reply)))
		}
		p.send(m)
	}
	got, alive := p.sync()
	vp.Assert(alive, "link-alive")
	ms := r.take()
	vp.Cover("handled")
	vp.Assert(len(ms) == len(sent), "each-handled-once")
	for i := 0; i < len(ms) && i < len(sent); i++ {
		vp.Assert(ms[i] != nil && eqBytes(ms[i].ToBytes(), sent[i].bytes()), "handled-unaltered-in-order")
	}
	vp.Assert(len(got) == len(want), "number-of-answers")
	for i := 0; i < len(got) && i < len(want); i++ {
		vp.Assert(eqBytes(got[i].bytes(), want[i].bytes()), "answer")
	}
	stop(e, p)
}

// HUnhandled: data messages without a handler.
func HUnhandled() {
	session := 7
	r := &record{}
	e, p, _ := passive(session, nil)
	r.replier(e, 1, 1, ast.NewListNode())
	p.selectBy(e, session)
	stream, function := 0, 0
	if vp.Param("any") == 1 {
		stream = int(vp.Byte("stream") & 0x7f)
		function = []int{0, 1, 2, 3, 255}[vp.Choose("function", 5)]
	} else {
		stream = []int{1, 9, 18, 127}[vp.Choose("stream", 4)]
		function = int(vp.Byte("function"))
	}
	vp.Assume(!(stream == 1 && function == 1))
	wait := function%2 == 1 && vp.Bool("wait")
	sys := vp.Bytes("sys", 4)
	vp.Assume(sys[0] != 0xEE)
	p.send(data(session, stream, function, wait, sys, nil))
	got, alive := p.sync()
	vp.Assert(alive, "link-alive")
	vp.Assert(len(r.take()) == 0, "not-handled")
	known := vp.Or(vp.Or(vp.And(stream >= 1, stream <= 10), vp.And(stream >= 12, stream <= 17)), stream == 21)
	if function%2 == 0 || stream == 9 {
		vp.Cover("ignored")
		vp.Assert(len(got) == 0, "not-answered")
	} else {
		vp.Assert(len(got) == 1, "one-error")
		if len(got) == 1 {
			f, code := 3, stream
			if known {
				vp.Cover("unknown-function")
				f, code = 5, function
			} else {
				vp.Cover("unknown-stream")
			}
			want := data(session, 9, f, false, sys, refEncode(Item{K: kB, V: []uint64{uint64(code)}}))
			vp.Assert(eqBytes(got[0].bytes(), want.bytes()), "error-message")
		}
	}
	stop(e, p)
}

// HErrorCallback: stream 9 messages from the peer are reported, once each, also when they answer a request.
func HErrorCallback() {
	session := 7
	e, p, _ := passive(session, nil)
	var mu sync.Mutex
	var seen []*hsms.S9ErrorInfo
	e.OnS9Error = func(i *hsms.S9ErrorInfo) { mu.Lock(); seen = append(seen, i); mu.Unlock() }
	p.selectBy(e, session)
	function := int(vp.Byte("function"))
	sys := vp.Bytes("sys", 4)
	vp.Assume(sys[0] != 0xEE)
	done := make(chan struct{}, 1)
	waits := vp.Choose("request", 2) == 1
	if waits {
		go func() {
			e.SendAndWait(ast.NewDataMessage("", 1, 3, 1, "H->E", ast.NewListNode()))
			done <- struct{}{}
		}()
		f, _ := p.recv(secs(2))
		sys = f.sys()
	}
	p.send(data(session, 9, function, false, sys, refEncode(Item{K: kB, V: []uint64{1}})))
	got, alive := p.sync()
	vp.Cover("reported")
	vp.Assert(alive && len(got) == 0, "error-not-answered")
	mu.Lock()
	defer mu.Unlock()
	vp.Assert(len(seen) == 1, "reported-once")
	if len(seen) == 1 {
		vp.Assert(seen[0].ErrorCode == function && eqBytes(seen[0].SystemBytes, sys), "reported-error")
	}
	if waits {
		<-done
	}
	stop(e, p)
}

// redial connects until the connection is served: the first may still end in the queue of a closing listener.
func redial(port int) *Peer {
	for i := 0; i < 5; i++ {
		p := dial(port)
		if p == nil {
			return nil
		}
		if _, alive := p.sync(); alive {
			return p
		}
		p.c.Close()
	}
	return nil
}

// HReconnect: an enabled endpoint is there again after any loss of the link; a disabled one is not.
func HReconnect() {
	session := 7
	r := &record{}
	isActive := vp.Choose("active", 2) == 1
	conf := func(e *hsms.HsmsProtocol) {
		r.replier(e, 1, 1, ast.NewUintNode(1, 5))
		e.Timeouts().SetT7NotSelectTimeout(1)
		e.Timeouts().SetT6ControlTransTimeout(1)
	}
	var e *hsms.HsmsProtocol
	var p *Peer
	var l net.Listener
	port := 0
	if isActive {
		e, p, l = active(session, conf)
		defer l.Close()
	} else {
		e, p, port = passive(session, conf)
	}
	for i := 0; ; i++ {
		vp.Assert(p != nil, "link-established")
		if p == nil {
			return
		}
		loss := vp.Choose("loss", 6)
		if isActive {
			req, ok := p.recv(secs(2))
			vp.Assert(ok && req.stype() == sSelectReq, "select-requested")
			if !ok {
				return
			}
			switch loss {
			case 0, 1, 2:
				p.send(control(session, 0, 0, sSelectRsp, req.sys()))
			case 3:
				p.send(control(session, 0, 1, sSelectRsp, req.sys()))
			}
		} else {
			switch loss {
			case 0, 1, 2:
				p.selectBy(e, session)
			case 3:
				p.send(control(session^1, 0, 0, sSelectReq, []byte{0xEE, 0, 0, 2}))
			}
		}
		if loss <= 2 {
			vp.Assert(await(secs(1), func() bool { return e.CurrentState() == hsms.StateConnectedSelected }), "selected")
			p.send(data(session, 1, 1, true, []byte{0xEE, 1, 2, 3}, nil))
			got, alive := p.sync()
			vp.Assert(alive && len(got) == 1 && len(r.take()) == 1, "answered-after-reconnection")
		}
		if i == vp.Param("losses") {
			break
		}
		vp.Cover("lost")
		switch loss {
		case 0:
			p.c.Close()
		case 1:
			p.send(control(session, 0, 0, sSeparate, []byte{0xEE, 0, 0, 3}))
			vp.Assert(p.awaitClosed(secs(2)), "separate-closes")
		case 2: // bytes that are no message
			p.c.Write([]byte{0, 0, 0, 1, 9})
			vp.Assert(p.awaitClosed(secs(2)), "garbage-closes")
		case 3:
			p.awaitClosed(secs(2))
			p.c.Close()
		case 4: // never selected
			vp.Assert(p.awaitClosed(secs(4)), "unselected-is-closed")
		case 5: // lost before it was selected
			p.c.Close()
		}
		p.c.Close()
		if isActive {
			p = acceptPeer(l)
		} else {
			vp.Assert(await(secs(2), func() bool { return e.CurrentState() == hsms.StateNotConnected }), "disconnected")
			p = redial(port)
		}
	}
	e.Disable()
	vp.Cover("disabled")
	vp.Assert(p.awaitClosed(secs(3)), "disabled-closes")
	if isActive {
		vp.Assert(acceptPeer(l) == nil, "disabled-stays-away")
	} else if c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), secs(1)); err == nil {
		q := newPeer(c)
		q.send(control(session, 0, 0, sSelectReq, []byte{0xEE, 0, 0, 9}))
		_, ok := q.recv(secs(1))
		vp.Assert(!ok, "disabled-stays-away")
		c.Close()
	}
	vp.Assert(await(secs(2), func() bool { return e.CurrentState() == hsms.StateNotConnected && !e.Connected() }), "disabled-is-disconnected")
	_, err := e.SendAndWait(ast.NewDataMessage("", 1, 3, 1, "H->E", ast.NewListNode()))
	vp.Assert(err != nil, "disabled-sends-nothing")
	p.c.Close()
}

// HAttempts: with a limit on the attempts to reconnect, each loss of the link allows that many anew.
func HAttempts() {
	session, max := 7, 2
	conf := func(e *hsms.HsmsProtocol) {
		e.Timeouts().SetMaxReconnectAttempts(max)
		e.Timeouts().SetLinktest(30)
	}
	e, p, l := active(session, conf)
	addr := l.Addr().String()
	for i := 0; ; i++ {
		vp.Assert(p != nil, "link-established")
		if p == nil {
			l.Close()
			return
		}
		req, ok := p.recv(secs(2))
		vp.Assert(ok && req.stype() == sSelectReq, "select-requested")
		if !ok {
			l.Close()
			return
		}
		p.send(control(session, 0, 0, sSelectRsp, req.sys()))
		vp.Assert(await(secs(1), func() bool { return e.CurrentState() == hsms.StateConnectedSelected }), "selected")
		if i == vp.Param("losses") {
			break
		}
		vp.Cover("lost")
		failed := vp.Choose("failed", max+1)
		if failed > 0 {
			l.Close()
		}
		p.c.Close()
		if failed > 0 {
			// attempts come one second after the loss and every second from then on
			time.Sleep(time.Duration(failed)*time.Second + 500*time.Millisecond)
			var err error
			l, err = net.Listen("tcp", addr)
			if err != nil {
				vp.End()
			}
		}
		p = acceptPeer(l)
	}
	e.Disable()
	vp.Cover("disabled")
	vp.Assert(p.awaitClosed(secs(3)), "disabled-closes")
	l.Close()
	p.c.Close()
}

// HSends: messages are sent on a selected session only, with the endpoint's session id.
func HSends() {
	session := int(vp.U16("session"))
	vp.Assume(vp.And(session != 0, session != 0xffff))
	e, p, _ := passive(session, nil)
	state := vp.Choose("state", 4)
	if state >= 1 {
		p.selectBy(e, session)
	}
	if state == 2 {
		p.send(control(session, 0, 0, sDeselectReq, []byte{0xEE, 0, 0, 2}))
		p.recv(secs(2))
		await(secs(1), func() bool { return e.CurrentState() != hsms.StateConnectedSelected })
	}
	if state == 3 {
		p.send(control(session, 0, 0, sSeparate, []byte{0xEE, 0, 0, 2}))
		p.awaitClosed(secs(2))
		await(secs(2), func() bool { return e.CurrentState() == hsms.StateNotConnected && !e.Connected() })
	}
	var last []byte
	for i := 0; i < 2; i++ {
		op := vp.Choose("op", 2)
		w := vp.Choose("wait", 3)
		it := Item{K: kU4, V: vals("v", kU4, 1)}
		m := ast.NewDataMessage("", 6, 11, w, "H<-E", node(it))
		if op > 0 {
			m = ast.NewDataMessage("", 6, 12, 0, "H<-E", node(it))
			w = 0
		}
		sys := vp.Bytes("sys", 4)
		var err error
		switch op {
		case 0:
			err = e.SendDataMessage(m)
		case 1:
			err = e.SendResponse(m, sys)
		}
		if state != 1 {
			vp.Cover("refused")
			vp.Assert(err != nil, "refused")
			if state != 3 {
				got, alive := p.sync()
				vp.Assert(alive && len(got) == 0, "nothing-sent")
			}
			continue
		}
		vp.Cover("sent")
		vp.Assert(err == nil, "sent")
		f, ok := p.recv(secs(1))
		vp.Assert(ok, "sent")
		if !ok {
			break
		}
		if op == 0 {
			vp.Assert(last == nil || !eqBytes(f.sys(), last), "system-bytes-differ")
			last = f.sys()
			sys = f.sys()
		}
		vp.Assert(eqBytes(f.bytes(), data(session, 6, 11+op, w == 1, sys, refEncode(it)).bytes()), "sent-bytes")
	}
	vp.Assert(e.SendDataMessage(nil) != nil && e.SendResponse(nil, []byte{0, 0, 0, 0}) != nil, "nil-refused")
	stop(e, p)
}

// waitLinktest waits for the next linktest.req of the endpoint.
func (p *Peer) waitLinktest(d time.Duration) bool {
	n := p.linktestCount()
	return await(d, func() bool { return p.linktestCount() > n })
}

func (p *Peer) linktestCount() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.linktests
}

func (p *Peer) muted(on bool) {
	p.mu.Lock()
	p.mute = on
	p.mu.Unlock()
}

// HIdle: an idle link stays up and is tested once in each interval, also after it was lost and regained; a peer that
// has fallen silent is given up.
func HIdle() {
	session := 7
	r := &record{}
	isActive := vp.Choose("active", 2) == 1
	lost := 0
	conf := func(e *hsms.HsmsProtocol) {
		r.replier(e, 1, 1, ast.NewUintNode(1, 5))
		e.Timeouts().SetLinktest(1)
		e.Timeouts().SetT6ControlTransTimeout(2)
		e.Timeouts().SetT7NotSelectTimeout(3)
		e.Timeouts().SetT8NetworkIntercharTimeout(3)
		e.OnDisconnected = func() { r.mu.Lock(); lost++; r.mu.Unlock() }
	}
	var e *hsms.HsmsProtocol
	var p *Peer
	var l net.Listener
	port := 0
	if isActive {
		e, p, l = active(session, conf)
		defer l.Close()
	} else {
		e, p, port = passive(session, conf)
	}
	selected := func() bool {
		vp.Assert(p != nil, "link-established")
		if p == nil {
			return false
		}
		if isActive {
			req, ok := p.recv(secs(2))
			vp.Assert(ok && req.stype() == sSelectReq, "select-requested")
			if !ok {
				return false
			}
			p.send(control(session, 0, 0, sSelectRsp, req.sys()))
		} else {
			p.selectBy(e, session)
		}
		ok := await(secs(1), func() bool { return e.CurrentState() == hsms.StateConnectedSelected })
		vp.Assert(ok, "selected")
		return ok
	}
	if !selected() {
		return
	}
	again := func() bool {
		p.c.Close()
		vp.Assert(await(secs(2), func() bool { r.mu.Lock(); defer r.mu.Unlock(); return lost > 0 }), "loss-reported")
		r.mu.Lock()
		lost = 0
		r.mu.Unlock()
		if isActive {
			p = acceptPeer(l)
		} else {
			p = redial(port)
		}
		return selected()
	}
	for i := vp.Param("losses"); i > 0; i-- {
		switch vp.Choose("loss", 3) {
		case 1: // in the middle of a linktest
			p.muted(true)
			vp.Assert(p.waitLinktest(secs(3)), "linktest-sent")
		case 2: // right after one
			vp.Assert(p.waitLinktest(secs(3)), "linktest-sent")
		}
		if !again() {
			return
		}
	}
	switch vp.Choose("then", 2) {
	case 0: // idle
		from := p.linktestCount()
		settleFor(secs(7))
		n := p.linktestCount() - from
		vp.Observe("linktests", n)
		_, alive := p.sync()
		vp.Assert(alive && e.CurrentState() == hsms.StateConnectedSelected, "idle-link-stays-up")
		vp.Assert(n >= 5, "linktest-in-each-interval")
		vp.Assert(n <= 8, "one-linktest-in-each-interval")
		p.send(data(session, 1, 1, true, []byte{0xEE, 1, 2, 3}, nil))
		got, alive := p.sync()
		vp.Assert(alive && len(got) == 1, "idle-link-serves")
		vp.Cover("idle")
	case 1: // silent, perhaps in the middle of a message
		p.muted(true)
		b := data(session, 1, 1, true, []byte{0xEE, 1, 2, 3}, []byte{1, 0}).bytes()
		p.c.Write(b[:vp.Choose("cut", len(b))])
		vp.Assert(!p.awaitClosed(secs(1)), "not-before-T8")
		vp.Assert(p.awaitClosed(secs(4)), "silent-peer-given-up")
		vp.Cover("silent")
		if !again() {
			return
		}
		p.send(data(session, 1, 1, true, []byte{0xEE, 1, 2, 4}, nil))
		got, alive := p.sync()
		vp.Assert(alive && len(got) == 1, "regained-link-serves")
	}
	stop(e, p)
}
