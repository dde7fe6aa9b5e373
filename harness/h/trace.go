package h

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/parser/sml"
)

// traceWriter collects what is written, one entry for each Write.
type traceWriter struct {
	mu      sync.Mutex
	busy    bool
	overlap bool
	entries []string
	fail    bool
	slow    bool
}

func (w *traceWriter) Write(b []byte) (int, error) {
	w.mu.Lock()
	if w.busy {
		w.overlap = true
	}
	w.busy = true
	w.mu.Unlock()
	if w.slow {
		time.Sleep(time.Millisecond)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.entries = append(w.entries, string(b))
	w.busy = false
	if w.fail {
		return 0, errors.New("disk full")
	}
	return len(b), nil
}

func (w *traceWriter) take() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	e := w.entries
	w.entries = nil
	return e
}

const hexDigits = "0123456789ABCDEF"

func hexOf(b []byte) string {
	s := make([]byte, 0, 2*len(b))
	for _, c := range b {
		s = append(s, hexDigits[c>>4], hexDigits[c&15])
	}
	return string(s)
}

// squeeze drops white space.
func squeeze(s string) string {
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if c := s[i]; c != ' ' && c != '\n' {
			b = append(b, c)
		}
	}
	return string(b)
}

// section is the text that follows a line with the given title, up to the line with another title or the end.
func section(lines []string, title, until string) (string, bool) {
	text, ok := "", false
	for _, l := range lines {
		t := strings.TrimLeft(l, " ")
		switch {
		case t == title:
			ok = true
		case ok && t == until:
			return text, ok
		case ok:
			text += l + "\n"
		}
	}
	return text, ok
}

// traced says whether a log entry describes the data message f.
func traced(entry, dir string, f frame, mode hsms.LoggingMode) {
	i := strings.IndexByte(entry, '[')
	lines := strings.Split(entry, "\n")
	if i < 0 || i > len(lines[0]) {
		vp.Assert(false, "entry-has-a-header")
		return
	}
	wait := "FALSE"
	if f.h[2]&0x80 != 0 {
		wait = "TRUE"
	}
	want := fmt.Sprintf("[%s][DATA] S%02dF%02d session=%d wait=%s system=", dir, f.h[2]&0x7f, f.h[3], f.session(), wait) + hexOf(f.sys())
	vp.Assert(lines[0][i:] == want, "entry-header")
	isSML := mode == hsms.LoggingModeUnset || mode == hsms.LoggingModeSML || mode == hsms.LoggingModeBoth
	isBin := mode == hsms.LoggingModeBinary || mode == hsms.LoggingModeBoth
	text, ok := section(lines, "SML:", "BIN:")
	vp.Assert(ok == isSML, "text-as-configured")
	if ok && isSML {
		ms, errs, _ := sml.Parse(text)
		vp.Assert(len(errs) == 0 && len(ms) == 1, "entry-text-is-a-message")
		if len(ms) == 1 {
			b := ms[0].SetSessionIDAndSystemBytes(f.session(), f.sys()).ToBytes()
			vp.Assert(eqBytes(b, f.bytes()), "entry-text")
		}
	}
	bin, ok := section(lines, "BIN:", "SML:")
	vp.Assert(ok == isBin, "bytes-as-configured")
	if ok && isBin {
		vp.Assert(squeeze(bin) == hexOf(f.bytes()), "entry-bytes")
	}
}

type traceWant struct {
	dir  string
	f    frame
	kind string
}

func stypeName(s byte) string {
	return map[byte]string{sSelectReq: "select.req", sSelectRsp: "select.rsp", sDeselectReq: "deselect.req", sDeselectRsp: "deselect.rsp",
		sLinktestReq: "linktest.req", sLinktestRsp: "linktest.rsp", sReject: "reject.req", sSeparate: "separate.req"}[s]
}

// HTrace: with logging on, every message exchanged is logged once, as it is on the wire.
func HTrace() {
	session := 7
	w := &traceWriter{fail: vp.Param("fail") == 1}
	mode := hsms.LoggingModeBoth
	if m := vp.Choose("mode", vp.Param("modes")); m > 0 {
		mode = []hsms.LoggingMode{hsms.LoggingModeSML, hsms.LoggingModeBinary, hsms.LoggingModeUnset}[m-1]
	}
	enabled := true
	include := vp.Choose("control", 2) == 1
	excluded := ""
	cfg := hsms.LoggingConfig{Enabled: true, Mode: mode, IncludeControlMessages: include, Writer: w}
	if include {
		switch vp.Choose("excluded", 3) {
		case 1:
			excluded = "linktest.req"
			cfg.ExcludedControlMessageTypes = map[string]struct{}{" Linktest.REQ": {}, "": {}}
		case 2:
			excluded = "reject.req"
			cfg.ExcludedControlMessageTypes = map[string]struct{}{"reject.req ": {}}
		}
	}
	e, p, _ := passive(session, func(e *hsms.HsmsProtocol) {
		e.ConfigureLogging(cfg)
		e.RegisterHandler(1, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) {
			return ast.NewDataMessage("", 1, 2, 0, "H<-E", ast.NewUintNode(1, 5)), nil
		})
		e.RegisterHandler(1, 3, func(m *ast.DataMessage) (*ast.DataMessage, error) { // left open whether it asks for a reply
			return ast.NewDataMessage("", 1, 5, 2, "H<-E", ast.NewUintNode(1, 5)), nil
		})
	})
	p.selectBy(e, session)
	settleFor(quiet())
	w.take()
	n := vp.Param("n")
	for i := 0; i < vp.Param("steps"); i++ {
		var want []traceWant
		// each byte printed in hexadecimal has one digit or two: a choice for each symbolic one
		sys := []byte{0, 0xa0, vp.Byte("sys"), 5}
		body := Item{K: kB}
		for j := 0; j < n; j++ {
			body.V = append(body.V, uint64(j*7))
		}
		if n > 0 {
			body.V[n-1] = uint64(vp.Byte("v"))
		}
		if mode != hsms.LoggingModeBinary { // reading the text back tells every value apart
			body = Item{K: kBool, V: []uint64{uint64(vp.Byte("v") & 1)}}
		}
		if n == 0 {
			body = Item{K: kNone}
		}
		switch vp.Choose("step", 6) {
		case 0: // answered, or not to be
			open := vp.Choose("optional", 2)
			q := data(session, 1, 1+2*open, vp.Bool("wait"), sys, refEncode(body))
			p.send(q)
			want = append(want, traceWant{"IN", q, ""})
			if q.h[2]&0x80 != 0 {
				vp.Cover("answered")
				want = append(want, traceWant{"OUT", data(session, 1, 2+3*open, false, sys, refEncode(Item{K: kU1, V: []uint64{5}})), ""})
			}
		case 1: // sent by the application
			vp.Assert(e.SendDataMessage(ast.NewDataMessage("", 6, 3, 2, "H<-E", node(body))) == nil, "sent")
			f, ok := p.recv(secs(2))
			vp.Assert(ok, "sent-arrives")
			if ok {
				vp.Cover("sent")
				want = append(want, traceWant{"OUT", f, ""})
			}
		case 2: // no handler
			q := data(session, 99, 1, true, sys, refEncode(body))
			p.send(q)
			f, ok := p.recv(secs(2))
			vp.Assert(ok && f.h[2] == 9 && f.h[3] == 3, "reported")
			want = append(want, traceWant{"IN", q, ""}, traceWant{"OUT", f, ""})
		case 3: // a request, and its reply
			done := make(chan bool, 1)
			go func() {
				_, err := e.SendAndWait(ast.NewDataMessage("", 6, 11, 1, "H<-E", node(body)))
				done <- err == nil
			}()
			f, ok := p.recv(secs(2))
			vp.Assert(ok, "request-arrives")
			if !ok {
				return
			}
			a := data(session, 6, 12, false, f.sys(), refEncode(Item{K: kB, V: []uint64{0}}))
			p.send(a)
			vp.Assert(<-done, "request-answered")
			want = append(want, traceWant{"OUT", f, ""}, traceWant{"IN", a, ""})
			vp.Cover("requested")
		case 4: // control messages
			q := control(0xffff, 0, 0, sLinktestReq, sys)
			p.send(q)
			f, ok := p.recv(secs(2))
			vp.Assert(ok && f.stype() == sLinktestRsp, "linktest-answered")
			want = append(want, traceWant{"RX", q, stypeName(sLinktestReq)}, traceWant{"TX", f, stypeName(sLinktestRsp)})
		case 5: // switched off, or on
			enabled = !enabled
			cfg.Enabled = enabled
			e.ConfigureLogging(cfg)
		}
		settleFor(quiet())
		p.mu.Lock()
		for _, m := range p.in {
			vp.Assert(m.stype() == sData && (m.h[3] == 2 || m.h[3] == 5) || m.stype() == sReject, "nothing-unexpected")
		}
		p.in = nil
		p.mu.Unlock()
		var left []traceWant
		for _, x := range want {
			if enabled && (x.kind == "" || include && x.kind != excluded) {
				left = append(left, x)
			}
		}
		got := w.take()
		vp.Assert(len(got) == len(left), "each-message-logged-once")
		for j := 0; j < len(got) && j < len(left); j++ {
			x := left[j]
			if x.kind == "" {
				traced(got[j], x.dir, x.f, mode)
				continue
			}
			vp.Cover("control")
			if mode != hsms.LoggingModeBinary {
				vp.Assert(strings.HasPrefix(got[j], fmt.Sprintf("[%s][CTRL] %s session=%d status=%d system=", x.dir, x.kind, x.f.session(), x.f.h[3])+hexOf(x.f.sys())), "control-entry")
			}
			if mode == hsms.LoggingModeBinary || mode == hsms.LoggingModeBoth {
				k := strings.LastIndex(got[j], "[BIN]")
				vp.Assert(k >= 0 && squeeze(got[j][k+5:]) == hexOf(x.f.bytes()), "control-entry-bytes")
			}
		}
	}
	vp.Assert(!w.overlap, "one-entry-at-a-time")
	stop(e, p)
}

// HTraceTogether: messages sent and received at once are each logged in one piece.
func HTraceTogether() {
	w := &traceWriter{slow: true}
	e, p, _ := passive(7, func(e *hsms.HsmsProtocol) {
		e.ConfigureLogging(hsms.LoggingConfig{Enabled: true, Mode: hsms.LoggingModeBinary, IncludeControlMessages: true, Writer: w})
	})
	p.selectBy(e, 7)
	settleFor(quiet())
	w.take()
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.SendDataMessage(ast.NewDataMessage("", 6, 1+2*i, 0, "H<-E", ast.NewUintNode(1, i)))
		}()
	}
	p.send(control(0xffff, 0, 0, sLinktestReq, []byte{1, 2, 3, 4}))
	wg.Wait()
	settleFor(quiet())
	got := w.take()
	vp.Assert(len(got) == 4, "each-message-logged-once")
	vp.Assert(!w.overlap, "one-entry-at-a-time")
	vp.Cover("together")
	stop(e, p)
}

// HTraceOptions: the options of a GEM endpoint say what is logged.
func HTraceOptions() {
	w := &traceWriter{}
	on := vp.Choose("enabled", 2) == 1
	mode := []hsms.LoggingMode{hsms.LoggingModeUnset, hsms.LoggingModeSML, hsms.LoggingModeBinary, hsms.LoggingModeBoth}[vp.Choose("mode", 4)]
	include := vp.Choose("control", 2) == 1
	var excluded []string
	out := map[string]bool{}
	switch vp.Choose("excluded", 4) {
	case 1:
		excluded = []string{" Linktest.REQ\t", ""}
		out["linktest.req"] = true
	case 2:
		excluded = []string{"linktest.rsp", "LINKTEST.req", "select.rsp"}
		out["linktest.req"], out["linktest.rsp"] = true, true
	case 3:
		excluded = []string{" "}
	}
	port := freePort()
	e := hsms.NewHsmsProtocol("127.0.0.1", port, false, gemSession, "g")
	e.Timeouts().SetLinktest(30)
	o := gem.Options{Protocol: e, DeviceType: gem.DeviceEquipment, DeviceID: gemSession}
	o.Logging = gem.LoggingOptions{Enabled: on, Mode: mode, IncludeControlMessages: include, ExcludeControlMessageTypes: excluded, Writer: w}
	if _, err := gem.NewGemHandler(o); err != nil {
		vp.Assert(false, "handler-created")
		return
	}
	e.Enable() // without establishing communication
	p := dial(port)
	vp.Assert(p != nil, "endpoint-listens")
	if p == nil {
		return
	}
	p.selectBy(e, gemSession)
	settleFor(quiet())
	w.take()
	sys := []byte{1, 2, 3, 4}
	p.send(control(0xffff, 0, 0, sLinktestReq, sys))
	settleFor(quiet())
	n := 0
	if on && include {
		if !out["linktest.req"] {
			n++
		}
		if !out["linktest.rsp"] {
			n++
		}
	}
	vp.Assert(len(w.take()) == n, "control-messages-as-configured")
	q := data(gemSession, 99, 1, true, sys, nil)
	p.send(q)
	settleFor(quiet())
	got := w.take()
	if !on {
		vp.Assert(len(got) == 0, "nothing-logged")
		vp.Cover("off")
		stop(e, p)
		return
	}
	vp.Cover("on")
	vp.Assert(len(got) == 2, "each-message-logged-once")
	if len(got) == 2 {
		traced(got[0], "IN", q, mode)
		traced(got[1], "OUT", data(gemSession, 9, 3, false, sys, refEncode(Item{K: kB, V: []uint64{99}})), mode)
	}
	stop(e, p)
}
