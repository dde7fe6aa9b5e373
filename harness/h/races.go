package h

import (
	"net"
	"sync"
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// deed is something that happens to an endpoint: a call of the application or a message of the peer.
type deed struct {
	name string
	do   func()
}

// both lets two deeds happen at once.
func both(a, b deed) {
	vp.Cover("at-once")
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		a.do()
	}()
	go func() {
		defer wg.Done()
		b.do()
	}()
	wg.Wait()
	time.Sleep(quiet())
}

// tell sends a primary to the endpoint without looking at the answer; n tells primaries apart.
func (s *station) tell(n byte, stream, function int, body []byte) func() {
	return func() {
		s.p.send(data(gemSession, stream, function, true, []byte{0xEE, 0, 0, n}, body))
	}
}

// shared is what the calls of equipment use.
type shared struct {
	sv *gem.StatusVariable
	dv *gem.DataVariable
	ec *gem.EquipmentConstant
}

func sharedEquipment(early bool) (*station, *shared) {
	k := &shared{}
	u1 := func(n int) ast.ItemNode { return ast.NewUintNode(1, n) }
	s := equipment(func(g *gem.GemHandler) {
		k.sv, _ = gem.NewStatusVariable(1, "s", "u", gem.WithStatusValue(u1(1)))
		k.dv, _ = gem.NewDataVariable(1, "d", gem.WithDataValue(u1(1)))
		k.ec, _ = gem.NewEquipmentConstant(1, "e", u1(1))
		ce, _ := gem.NewCollectionEvent(1, "c")
		ok := g.RegisterStatusVariable(k.sv) == nil && g.RegisterDataVariable(k.dv) == nil &&
			g.RegisterEquipmentConstant(k.ec) == nil && g.RegisterCollectionEvent(ce) == nil && g.RegisterProcessProgram(1, "p") == nil
		g.RegisterAlarm(gem.Alarm{ID: 1, Text: "hot", Enabled: true})
		g.SetRemoteCommandHandler(func(gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
			return gem.RemoteCommandResult{}, nil
		})
		vp.Assert(ok, "registered")
	})
	if early { // the deeds happen while communication is established and the host lets the equipment online, or not
		s.p.mu.Lock()
		s.p.auto, s.p.are = true, vp.Choose("online", 2)
		s.p.mu.Unlock()
		return s, k
	}
	s.establish()
	one := list(num(kU4, 1))
	ok := ackOf(s.ask(2, 33, list(num(kU4, 1), list(list(num(kU4, 1), one))))) == 0 &&
		ackOf(s.ask(2, 35, list(num(kU4, 1), list(list(num(kU4, 1), one))))) == 0 &&
		ackOf(s.ask(2, 37, list(num(kBool, 1), one))) == 0
	vp.Assert(ok, "report-defined")
	return s, k
}

// equipmentCalls are the calls an equipment's application makes while its endpoint communicates.
func (s *station) equipmentCalls(k *shared, i int) []deed {
	g := s.g
	id := 10 + i
	u1 := func(n int) ast.ItemNode { return ast.NewUintNode(1, n) }
	heard := func(map[string]interface{}) {}
	return []deed{
		{"set-status", func() { k.sv.SetValue(u1(2)) }},
		{"status-provider", func() { k.sv.SetValueProvider(func() (ast.ItemNode, error) { return u1(3), nil }) }},
		{"status", func() { k.sv.Value() }},
		{"set-data", func() { k.dv.SetValue(u1(2)) }},
		{"data-provider", func() { k.dv.SetValueProvider(func() (ast.ItemNode, error) { return u1(3), nil }) }},
		{"data", func() { k.dv.Value() }},
		{"set-constant", func() { k.ec.ApplyValue(u1(2)) }},
		{"constant", func() { k.ec.Value() }},
		{"raise", func() { g.RaiseAlarm(1, true) }},
		{"clear", func() { g.ClearAlarm(1) }},
		{"enable-alarm", func() { g.EnableAlarm(1) }},
		{"disable-alarm", func() { g.DisableAlarm(1) }},
		{"trigger", func() { g.TriggerCollectionEvent(1) }},
		{"status-variable", func() {
			x, _ := gem.NewStatusVariable(id, "s", "u", gem.WithStatusValue(u1(1)))
			g.RegisterStatusVariable(x)
		}},
		{"data-variable", func() {
			x, _ := gem.NewDataVariable(id, "d", gem.WithDataValue(u1(1)))
			g.RegisterDataVariable(x)
		}},
		{"equipment-constant", func() {
			x, _ := gem.NewEquipmentConstant(id, "e", u1(1))
			g.RegisterEquipmentConstant(x)
		}},
		{"collection-event", func() {
			x, _ := gem.NewCollectionEvent(id, "c")
			g.RegisterCollectionEvent(x)
		}},
		{"program", func() { g.RegisterProcessProgram(id, "p") }},
		{"programs", func() { g.ListProcessPrograms() }},
		{"alarm", func() { g.RegisterAlarm(gem.Alarm{ID: id, Text: "hot"}) }},
		{"online", func() { g.SwitchControlOnline() }},
		{"offline", func() { g.SwitchControlOffline() }},
		{"local", func() { g.SwitchControlOnlineLocal() }},
		{"remote", func() { g.SwitchControlOnlineRemote() }},
		{"states", func() {
			g.State()
			g.ControlState()
			g.ControlStateMachine().OnlineMode()
			g.WaitForCommunicating(time.Millisecond)
			g.Protocol().Connected()
			g.Protocol().CurrentState()
		}},
		{"command-handler", func() {
			g.SetRemoteCommandHandler(func(gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
				return gem.RemoteCommandResult{}, nil
			})
		}},
		{"upload-handler", func() { g.SetProcessProgramUploadHandler(nil) }},
		{"request-handler", func() { g.SetProcessProgramRequestHandler(nil) }},
		{"clock", func() { g.SetTimeProvider(func() time.Time { return time.Unix(1, 0) }) }},
		{"clock-handler", func() { g.SetClockSyncHandler(func(time.Time) (byte, error) { return 0, nil }) }},
		{"time", func() { g.GetEquipmentTime() }},
		{"handler", func() { g.RegisterStreamFunctionHandler(99, 1, nil) }},
		{"default-handler", func() { g.RegisterDefaultStreamHandler(nil) }},
		{"listen", func() {
			g.Events().AlarmAckReceived.AddCallback(heard)
			g.Events().ControlStateChanged.AddCallback(heard)
		}},
		{"unlisten", func() {
			g.Events().ControlStateChanged.Len()
			g.Events().ControlStateChanged.RemoveCallback(heard)
		}},
		{"send", func() { s.e.SendDataMessage(ast.NewDataMessage("", 99, 1, 0, "H->E", ast.NewEmptyItemNode())) }},
		{"request", func() { s.e.SendAndWait(ast.NewDataMessage("", 99, 1, 1, "H->E", ast.NewEmptyItemNode())) }},
		{"trace", func() {
			s.e.ConfigureLogging(hsms.LoggingConfig{Enabled: true, IncludeControlMessages: true, Writer: &traceWriter{}})
		}},
		{"untrace", func() { s.e.ConfigureLogging(hsms.LoggingConfig{}) }},
	}
}

// linkDeeds are what can become of the link.
func (s *station) linkDeeds() []deed {
	return []deed{
		{"linktest", func() { s.p.send(control(0xFFFF, 0, 0, sLinktestReq, []byte{1, 2, 3, 4})) }},
		{"select-again", func() { s.p.send(control(gemSession, 0, 0, sSelectReq, []byte{1, 2, 3, 5})) }},
		{"deselect", func() { s.p.send(control(gemSession, 0, 0, sDeselectReq, []byte{1, 2, 3, 6})) }},
		{"separate", func() { s.p.send(control(gemSession, 0, 0, sSeparate, []byte{1, 2, 3, 7})) }},
		{"drop", func() { s.p.c.Close() }},
		{"reconnect", func() {
			s.p.c.Close()
			if p := redial(s.port); p != nil {
				p.send(control(gemSession, 0, 0, sSelectReq, []byte{0xEE, 0, 0, 1}))
				p.recv(secs(2)) // the endpoint may not know yet that the last link is gone
				p.serving(true)
				s.e.SendDataMessage(ast.NewDataMessage("", 99, 1, 0, "H->E", ast.NewEmptyItemNode()))
				time.Sleep(quiet())
				p.c.Close()
			}
		}},
		{"disable", func() { s.g.Disable() }},
		{"enable", func() { s.g.Enable() }},
		{"restart", func() {
			s.g.Disable()
			s.g.Enable()
		}},
	}
}

// equipmentMessages are what a host says to equipment.
func (s *station) equipmentMessages(n byte) []deed {
	one := list(num(kU4, 1))
	m := func(name string, stream, function int, body Item) deed {
		return deed{name, s.tell(n, stream, function, refEncode(body))}
	}
	none := Item{K: kNone}
	return []deed{
		m("S1F1", 1, 1, none), m("S1F13", 1, 13, list()), m("S1F15", 1, 15, none), m("S1F17", 1, 17, none),
		m("S1F3", 1, 3, one), m("S1F3-all", 1, 3, list()), m("S1F11", 1, 11, list()),
		m("S2F13", 2, 13, list()), m("S2F15", 2, 15, list(list(num(kU4, 1), num(kU1, 7)))), m("S2F29", 2, 29, list()),
		m("S2F17", 2, 17, none), m("S2F31", 2, 31, text("2024010203040500")),
		m("S2F33", 2, 33, list(num(kU4, 1), list(list(num(kU4, 2), one)))), m("S2F33-delete", 2, 33, list(num(kU4, 1), list())),
		m("S2F35", 2, 35, list(num(kU4, 1), list(list(num(kU4, 1), one)))), m("S2F37", 2, 37, list(num(kBool, 0), list())),
		m("S6F15", 6, 15, num(kU4, 1)), m("S2F41", 2, 41, list(text("GO"), list())),
		m("S5F3", 5, 3, list(Item{K: kB, V: []uint64{0x80}}, one)), m("S5F5", 5, 5, one), m("S5F7", 5, 7, none),
		m("S7F3", 7, 3, list(num(kU4, 1), text("q"))), m("S7F5", 7, 5, num(kU4, 1)), m("S99F1", 99, 1, none),
	}
}

// HRaces: whatever two things happen at once to an equipment's endpoint, no memory is touched without order.
func HRaces() {
	s, k := sharedEquipment(vp.Param("early") == 1)
	kinds := func(kind, i int) []deed {
		switch kind {
		case 0:
			return s.equipmentCalls(k, i)
		case 1:
			return s.equipmentMessages(byte(i))
		}
		return s.linkDeeds()
	}
	as, bs := kinds(vp.Param("a"), 1), kinds(vp.Param("b"), 2)
	a := vp.Choose("first", len(as))
	b := 0
	if vp.Param("a") == vp.Param("b") {
		b = a + vp.Choose("second", len(bs)-a)
	} else {
		b = vp.Choose("second", len(bs))
	}
	both(as[a], bs[b])
	vp.Cover("done")
	s.stop()
}

// hostCalls are the calls a host's application makes.
func (s *station) hostCalls() []deed {
	g := s.g
	heard := func(map[string]interface{}) {}
	var ds []deed
	for n := 0; n < 15; n++ {
		n := n
		ds = append(ds, deed{"request", func() { s.request(false, n) }})
	}
	return append(ds,
		deed{"alarm-lists", func() { g.RequestAlarmList(); g.RequestEnabledAlarmList() }},
		deed{"states", func() {
			g.State()
			g.ControlState()
			g.WaitForCommunicating(time.Millisecond)
			g.Protocol().Connected()
			g.Protocol().CurrentState()
		}},
		deed{"handler", func() { g.RegisterStreamFunctionHandler(99, 1, nil) }},
		deed{"default-handler", func() { g.RegisterDefaultStreamHandler(nil) }},
		deed{"listen", func() {
			g.Events().AlarmReceived.AddCallback(heard)
			g.Events().EventReportReceived.AddCallback(heard)
			g.Events().S9ErrorReceived.AddCallback(heard)
		}},
		deed{"unlisten", func() { g.Events().EventReportReceived.RemoveCallback(heard) }},
		deed{"send", func() { s.e.SendDataMessage(ast.NewDataMessage("", 99, 1, 0, "H->E", ast.NewEmptyItemNode())) }},
		deed{"trace", func() {
			s.e.ConfigureLogging(hsms.LoggingConfig{Enabled: true, IncludeControlMessages: true, Writer: &traceWriter{}})
		}},
	)
}

// hostMessages are what equipment says to a host.
func (s *station) hostMessages(n byte) []deed {
	m := func(name string, stream, function int, body Item) deed {
		return deed{name, s.tell(n, stream, function, refEncode(body))}
	}
	none := Item{K: kNone}
	return []deed{
		m("S1F1", 1, 1, none), m("S1F13", 1, 13, list(text("m"), text("r"))),
		m("S5F1", 5, 1, list(Item{K: kB, V: []uint64{0x80}}, num(kU4, 1), text("hot"))),
		m("S6F11", 6, 11, list(num(kU4, 1), num(kU4, 1), list(list(num(kU4, 1), list(num(kU1, 1)))))),
		m("S9F7", 9, 7, Item{K: kB, V: make([]uint64, 10)}),
		m("S7F3", 7, 3, list(num(kU4, 1), text("q"))), m("S99F1", 99, 1, none),
	}
}

// HHostRaces: the same for a host's endpoint.
func HHostRaces() {
	s := host(nil)
	s.establish()
	kinds := func(kind, i int) []deed {
		switch kind {
		case 0:
			return s.hostCalls()
		case 1:
			return s.hostMessages(byte(i))
		}
		return s.linkDeeds()
	}
	as, bs := kinds(vp.Param("a"), 1), kinds(vp.Param("b"), 2)
	a := vp.Choose("first", len(as))
	b := 0
	if vp.Param("a") == vp.Param("b") {
		b = a + vp.Choose("second", len(bs)-a)
	} else {
		b = vp.Choose("second", len(bs))
	}
	both(as[a], bs[b])
	vp.Cover("done")
	s.stop()
}

// HLinkRaces: the same for a bare HSMS endpoint of either role, whose peer reconnects or is reconnected to.
func HLinkRaces() {
	isActive := vp.Choose("active", 2) == 1
	session := vp.Param("session") // 0: the endpoint takes the session of the peer
	if isActive {
		session = gemSession
	}
	conf := func(e *hsms.HsmsProtocol) {
		e.RegisterHandler(1, 1, func(m *ast.DataMessage) (*ast.DataMessage, error) {
			return ast.NewDataMessage("", 1, 2, 0, "H<-E", ast.NewUintNode(1, 5)), nil
		})
		e.OnDisconnected = func() {}
		e.OnS9Error = func(*hsms.S9ErrorInfo) {}
	}
	var e *hsms.HsmsProtocol
	var p *Peer
	var l net.Listener
	port := 0
	// up brings the link up (again) from the peer's side.
	up := func(q *Peer) *Peer {
		if q == nil {
			return nil
		}
		if !isActive {
			q.send(control(gemSession, 0, 0, sSelectReq, []byte{0xEE, 0, 0, 1}))
			q.recv(secs(2))
			return q
		}
		if req, ok := q.recv(secs(2)); ok && req.stype() == sSelectReq {
			q.send(control(gemSession, 0, 0, sSelectRsp, req.sys()))
		}
		return q
	}
	if isActive {
		e, p, l = active(session, conf)
		defer l.Close()
	} else {
		e, p, port = passive(session, conf)
	}
	vp.Assert(p != nil, "link-established")
	if p == nil {
		return
	}
	last := p
	again := func() {
		var q *Peer
		if isActive {
			q = acceptPeer(l)
		} else {
			q = redial(port)
		}
		if q = up(q); q != nil {
			last = q
			q.send(data(gemSession, 1, 1, true, []byte{0xEE, 9, 9, 9}, nil))
			time.Sleep(quiet())
		}
	}
	msg := func(w int) *ast.DataMessage {
		return ast.NewDataMessage("", 99, 1, w, "H->E", ast.NewEmptyItemNode())
	}
	calls := []deed{
		{"send", func() { e.SendDataMessage(msg(0)) }},
		{"request", func() { e.SendAndWait(msg(1)) }},
		{"respond", func() {
			e.SendResponse(ast.NewDataMessage("", 1, 2, 0, "H<-E", ast.NewEmptyItemNode()), []byte{1, 2, 3, 4})
		}},
		{"register", func() { e.RegisterHandler(99, 3, nil) }},
		{"default", func() { e.RegisterDefaultHandler(nil) }},
		{"states", func() {
			e.Connected()
			e.CurrentState()
		}},
		{"trace", func() {
			e.ConfigureLogging(hsms.LoggingConfig{Enabled: true, IncludeControlMessages: true, Writer: &traceWriter{}})
		}},
		{"disable", func() { e.Disable() }},
		{"enable", func() { e.Enable() }},
		{"restart", func() {
			e.Disable()
			e.Enable()
			again()
		}},
	}
	events := []deed{
		{"linktest", func() { p.send(control(0xFFFF, 0, 0, sLinktestReq, []byte{1, 2, 3, 4})) }},
		{"select-again", func() { p.send(control(gemSession, 0, 0, sSelectReq, []byte{1, 2, 3, 5})) }},
		{"deselect", func() { p.send(control(gemSession, 0, 0, sDeselectReq, []byte{1, 2, 3, 6})) }},
		{"separate", func() { p.send(control(gemSession, 0, 0, sSeparate, []byte{1, 2, 3, 7})) }},
		{"reject", func() { p.send(control(gemSession, 0, 4, sReject, []byte{1, 2, 3, 8})) }},
		{"message", func() { p.send(data(gemSession, 1, 1, true, []byte{1, 2, 3, 9}, nil)) }},
		{"unhandled", func() { p.send(data(gemSession, 98, 1, true, []byte{1, 2, 3, 10}, nil)) }},
		{"no-secs", func() { p.send(data(gemSession, 1, 1, true, []byte{1, 2, 3, 11}, []byte{0x41})) }},
		{"half-a-message", func() {
			f := data(gemSession, 1, 1, true, []byte{1, 2, 3, 12}, nil)
			p.c.Write(f.bytes()[:7])
		}},
		{"drop", func() { p.c.Close() }},
		{"reconnect", func() {
			p.c.Close()
			again()
		}},
	}
	// the peer may select the link before or while it happens
	early := vp.Choose("selected", 2) == 1
	if early {
		up(p)
		vp.Assert(await(secs(1), func() bool { return e.CurrentState() == hsms.StateConnectedSelected }), "selected")
	} else {
		events = append(events, deed{"select", func() { up(p) }})
	}
	a := calls[vp.Choose("first", len(calls))]
	all := append(append([]deed{}, calls...), events...)
	both(a, all[vp.Choose("second", len(all))])
	vp.Cover("done")
	p.c.Close()
	last.c.Close()
	e.Disable()
	time.Sleep(quiet())
}
