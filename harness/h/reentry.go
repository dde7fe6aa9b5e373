package h

import (
	"sync/atomic"
	"time"

	"verif/harness/vp"

	link "github.com/younglifestyle/secs4go"
	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// HEventInside: a callback may itself use the event; nothing blocks, and the firings after it see the change.
func HEventInside() {
	e := &common.Event{}
	n := vp.Param("callbacks")
	op := vp.Choose("op", 2*n+2)
	var want, before, got []int
	remove := func(l []int, x int) []int {
		for i, w := range l {
			if w == x {
				return append(append([]int{}, l[:i]...), l[i+1:]...)
			}
		}
		return l
	}
	cbs := make([]func(map[string]interface{}), n)
	inside, nested := false, 0
	actor := vp.Choose("actor", n)
	for i := range cbs {
		i := i
		cbs[i] = func(m map[string]interface{}) {
			got = append(got, i)
			if i != actor || inside {
				return
			}
			inside = true
			switch {
			case op < n:
				e.AddCallback(cbs[op])
				want = append(append([]int{}, want...), op)
			case op < 2*n:
				e.RemoveCallback(cbs[op-n])
				want = remove(want, op-n)
			case op == 2*n:
				vp.Assert(e.Len() == len(want), "length-inside")
			default:
				outer := got
				got = nil
				e.Fire(m)
				nested++
				vp.Assert(sameInts(got, want), "nested-firing")
				got = outer
			}
		}
	}
	for i := range cbs {
		if i == actor || vp.Choose("added", 2) == 1 {
			e.AddCallback(cbs[i])
			want = append(want, i)
		}
	}
	before = want
	data := map[string]interface{}{"k": vp.U32("data")}
	e.Fire(data)
	vp.Assert(inside && (op <= 2*n || nested == 1), "called")
	// who was there throughout is called once; the order is kept
	for _, i := range before {
		if op >= n && op < 2*n && op-n == i || op == i {
			continue
		}
		times := 0
		for _, g := range got {
			if g == i {
				times++
			}
		}
		vp.Assert(times == 1, "each-callback-once")
	}
	got = nil
	e.Fire(data)
	vp.Assert(sameInts(got, want), "later-firings-see-the-change")
	vp.Assert(e.Len() == len(want), "length")
	vp.Cover("inside")
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// HReentry: a callback, handler or provider of the application may itself use the endpoint; it comes back, and the endpoint keeps serving.
func HReentry() {
	var s *station
	var calls []deed
	place := vp.Choose("place", 14)
	if place == 1 { // AlarmAckReceived: alarms ask for no acknowledge
		place = 14
	}
	armed, entered := false, int32(0)
	finished := int32(0)
	which := 0
	inside := func(p int) {
		if p != place || !armed {
			return
		}
		if atomic.AddInt32(&entered, 1) == 1 {
			calls[which].do()
			atomic.StoreInt32(&finished, 1)
		}
	}
	u1 := func(n int) ast.ItemNode { return ast.NewUintNode(1, n) }
	k := &shared{}
	s = equipment(func(g *gem.GemHandler) {
		k.sv, _ = gem.NewStatusVariable(1, "s", "u", gem.WithStatusValueProvider(func() (ast.ItemNode, error) {
			inside(4)
			return u1(1), nil
		}))
		k.dv, _ = gem.NewDataVariable(2, "d", gem.WithDataValueProvider(func() (ast.ItemNode, error) {
			inside(5)
			return u1(1), nil
		}))
		k.ec, _ = gem.NewEquipmentConstant(1, "e", u1(1), gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) {
			inside(6)
			return u1(1), nil
		}), gem.WithEquipmentConstantValidator(func(ast.ItemNode) error {
			inside(7)
			return nil
		}), gem.WithEquipmentConstantValueUpdater(func(ast.ItemNode) error {
			inside(8)
			return nil
		}))
		ce, _ := gem.NewCollectionEvent(1, "c")
		ok := g.RegisterStatusVariable(k.sv) == nil && g.RegisterDataVariable(k.dv) == nil &&
			g.RegisterEquipmentConstant(k.ec) == nil && g.RegisterCollectionEvent(ce) == nil && g.RegisterProcessProgram(1, "p") == nil
		vp.Assert(ok, "registered")
		g.RegisterAlarm(gem.Alarm{ID: 1, Text: "hot", Enabled: true})
		heard := func(p int) func(map[string]interface{}) {
			return func(map[string]interface{}) { inside(p) }
		}
		g.Events().ControlStateChanged.AddCallback(heard(0))
		g.Events().HandlerCommunicating.AddCallback(heard(14))
		g.Events().RemoteCommandReceived.AddCallback(heard(2))
		g.SetRemoteCommandHandler(func(gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
			inside(3)
			return gem.RemoteCommandResult{}, nil
		})
		g.SetTimeProvider(func() time.Time {
			inside(9)
			return time.Unix(1, 0)
		})
		g.SetClockSyncHandler(func(time.Time) (byte, error) {
			inside(10)
			return 0, nil
		})
		g.SetProcessProgramRequestHandler(func(interface{}) (string, int) {
			inside(11)
			return "p", 0
		})
		g.SetProcessProgramUploadHandler(func(interface{}, string) int {
			inside(12)
			return 0
		})
		g.RegisterStreamFunctionHandler(99, 1, func(*ast.DataMessage) (*ast.DataMessage, error) {
			inside(13)
			return ast.NewDataMessage("", 99, 2, 0, "H<-E", ast.NewEmptyItemNode()), nil
		})
	})
	for _, d := range s.equipmentCalls(k, 1) {
		own := d.name == "status" && place == 4 || d.name == "data" && place == 5 || d.name == "constant" && place == 6 ||
			d.name == "set-constant" && (place == 7 || place == 8) || d.name == "time" && place == 9 // these call themselves
		if !own && d.name != "request" {
			calls = append(calls, d)
		}
	}
	calls = append(calls, deed{"disable", func() { s.g.Disable() }})
	which = vp.Choose("deed", len(calls))
	one := list(num(kU4, 1))
	if place != 14 {
		s.establish()
		ok := ackOf(s.ask(2, 33, list(num(kU4, 1), list(list(num(kU4, 1), list(num(kU4, 2))))))) == 0 &&
			ackOf(s.ask(2, 35, list(num(kU4, 1), list(list(num(kU4, 1), one))))) == 0 &&
			ackOf(s.ask(2, 37, list(num(kBool, 1), one))) == 0
		vp.Assert(ok, "report-defined")
	}
	armed = true
	none := Item{K: kNone}
	type primary struct {
		s, f int
		body Item
	}
	m := []primary{
		{1, 15, none}, {5, 2, Item{K: kB, V: []uint64{0}}}, {2, 41, list(text("GO"), list())}, {2, 41, list(text("GO"), list())},
		{1, 3, one}, {6, 15, num(kU4, 1)}, {2, 13, one}, {2, 15, list(list(num(kU4, 1), num(kU1, 7)))}, {2, 15, list(list(num(kU4, 1), num(kU1, 7)))},
		{2, 17, none}, {2, 31, text("2024010203040500")}, {7, 5, num(kU4, 1)}, {7, 3, list(num(kU4, 1), text("q"))}, {99, 1, none}, {},
	}[place]
	if place == 14 {
		s.serve()
	} else {
		s.p.send(data(gemSession, m.s, m.f, m.f%2 == 1, []byte{0xEE, 0, 0, 1}, refEncode(m.body)))
	}
	done := await(secs(3), func() bool { return atomic.LoadInt32(&finished) == 1 })
	if atomic.LoadInt32(&entered) == 0 {
		vp.Assert(false, "called")
		s.stop()
		return
	}
	vp.Assert(done, "call-comes-back")
	vp.Cover("came-back")
	if calls[which].name != "disable" {
		s.settled() // the link is alive
		vp.Cover("alive")
	}
	s.stop()
}

// HHostReentry: the same for a host's endpoint.
func HHostReentry() {
	var s *station
	var calls []deed
	place := vp.Choose("place", 6)
	armed := false
	entered, finished := int32(0), int32(0)
	which := 0
	inside := func(p int) {
		if p == place && armed && atomic.AddInt32(&entered, 1) == 1 {
			calls[which].do()
			atomic.StoreInt32(&finished, 1)
		}
	}
	s = host(func(g *gem.GemHandler) {
		heard := func(p int) func(map[string]interface{}) {
			return func(map[string]interface{}) { inside(p) }
		}
		g.Events().AlarmReceived.AddCallback(heard(0))
		g.Events().EventReportReceived.AddCallback(heard(1))
		g.Events().S9ErrorReceived.AddCallback(heard(2))
		g.RegisterStreamFunctionHandler(99, 1, func(*ast.DataMessage) (*ast.DataMessage, error) {
			inside(3)
			return ast.NewDataMessage("", 99, 2, 0, "H->E", ast.NewEmptyItemNode()), nil
		})
		g.RegisterDefaultStreamHandler(func(*ast.DataMessage) (*ast.DataMessage, error) {
			inside(4)
			return nil, nil
		})
		g.Events().HandlerCommunicating.AddCallback(heard(5))
	})
	for _, d := range s.hostCalls() {
		if d.name != "request" && d.name != "alarm-lists" { // these wait for a reply
			calls = append(calls, d)
		}
	}
	calls = append(calls, deed{"disable", func() { s.g.Disable() }})
	which = vp.Choose("deed", len(calls))
	if place == 5 {
		armed = true
		s.serve()
	} else {
		s.establish()
		armed = true
		m := []struct {
			s, f int
			body Item
		}{
			{5, 1, list(Item{K: kB, V: []uint64{0x80}}, num(kU4, 1), text("hot"))},
			{6, 11, list(num(kU4, 1), num(kU4, 1), list(list(num(kU4, 1), list(num(kU1, 1)))))},
			{9, 7, Item{K: kB, V: make([]uint64, 10)}}, {99, 1, Item{K: kNone}}, {98, 1, Item{K: kNone}},
		}[place]
		s.p.send(data(gemSession, m.s, m.f, m.s != 9, []byte{0xEE, 0, 0, 1}, refEncode(m.body)))
	}
	vp.Assert(await(secs(3), func() bool { return atomic.LoadInt32(&finished) == 1 }), "call-comes-back")
	vp.Cover("came-back")
	if calls[which].name != "disable" {
		s.settled() // the link is alive
		vp.Cover("alive")
	}
	s.stop()
}

// HSessionReentry: a close callback may itself use its session, others, their manager and channel.
func HSessionReentry() {
	m := link.NewManager()
	ch := link.NewChannel()
	s := m.NewSession(&nopCodec{}, vp.Param("queue"))
	other := m.NewSession(&nopCodec{}, vp.Param("queue"))
	ch.Put("s", s)
	ch.Put("other", other)
	op := vp.Choose("op", 11)
	done, last := int32(0), int32(0)
	h := &struct{ x int }{}
	s.AddCloseCallback(h, 1, func() {
		switch op {
		case 0:
			vp.Assert(s.Close() != nil, "closes-once")
		case 1:
			s.AddCloseCallback(h, 3, func() {})
		case 2:
			s.RemoveCloseCallback(h, 1)
		case 3:
			vp.Assert(s.Send(1) != nil, "closed-refuses")
		case 4:
			m.GetSession(s.ID())
		case 5:
			vp.Assert(!m.NewSession(&nopCodec{}, 0).IsClosed(), "new-session")
		case 6:
			ch.Remove("s")
		case 7:
			ch.Put("s", other)
		case 8:
			ch.Len()
			ch.Get("other")
			ch.Fetch(func(x *link.Session) { x.Send(2) })
		case 9:
			other.Close()
		case 10:
			ch.FetchAndRemove(func(x *link.Session) { x.Close() })
		}
		atomic.StoreInt32(&done, 1)
	})
	s.AddCloseCallback(h, 2, func() { atomic.StoreInt32(&last, 1) })
	s.Close()
	settle()
	vp.Assert(atomic.LoadInt32(&done) == 1, "call-comes-back")
	vp.Assert(atomic.LoadInt32(&last) == 1, "other-callbacks-run")
	vp.Assert(m.GetSession(s.ID()) == nil, "manager-forgets")
	vp.Assert(ch.Get("s") == nil || op == 7 && ch.Get("s") == other, "channel-forgets")
	vp.Assert(other.IsClosed() == (op == 9 || op == 10), "others-untouched")
	m.Dispose()
	vp.Assert(other.IsClosed(), "disposed")
	vp.Cover("came-back")
}
