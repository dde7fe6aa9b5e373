package h

import (
	"errors"
	"sync"
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// HRegister: what is registered under any identifiers is served, each once and in order.
func HRegister() {
	kind := vp.Choose("registry", 5)
	type entry struct {
		id   ident
		ok   bool
		body string
	}
	var all []entry
	name := func(i int) string { return "n" + string(rune('0'+i)) }
	s := equipment(func(g *gem.GemHandler) {
		n := vp.Param("n")
		for i := 0; i < n; i++ {
			raw, id, ok := genRaw("id", vp.Param("ids"))
			var err error
			switch kind {
			case 0:
				var x *gem.StatusVariable
				if x, err = gem.NewStatusVariable(raw, name(i), "u", gem.WithStatusValue(ast.NewUintNode(1, i))); err == nil {
					err = g.RegisterStatusVariable(x)
				}
			case 1:
				var x *gem.EquipmentConstant
				if x, err = gem.NewEquipmentConstant(raw, name(i), ast.NewUintNode(1, i)); err == nil {
					err = g.RegisterEquipmentConstant(x)
				}
			case 2:
				var x *gem.DataVariable
				if x, err = gem.NewDataVariable(raw, name(i), gem.WithDataValue(ast.NewUintNode(1, i))); err == nil {
					err = g.RegisterDataVariable(x)
				}
			case 3:
				var x *gem.CollectionEvent
				if x, err = gem.NewCollectionEvent(raw, name(i)); err == nil {
					err = g.RegisterCollectionEvent(x)
				}
			case 4:
				err = g.RegisterProcessProgram(raw, name(i))
			}
			if !ok {
				vp.Cover("no-identifier")
				vp.Assert(err != nil, "no-identifier-refused")
				continue
			}
			same := -1
			for j, e := range all {
				if e.id.is(id) {
					same = j
				}
			}
			if same >= 0 && kind == 4 { // a program replaces the one before
				vp.Assert(err == nil, "program-replaced")
				all[same].body = name(i)
				vp.Cover("replaced")
				continue
			}
			if same >= 0 {
				vp.Cover("repeated")
				vp.Assert(err != nil, "repeated-identifier-refused")
				continue
			}
			vp.Assert(err == nil, "registered")
			all = append(all, entry{id, true, name(i)})
		}
		if kind == 2 || kind == 3 { // to report the variables with
			c, _ := gem.NewCollectionEvent("event", "")
			v, _ := gem.NewDataVariable("v", "", gem.WithDataValue(ast.NewUintNode(1, 1)))
			vp.Assert(g.RegisterCollectionEvent(c) == nil && g.RegisterDataVariable(v) == nil, "event-registered")
		}
	})
	s.establish()
	vp.Cover("served")
	req := list()
	for _, e := range all {
		v := num(kU8, e.id.n)
		if !e.id.num {
			v = text(e.id.s)
		}
		req.L = append(req.L, v)
	}
	switch kind {
	case 0:
		got := s.ask(1, 11, list())
		vp.Assert(got.K == kL && len(got.L) == len(all), "all-listed")
		for i := 0; i < len(got.L) && i < len(all); i++ {
			x := got.L[i]
			vp.Assert(x.K == kL && len(x.L) == 3 && isID(x.L[0], all[i].id) && eqItem(x.L[1], text(all[i].body)) && eqItem(x.L[2], text("u")), "listed-as-registered")
		}
		if len(all) > 0 {
			got = s.ask(1, 3, req)
			vp.Assert(got.K == kL && len(got.L) == len(all), "all-served")
			for i := 0; i < len(got.L) && i < len(all); i++ {
				vp.Assert(eqItem(got.L[i], num(kU1, uint64(all[i].body[1]-'0'))), "served-as-registered")
			}
		}
	case 1:
		got := s.ask(2, 29, list())
		vp.Assert(got.K == kL && len(got.L) == len(all), "all-listed")
		for i := 0; i < len(got.L) && i < len(all); i++ {
			x := got.L[i]
			vp.Assert(x.K == kL && len(x.L) == 6 && isID(x.L[0], all[i].id) && eqItem(x.L[1], text(all[i].body)), "listed-as-registered")
		}
		if len(all) > 0 {
			got = s.ask(2, 13, req)
			vp.Assert(got.K == kL && len(got.L) == len(all), "all-served")
			for i := 0; i < len(got.L) && i < len(all); i++ {
				vp.Assert(eqItem(got.L[i], num(kU1, uint64(all[i].body[1]-'0'))), "served-as-registered")
			}
		}
	case 2:
		ack := s.ask(2, 33, list(num(kU4, 1), list(list(num(kU4, 1), req))))
		vp.Assert(ackOf(ack) == 0, "report-defined")
		if len(all) > 0 {
			ack = s.ask(2, 35, list(num(kU4, 1), list(list(text("event"), list(num(kU4, 1))))))
			vp.Assert(ackOf(ack) == 0, "report-linked")
			got := s.ask(6, 15, text("event"))
			ok := got.K == kL && len(got.L) == 3 && got.L[2].K == kL && len(got.L[2].L) == 1 && got.L[2].L[0].K == kL && len(got.L[2].L[0].L) == 2
			vp.Assert(ok, "all-served")
			if ok {
				vs := got.L[2].L[0].L[1]
				vp.Assert(vs.K == kL && len(vs.L) == len(all), "all-served")
				for i := 0; i < len(vs.L) && i < len(all); i++ {
					vp.Assert(eqItem(vs.L[i], num(kU1, uint64(all[i].body[1]-'0'))), "served-as-registered")
				}
			}
		}
	case 3:
		vp.Assert(ackOf(s.ask(2, 33, list(num(kU4, 1), list(list(num(kU4, 1), list(text("v"))))))) == 0, "report-defined")
		for i, v := range req.L {
			vp.Assert(ackOf(s.ask(2, 35, list(num(kU4, 1), list(list(v, list(num(kU4, 1))))))) == 0, "event-known")
			vp.Assert(ackOf(s.ask(2, 37, list(Item{K: kBool, V: []uint64{1}}, list(v)))) == 0, "event-known")
			got := s.ask(6, 15, v)
			vp.Assert(got.K == kL && len(got.L) == 3 && isID(got.L[1], all[i].id), "served-as-registered")
		}
	case 4:
		ps := s.g.ListProcessPrograms()
		vp.Assert(len(ps) == len(all), "all-listed")
		for i := range ps {
			n := 0
			for _, e := range all {
				if names(ps[i].ID(), e.id) {
					n++
					vp.Assert(ps[i].Body == e.body, "listed-as-registered")
				}
			}
			vp.Assert(n == 1, "listed-as-registered")
		}
		for i, e := range all {
			got := s.ask(7, 5, req.L[i])
			vp.Assert(got.K == kL && len(got.L) >= 2 && isID(got.L[0], e.id) && eqItem(got.L[1], text(e.body)), "served-as-registered")
		}
	}
	s.stop()
}

// HRoles: an endpoint refuses what belongs to the other role, and what needs communication before there is any.
func HRoles() {
	equip := vp.Bool("equipment")
	dev := gem.DeviceHost
	if equip {
		dev = gem.DeviceEquipment
	}
	s := gemEnd(gem.Options{DeviceType: dev}, func(g *gem.GemHandler) { g.RegisterAlarm(gem.Alarm{ID: 5, Text: "hot"}) })
	comm := vp.Bool("communicating")
	if comm {
		s.establish()
	}
	s.settled()
	g := s.g
	v, _ := gem.NewStatusVariable(1, "v", "")
	d, _ := gem.NewDataVariable(1, "d")
	c, _ := gem.NewEquipmentConstant(1, "c", ast.NewUintNode(1, 0))
	e, _ := gem.NewCollectionEvent(1, "e")
	var err error
	ours := false    // belongs to this role
	needs := true    // communication
	unknown := false // names nothing there is
	switch vp.Choose("call", 14) {
	case 0:
		err, ours, needs = g.RegisterStatusVariable(v), equip, false
	case 1:
		err, ours, needs = g.RegisterDataVariable(d), equip, false
	case 2:
		err, ours, needs = g.RegisterEquipmentConstant(c), equip, false
	case 3:
		err, ours, needs = g.RegisterCollectionEvent(e), equip, false
	case 4:
		err, ours, needs = g.RegisterProcessProgram("p", "x"), equip, false
	case 5:
		err, ours = g.RaiseAlarm(5, vp.Bool("set")), equip
	case 6:
		err, ours, unknown = g.RaiseAlarm(6, vp.Bool("set")), equip, true
	case 7:
		err, ours, unknown = g.ClearAlarm(6), equip, true
	case 8:
		err, ours = g.TriggerCollectionEvent(7), equip
	case 9:
		_, err = g.RequestStatusVariables(1)
		ours = !equip
	case 10:
		_, err = g.SendRemoteCommand("GO", nil)
		ours = !equip
	case 11:
		_, err = g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []interface{}{1}})
		ours = !equip
	case 12:
		_, err = g.UploadProcessProgram("p", "x")
		ours = !equip
	case 13:
		_, err = g.RequestCollectionEventReport(1)
		ours = !equip
	}
	fs := s.settled()
	n := 0
	for _, f := range fs {
		if !isHandshake(f) && !(f.h[2]&0x7f == 9) {
			n++
		}
	}
	switch {
	case !ours:
		vp.Cover("other-role")
		vp.Assert(err != nil, "refused-in-this-role")
		vp.Assert(errors.Is(err, gem.ErrOperationNotSupported), "refused-in-this-role")
		vp.Assert(n == 0, "nothing-sent")
	case needs && !comm:
		vp.Cover("not-communicating")
		vp.Assert(errors.Is(err, gem.ErrNotCommunicating), "refused-without-communication")
		vp.Assert(n == 0, "nothing-sent")
	case unknown:
		vp.Cover("unknown")
		vp.Assert(err != nil && n == 0, "unknown-refused")
	case !needs:
		vp.Assert(err == nil && n == 0, "registered")
	case equip:
		vp.Assert(err == nil, "done")
	}
	s.stop()
}

// HWaiters: waiting for communication ends when it is established, or when the time is up.
func HWaiters() {
	dev := gem.DeviceHost
	if vp.Bool("equipment") {
		dev = gem.DeviceEquipment
	}
	told := 0
	var mu sync.Mutex
	s := gemEnd(gem.Options{DeviceType: dev}, func(g *gem.GemHandler) {
		g.Events().HandlerCommunicating.AddCallback(func(map[string]interface{}) { mu.Lock(); told++; mu.Unlock() })
	})
	n := vp.Param("n")
	done := make([]int, n) // 0 waiting, 1 true, 2 false
	limit := make([]int, n)
	for i := 0; i < n; i++ {
		i := i
		limit[i] = vp.Choose("limit", 3) // none, one second, four seconds
		go func() {
			ok := s.g.WaitForCommunicating([]time.Duration{0, time.Second, secs(4)}[limit[i]])
			mu.Lock()
			defer mu.Unlock()
			done[i] = 2
			if ok {
				done[i] = 1
			}
		}()
	}
	late := vp.Param("early") == 0
	if late {
		settleFor(secs(2))
	}
	for i := 0; i < n && late; i++ {
		mu.Lock()
		vp.Assert((done[i] == 2) == (limit[i] == 1) && done[i] != 1, "waits-until-time-is-up")
		mu.Unlock()
	}
	s.p.serving(true)
	s.p.send(data(gemSession, 1, 13, true, []byte{0xDD, 1, 1, 1}, refEncode(list())))
	ok := await(secs(1), func() bool { return s.g.State() == gem.CommunicationStateCommunicating })
	vp.Assert(ok, "communicating")
	settleFor(quiet())
	mu.Lock()
	for i := 0; i < n; i++ {
		if limit[i] != 1 || !late {
			vp.Assert(done[i] == 1, "told-of-communication")
		} else {
			vp.Assert(done[i] == 2, "waits-until-time-is-up")
		}
	}
	vp.Assert(told == 1, "told-once")
	mu.Unlock()
	vp.Assert(s.g.WaitForCommunicating(0), "no-wait-when-communicating")
	vp.Cover("told")
	if vp.Bool("again") { // lost and established anew
		s.p.c.Close()
		vp.Assert(await(secs(3), func() bool { return s.g.State() != gem.CommunicationStateCommunicating }), "loss-noticed")
		vp.Assert(!s.g.WaitForCommunicating(10*time.Millisecond), "not-communicating-after-loss")
		s.connect()
		s.p.serving(true)
		s.p.send(data(gemSession, 1, 13, true, []byte{0xDD, 1, 1, 2}, refEncode(list())))
		vp.Assert(s.g.WaitForCommunicating(secs(3)), "communicating-again")
		settleFor(quiet())
		mu.Lock()
		vp.Assert(told == 2, "told-once")
		mu.Unlock()
		vp.Cover("again")
	}
	s.stop()
}
