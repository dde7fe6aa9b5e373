package h

import (
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
)

// requestOf makes a call of the endpoint that needs communication; n numbers the calls.
func (s *station) request(equipment bool, n int) error {
	var err error
	if equipment {
		switch n % 2 {
		case 0:
			err = s.g.RaiseAlarm(5, true)
		default:
			err = s.g.TriggerCollectionEvent(1)
		}
		return err
	}
	switch n % 16 {
	case 0:
		_, err = s.g.RequestStatusVariables(1)
	case 1:
		_, err = s.g.RequestStatusVariableInfo()
	case 2:
		_, err = s.g.RequestEquipmentConstants(1)
	case 3:
		_, err = s.g.RequestEquipmentConstantInfo()
	case 4:
		_, err = s.g.DefineReports(gem.ReportDefinitionRequest{ReportID: 1, VIDs: []interface{}{1}})
	case 5:
		_, err = s.g.LinkEventReports(gem.EventReportLinkRequest{CEID: 1, ReportIDs: []interface{}{1}})
	case 6:
		_, err = s.g.EnableEventReports(true)
	case 7:
		_, err = s.g.RequestCollectionEventReport(1)
	case 8:
		_, err = s.g.UploadProcessProgram(1, "x")
	case 9:
		_, _, err = s.g.RequestProcessProgram(1)
	case 10:
		_, err = s.g.SendEquipmentConstantValues([]gem.EquipmentConstantUpdate{{ID: 1, Value: node(num(kU1, 1))}})
	case 11:
		_, err = s.g.RequestDateTime()
	case 12:
		_, err = s.g.SetDateTime("2024010203040500")
	case 13:
		_, err = s.g.SendRemoteCommand("X", nil)
	case 14:
		_, err = s.g.SendEnableAlarm([]int{1}, true)
	default:
		if vp.Choose("list", 2) == 0 {
			_, err = s.g.RequestAlarmList()
		} else {
			_, err = s.g.RequestEnabledAlarmList()
		}
	}
	return err
}

// isHandshake tells S1F13 and S1F1 from other primaries.
func isHandshake(f frame) bool {
	return f.stype() == sData && f.h[2]&0x7f == 1 && (f.h[3] == 13 || f.h[3] == 1)
}

// HCommunication: any order of establishing and losing communication.
func HCommunication() {
	dev := []gem.DeviceType{gem.DeviceEquipment, gem.DeviceHost}[vp.Choose("device", 2)]
	equip := dev == gem.DeviceEquipment
	mdln, rev := vp.String("model", 2), "r1"
	for i := 0; i < len(mdln); i++ {
		vp.Assume(mdln[i] < 0x80)
	}
	s := gemEnd(gem.Options{DeviceType: dev, MDLN: mdln, SOFTREV: rev, EstablishCommunicationWait: time.Second}, func(g *gem.GemHandler) {
		if equip {
			g.RegisterAlarm(gem.Alarm{ID: 5, Text: "hot"})
		}
	})
	comm := false
	enabled := true
	check := func(label string) {
		vp.Assert((s.g.State() == gem.CommunicationStateCommunicating) == comm, label)
		vp.Assert(s.g.WaitForCommunicating(10*time.Millisecond) == comm, label)
	}
	check("not-yet")
	for i := vp.Param("steps"); i > 0; i-- {
		switch vp.Conc(vp.Int("step", 0, 6), 0, 6) {
		case 0: // answer the endpoint's S1F13
			if !enabled || comm {
				vp.End()
			}
			s.settled()
			var f frame
			for {
				var ok bool
				f, ok = s.p.recv(4 * time.Second)
				vp.Assert(ok, "asks-to-establish")
				if !ok {
					vp.End()
				}
				if isHandshake(f) && f.h[3] == 13 {
					break
				}
			}
			var ans frame
			ack := vp.Byte("commack")
			switch vp.Choose("answer", 7) {
			case 0:
				ans = data(gemSession, 1, 14, false, f.sys(), refEncode(list(num(kB, uint64(ack)), list())))
				comm = ack == 0
			case 1:
				ans = data(gemSession, 1, 14, false, f.sys(), refEncode(list(num(kB, uint64(ack)), list(text("M"), text("R")))))
				comm = ack == 0
			case 2:
				ans = data(gemSession, 1, 14, false, f.sys(), refEncode(list()))
			case 3:
				ans = data(gemSession, 1, 14, false, f.sys(), refEncode(list(Item{K: kB}, list())))
			case 4:
				ans = data(gemSession, 1, 14, false, f.sys(), refEncode(list(num(kU1, uint64(ack)), list())))
			case 5:
				ans = data(gemSession, 1, 0, false, f.sys(), nil)
			default:
				ans = data(gemSession, 2, 14, false, f.sys(), refEncode(list(num(kB, 0), list())))
			}
			s.p.send(ans)
			if comm {
				vp.Cover("accepted")
				await(time.Second, func() bool { return s.g.State() == gem.CommunicationStateCommunicating })
			} else {
				vp.Cover("denied")
				s.settled()
			}
		case 1: // the peer's S1F13
			if !enabled {
				vp.End()
			}
			body := list()
			if !equip {
				body = list(text("M"), text("R"))
			}
			got := s.ask(1, 13, body)
			want := list(num(kB, 0), list())
			if equip {
				want = list(num(kB, 0), list(text(mdln), text(rev)))
			}
			vp.Assert(eqItem(got, want), "establish-acknowledge")
			comm = true
			vp.Cover("established-by-peer")
		case 2: // an S1F14 nobody asked for denies
			if !enabled {
				vp.End()
			}
			ack := vp.Byte("commack")
			vp.Assume(ack != 0)
			s.p.send(data(gemSession, 1, 14, false, []byte{0xCC, 0, 0, byte(i)}, refEncode(list(num(kB, uint64(ack)), list()))))
			s.settled()
		case 3: // the link is lost and regained
			if !enabled {
				vp.End()
			}
			if vp.Choose("separate", 2) == 1 {
				s.p.send(control(gemSession, 0, 0, sSeparate, []byte{0xCC, 1, 0, byte(i)}))
				vp.Assert(s.p.awaitClosed(3*time.Second), "closes")
			}
			s.p.c.Close()
			comm = false
			vp.Cover("lost")
			if vp.Choose("check", 2) == 1 {
				await(time.Second, func() bool { return s.g.State() != gem.CommunicationStateCommunicating })
				check("not-without-link")
			}
			s.connect()
		case 4: // time passes; requests of the endpoint stay unanswered
			time.Sleep(1200 * time.Millisecond)
		case 5: // the application makes a request
			s.own()
			if !comm {
				for n := 0; n < 16; n++ {
					vp.Assert(s.request(equip, n) != nil, "request-refused")
				}
				if enabled {
					for _, f := range s.own() {
						vp.Assert(isHandshake(f), "nothing-sent")
					}
				}
				vp.Cover("request-refused")
				break
			}
			if equip {
				vp.Assert(s.request(true, 0) == nil, "request-sent")
			} else {
				go s.request(false, vp.Choose("request", 16))
				time.Sleep(quiet() / 4)
			}
			n := 0
			for _, f := range s.own() {
				if !isHandshake(f) {
					n++
				}
			}
			vp.Assert(n == 1, "request-sent")
			vp.Cover("request-sent")
			if !equip {
				time.Sleep(1200 * time.Millisecond)
				s.settled()
			}
		default:
			if !enabled {
				vp.End()
			}
			s.g.Disable()
			enabled, comm = false, false
			vp.Cover("disabled")
		}
		check("communicating-exactly-then")
	}
	if enabled {
		s.g.Disable()
	}
	time.Sleep(quiet())
	comm = false
	check("not-after-disable")
	s.p.c.Close()
}

// own collects the endpoint's primaries so far; the link need not be up.
func (s *station) own() []frame {
	var fs []frame
	for {
		f, ok := s.p.recv(quiet())
		if !ok {
			return fs
		}
		if f.stype() == sData && f.h[3]%2 == 1 && f.h[2]&0x7f != 9 {
			fs = append(fs, f)
		}
	}
}
