package h

import (
	"fmt"
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// itemOf reads an item node through its encoding (checked elsewhere).
func itemOf(n ast.ItemNode) Item {
	b := ast.NewDataMessage("", 1, 1, 0, "H->E", n).SetSessionIDAndSystemBytes(0, []byte{0, 0, 0, 0}).ToBytes()
	if len(b) <= 14 {
		return Item{K: kNone}
	}
	it, _, ok := refDecode(b[14:])
	vp.Assert(ok, "item-encodes")
	return it
}

// sameRaw compares an identifier handed to an application with the one sent.
func sameRaw(raw interface{}, id ident) bool {
	switch x := raw.(type) {
	case uint64:
		return id.num && x == id.n
	case string:
		return !id.num && x == id.s
	}
	return false
}

// during runs a call of the host and returns the request it sends; reply answers it (unless function is
// negative) and waits for the call to return.
func (s *station) during(call func()) (req frame, ok bool, reply func(function int, body []byte)) {
	done := make(chan struct{})
	go func() {
		call()
		close(done)
	}()
	for {
		req, ok = s.p.recv(500 * time.Millisecond)
		if !ok || req.stype() == sData && !isHandshake(req) {
			break
		}
		s.p.own = append(s.p.own, req)
	}
	return req, ok, func(function int, body []byte) {
		if function >= 0 {
			s.p.send(data(gemSession, int(req.h[2]&0x7f), function, false, req.sys(), body))
		}
		select {
		case <-done:
		case <-time.After(4 * time.Second):
			vp.Assert(false, "call-returns")
			vp.End()
		}
	}
}

// bodyOf is the item a frame carries.
func bodyOf(f frame) Item {
	if len(f.body) == 0 {
		return Item{K: kNone}
	}
	it, n, ok := refDecode(f.body)
	vp.Assert(ok && n == len(f.body), "well-formed")
	return it
}

// isPrimary tells whether a frame is a primary that wants an answer.
func isPrimary(f frame, stream, function int) bool {
	return eqBytes(f.h[:6], []byte{0, gemSession, byte(stream) | 0x80, byte(function), 0, 0})
}

// HCommand: the equipment's side of remote commands.
func HCommand() {
	var got []gem.RemoteCommandRequest
	var res gem.RemoteCommandResult
	var err error
	handled := vp.Choose("handler", 2) == 1
	s := equipment(func(g *gem.GemHandler) {
		if handled {
			g.SetRemoteCommandHandler(func(r gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
				got = append(got, r)
				return res, err
			})
		}
	})
	s.establish()
	for step := vp.Param("steps"); step > 0; step-- {
		got = nil
		rcmd := genID("rcmd")
		cmd, ok := identOf(rcmd)
		params := list()
		var names []ident
		var values []Item
		for i := vp.Choose("parameters", vp.Param("n")+1); i > 0; i-- {
			if c := vp.Choose("parameter", vp.Param("malformed")*4+1); c > 0 {
				params.L = append(params.L, []Item{num(kU4, 9), list(), list(genBad("cpname"), num(kU4, 1)), text("x")}[c-1])
				ok = false
				continue
			}
			n := genID("cpname")
			id, good := identOf(n)
			ok = ok && good
			v := genItem("cpval", vp.Param("depth"), vp.Param("width"))
			params.L = append(params.L, list(n, v))
			names = append(names, id)
			values = append(values, v)
		}
		msg := list(rcmd, params)
		if vp.Param("malformed") == 1 {
			switch vp.Choose("message", 4) {
			case 1:
				msg, ok = list(), false
			case 2:
				msg, ok = list(genBad("rcmd"), params), false
			case 3:
				msg, ok = list(rcmd, num(kU4, 1)), false
			}
		}
		// what the handler is to answer
		hcack := byte(vp.Int("hcack", 0, 6))
		res = gem.RemoteCommandResult{HCACK: gem.HCACKCode(hcack)}
		err = nil
		acks, n := list(), 0
		if ok && handled {
			if vp.Choose("error", 2) == 1 {
				err = errBroken
			}
			n = vp.Choose("acks", vp.Param("n")+1)
		}
		for i := n; i > 0; i-- {
			a := byte(vp.Int("cpack", 1, 63))
			id := []ident{{s: "P"}, {num: true, n: uint64(vp.U32("acked"))}}[vp.Choose("acked", 2)]
			var raw interface{} = id.s
			if id.num {
				raw = id.n
			}
			res.ParameterAcks = append(res.ParameterAcks, gem.RemoteCommandParameterAck{Name: raw, Ack: gem.CPACKCode(a)})
			acks.L = append(acks.L, list(num(kNone, 0), num(kB, uint64(a))))
			acks.L[len(acks.L)-1].L[0] = id.as(kU4)
		}
		ans := s.ask(2, 41, msg)
		if !ok || !handled {
			vp.Assert(ackOf(ans) > 0, "refused")
			vp.Assert(len(got) == 0, "nothing-run")
			if !ok {
				vp.Cover("malformed")
			} else {
				vp.Cover("no-handler")
			}
			continue
		}
		vp.Assert(len(got) == 1, "handler-called-once")
		if len(got) != 1 {
			vp.End()
		}
		r := got[0]
		vp.Assert(sameRaw(r.CommandID, cmd), "command")
		if cmd.num {
			vp.Assert(r.Command == fmt.Sprint(cmd.n), "command-name")
		} else {
			vp.Assert(r.Command == cmd.s, "command-name")
		}
		vp.Assert(len(r.Parameters) == len(names), "all-parameters")
		for i := 0; i < len(names) && i < len(r.Parameters); i++ {
			p := r.Parameters[i]
			vp.Assert(sameRaw(p.Identifier, names[i]), "parameter-name")
			if names[i].num {
				vp.Assert(p.Name == fmt.Sprint(names[i].n), "parameter-name")
			} else {
				vp.Assert(p.Name == names[i].s, "parameter-name")
			}
			vp.Assert(eqItem(itemOf(p.Value), values[i]), "parameter-value")
		}
		good := ans.K == kL && len(ans.L) == 2 && ans.L[1].K == kL && len(ans.L[1].L) == len(acks.L)
		vp.Assert(good, "acknowledge-of-two")
		if !good {
			vp.End()
		}
		if err == nil {
			vp.Assert(ackOf(ans) == int(hcack), "acknowledge")
			vp.Cover("acknowledged")
		} else {
			vp.Assert(ackOf(ans) > 0 && vp.Or(hcack == 0, ackOf(ans) == int(hcack)), "acknowledge-of-error")
			vp.Cover("failed")
		}
		for i, a := range acks.L {
			x := ans.L[1].L[i]
			good := x.K == kL && len(x.L) == 2
			vp.Assert(good, "parameter-acknowledge")
			if good {
				id, _ := identOf(a.L[0])
				vp.Assert(isID(x.L[0], id) && eqItem(x.L[1], a.L[1]), "parameter-acknowledge")
			}
		}
	}
	s.settled()
	s.stop()
}

// signed and unsigned tell whether an item is one integer of the value.
func isSigned(it Item, v int64) bool {
	return it.K >= kI1 && it.K <= kI8 && len(it.V) == 1 && sext(it.V[0], it.K) == v
}

func isUnsigned(it Item, v uint64) bool {
	return it.K >= kU1 && it.K <= kU8 && len(it.V) == 1 && it.V[0] == v
}

// genValue draws an application value; fits tells whether an item of the message is it.
func genValue(name string, kinds int) (v interface{}, ok bool, fits func(Item) bool) {
	switch c := vp.Choose(name+".go", kinds); c {
	case 0:
		s := vp.String(name, 2)
		ok = vp.And(s[0] < 0x80, s[1] < 0x80)
		return s, ok, func(it Item) bool { return eqItem(it, text(s)) }
	case 1:
		x := vp.Int(name, -1<<62, 1<<62)
		return x, true, func(it Item) bool { return isSigned(it, int64(x)) }
	case 2:
		n := genItem(name, 1, 1)
		return node(n), true, func(it Item) bool { return eqItem(it, n) }
	case 3:
		return nil, true, isEmpty
	case 4:
		b := vp.Bytes(name, 2)
		return b, true, func(it Item) bool { return eqItem(it, Item{K: kB, V: []uint64{uint64(b[0]), uint64(b[1])}}) }
	case 5:
		x := vp.Bool(name)
		return x, true, func(it Item) bool { return it.K == kBool && len(it.V) == 1 && (it.V[0] != 0) == x }
	case 6:
		x := vp.U64(name)
		return x, true, func(it Item) bool { return isUnsigned(it, x) }
	case 7:
		x := vp.U32(name)
		return x, true, func(it Item) bool { return isUnsigned(it, uint64(x)) }
	case 8:
		x := vp.U16(name)
		return x, true, func(it Item) bool { return isUnsigned(it, uint64(x)) }
	case 9:
		x := vp.Byte(name)
		return x, true, func(it Item) bool { return isUnsigned(it, uint64(x)) }
	case 10:
		x := int8(vp.Byte(name))
		return x, true, func(it Item) bool { return isSigned(it, int64(x)) }
	case 11:
		x := int16(vp.U16(name))
		return x, true, func(it Item) bool { return isSigned(it, int64(x)) }
	case 12:
		x := int32(vp.U32(name))
		return x, true, func(it Item) bool { return isSigned(it, int64(x)) }
	case 13:
		x := int64(vp.U64(name))
		return x, true, func(it Item) bool { return isSigned(it, x) }
	case 14:
		x := uint(vp.U64(name))
		return x, true, func(it Item) bool { return isUnsigned(it, uint64(x)) }
	}
	return struct{}{}, false, nil
}

// genRaw draws an identifier as an application gives it.
func genRaw(name string, kinds int) (raw interface{}, id ident, ok bool) {
	switch vp.Choose(name+".go", kinds) {
	case 0:
		v := vp.Int(name, -2, 1<<40)
		return v, ident{num: true, n: uint64(v)}, v >= 0
	case 1:
		v := vp.String(name, 2)
		return v, ident{s: v}, vp.And(v[0] < 0x80, v[1] < 0x80)
	case 2:
		v := vp.U64(name)
		return v, ident{num: true, n: v}, true
	case 3:
		v := vp.Byte(name)
		return v, ident{num: true, n: uint64(v)}, true
	case 4:
		v := int32(vp.U32(name))
		return v, ident{num: true, n: uint64(v)}, v >= 0
	case 5:
		v := vp.U32(name)
		return v, ident{num: true, n: uint64(v)}, true
	}
	return 1.5, ident{}, false
}

// HCommandHost: the host's side of remote commands.
func HCommandHost() {
	s := host(nil)
	s.establish()
	vary := vp.Choose("vary", 2) // the request or the answer
	ids, n := vp.Param("ids"), 0
	if vary == 0 {
		n = vp.Choose("parameters", vp.Param("n")+1)
	} else {
		ids = 1
	}
	cmd, cid, ok := genRaw("rcmd", ids)
	var ps []gem.RemoteCommandParameterValue
	var names []ident
	var fits []func(Item) bool
	for i := n; i > 0; i-- {
		n, id, good := genRaw("cpname", ids)
		v, fine, fit := genValue("cpval", vp.Param("values"))
		ok = ok && good && fine
		ps = append(ps, gem.RemoteCommandParameterValue{Name: n, Value: v})
		names = append(names, id)
		fits = append(fits, fit)
	}
	var res gem.RemoteCommandResult
	var err error
	req, sent, reply := s.during(func() { res, err = s.g.SendRemoteCommand(cmd, ps) })
	if !ok {
		reply(-1, nil)
		vp.Assert(err != nil && !sent, "refused")
		vp.Cover("refused")
		s.stop()
		return
	}
	vp.Assert(sent && isPrimary(req, 2, 41), "command-sent")
	if !sent {
		vp.End()
	}
	b := bodyOf(req)
	good := b.K == kL && len(b.L) == 2 && b.L[1].K == kL && len(b.L[1].L) == len(names)
	vp.Assert(good, "command-and-parameters")
	if !good {
		vp.End()
	}
	vp.Assert(isID(b.L[0], cid), "command")
	for i := range names {
		p := b.L[1].L[i]
		good := p.K == kL && len(p.L) == 2
		vp.Assert(good, "parameter")
		if good {
			vp.Assert(isID(p.L[0], names[i]), "parameter-name")
			vp.Assert(fits[i](p.L[1]), "parameter-value")
		}
	}
	// the answer
	hcack := byte(vp.Int("hcack", 0, 6))
	acks := list()
	var acked []ident
	var codes []byte
	fine := true
	n, shape := 0, 0
	if vary == 1 {
		shape = vp.Choose("answer", 6)
	}
	if vary == 1 && shape < 2 {
		n = vp.Choose("acks", vp.Param("n")+1)
	}
	for i := n; i > 0; i-- {
		a := byte(vp.Int("cpack", 1, 63))
		n := genID("acked")
		id, good := identOf(n)
		fine = fine && good
		acked = append(acked, id)
		codes = append(codes, a)
		switch vp.Choose("ack", 5) {
		case 0:
			acks.L = append(acks.L, list(n, num(kB, uint64(a))))
		case 1:
			acks.L = append(acks.L, list(n))
			fine = false
		case 2:
			acks.L = append(acks.L, list(n, num(kU1, uint64(a))))
			fine = false
		case 3:
			acks.L = append(acks.L, list(genBad("acked"), num(kB, uint64(a))))
			fine = false
		default:
			acks.L = append(acks.L, n)
			fine = false
		}
	}
	ans, function := list(num(kB, uint64(hcack)), acks), 42
	switch shape {
	case 1:
		ans, fine = list(num(kU1, 0), acks), false
	case 2:
		ans, fine = list(num(kB, uint64(hcack)), num(kU1, 1)), false
	case 3:
		ans, fine = list(Item{K: kB}, acks), false
	case 4:
		function, ans, fine = 0, Item{K: kNone}, false
	case 5:
		function, fine = -1, false
	}
	reply(function, refEncode(ans))
	if !fine {
		vp.Assert(err != nil, "malformed-answer-reported")
		vp.Cover("malformed")
		s.stop()
		return
	}
	vp.Cover("acknowledged")
	vp.Assert(err == nil, "no-error")
	vp.Assert(byte(res.HCACK) == hcack, "acknowledge")
	vp.Assert(len(res.ParameterAcks) == len(acked), "all-parameter-acknowledges")
	for i := 0; i < len(acked) && i < len(res.ParameterAcks); i++ {
		vp.Assert(sameRaw(res.ParameterAcks[i].Name, acked[i]), "acknowledged-name")
		vp.Assert(byte(res.ParameterAcks[i].Ack) == codes[i], "parameter-acknowledge")
	}
	s.stop()
}

type alarm struct {
	id           ident
	text         string
	set, enabled bool
}

// alarmsAsListed compares an S5F6 or S5F8 with the alarms, which are ordered by id.
func alarmsAsListed(got Item, all []alarm, onlyEnabled bool) {
	i := 0
	if got.K != kL {
		vp.Assert(false, "alarm-list")
		return
	}
	for _, a := range all {
		if onlyEnabled && !a.enabled {
			continue
		}
		ok := i < len(got.L) && got.L[i].K == kL && len(got.L[i].L) == 3
		vp.Assert(ok, "alarm-listed")
		if !ok {
			return
		}
		e := got.L[i]
		code := e.L[0].K == kB && len(e.L[0].V) == 1
		vp.Assert(code && (e.L[0].V[0]&0x80 != 0) == a.set && (e.L[0].V[0]&0x40 != 0) == a.enabled, "alarm-code")
		vp.Assert(isID(e.L[1], a.id), "alarm-id")
		vp.Assert(eqItem(e.L[2], text(a.text)), "alarm-text")
		i++
	}
	vp.Assert(i == len(got.L), "only-those-listed")
}

// HAlarms: the equipment's alarms.
func HAlarms() {
	var low, high int
	if vp.Param("ids") == 1 {
		low = vp.Int("id", 0, 1<<33)
		high = low + 1 + vp.Choose("gap", 2)*70000
	} else {
		low = vp.Int("id", 300, 60000)
		high = low + 70000
	}
	txt := vp.String("text", 2)
	vp.Assume(vp.And(txt[0] < 0x80, txt[1] < 0x80))
	all := []alarm{{id: ident{num: true, n: uint64(low)}, text: txt, enabled: true}, {id: ident{num: true, n: uint64(high)}, text: "b", enabled: true}}
	prior := vp.Choose("prior", vp.Param("priors")) // 1: the first is set, 2: and disabled, 3: both are set, the first is disabled
	all[0].set, all[1].set = prior > 0, prior == 3
	s := equipment(func(g *gem.GemHandler) {
		g.RegisterAlarm(gem.Alarm{ID: high, Text: "b", Set: prior == 3})
		g.RegisterAlarm(gem.Alarm{ID: low, Text: txt, Set: prior > 0})
		if prior > 1 {
			vp.Assert(g.DisableAlarm(low) == nil, "known-alarm")
			all[0].enabled = false
		}
	})
	s.establish()
	s.settled()
	for step := vp.Param("steps"); step > 0; step-- {
		switch vp.Choose("step", 4) {
		case 0: // S5F3
			aled := uint64(0x80)
			if vp.Choose("disable", 2) == 1 {
				aled = 0
			}
			next := append([]alarm{}, all...)
			ents := list()
			ok := true
			for i := vp.Choose("n", vp.Param("n")+1); i > 0; i-- {
				switch c := vp.Choose("which", 4); c {
				case 0, 1:
					ents.L = append(ents.L, num(kU8, all[c].id.n))
					next[c].enabled = aled != 0
				case 2:
					k := []int{kU4, kI8, kU1, kU8, kI2}[vp.Choose("kind", vp.Param("kinds"))]
					it := Item{K: k, V: vals("alid", k, 1)}
					id, good := identOf(it)
					ents.L = append(ents.L, it)
					hit := false
					for j := range all {
						if good && id.is(all[j].id) {
							next[j].enabled = aled != 0
							hit = true
						}
					}
					ok = ok && hit
				default:
					ents.L = append(ents.L, []Item{genBad("alid"), text("x")}[vp.Choose("malformed", 2)])
					ok = false
				}
			}
			ack := ackOf(s.ask(5, 3, list(num(kB, aled), ents)))
			vp.Assert((ack == 0) == ok && ack >= 0, "acknowledge")
			if ok {
				all = next
				vp.Cover("switched")
			} else {
				vp.Cover("refused")
			}
		case 1: // malformed
			msg := []Item{list(), num(kB, 128), list(num(kB, 0)), list(num(kU1, 0), list()), list(num(kB, 0), num(kU4, all[0].id.n&0xffff)), list(Item{K: kB}, list())}[vp.Choose("shape", 6)]
			vp.Assert(ackOf(s.ask(5, 3, msg)) > 0, "malformed-refused")
		case 2: // raised or cleared
			c := vp.Choose("which", 3)
			set := vp.Choose("set", 2) == 1
			id := vp.Int("unknown", 0, 1<<33)
			if c < 2 {
				id = int(all[c].id.n)
			}
			known := c < 2 || id == low || id == high
			if c == 2 && known {
				vp.End()
			}
			var err error
			if set {
				err = s.g.RaiseAlarm(id, true)
			} else {
				err = s.g.ClearAlarm(id)
			}
			vp.Assert((err == nil) == known, "known-alarm")
			if known {
				all[c].set = set
			}
			time.Sleep(quiet() / 4)
			sent := s.settled()
			if !known || !all[c].enabled {
				vp.Assert(len(sent) == 0, "not-reported")
				vp.Cover("not-reported")
				break
			}
			vp.Cover("reported")
			vp.Assert(len(sent) == 1, "reported-once")
			if len(sent) != 1 {
				break
			}
			f := sent[0]
			vp.Assert(f.stype() == sData && f.h[2]&0x7f == 5 && f.h[3] == 1, "alarm-report")
			b := bodyOf(f)
			ok := b.K == kL && len(b.L) == 3
			vp.Assert(ok, "alarm-report")
			if ok {
				code := b.L[0].K == kB && len(b.L[0].V) == 1
				vp.Assert(code && (b.L[0].V[0] != 0) == set, "alarm-code")
				vp.Assert(isID(b.L[1], all[c].id), "alarm-id")
				vp.Assert(eqItem(b.L[2], text(all[c].text)), "alarm-text")
			}
		default: // by the application
			c := vp.Choose("which", 2)
			all[c].enabled = vp.Choose("enable", 2) == 1
			var err error
			if all[c].enabled {
				err = s.g.EnableAlarm(int(all[c].id.n))
			} else {
				err = s.g.DisableAlarm(int(all[c].id.n))
			}
			vp.Assert(err == nil, "known-alarm")
		}
	}
	alarmsAsListed(s.ask(5, 5, list()), all, false)
	alarmsAsListed(s.ask(5, 7, list()), all, true)
	s.settled()
	s.stop()
}

// HAlarmHost: the host is told of alarms as they were sent.
func HAlarmHost() {
	var got []gem.AlarmEvent
	s := host(func(g *gem.GemHandler) {
		g.Events().AlarmReceived.AddCallback(func(d map[string]interface{}) {
			if a, ok := d["alarm"].(gem.AlarmEvent); ok {
				got = append(got, a)
			}
		})
	})
	s.establish()
	alcd := vp.Byte("alcd")
	k := []int{kU2, kU4, kU8, kI4, kI8, kU1}[vp.Choose("kind", 6)]
	alid := Item{K: k, V: vals("alid", k, 1)}
	altx := Item{K: kA, V: vals("text", kA, vp.Choose("len", 3))}
	id, ok := identOf(alid)
	msg := list(num(kB, uint64(alcd)), alid, altx)
	switch vp.Choose("shape", 6) {
	case 1:
		msg, ok = list(num(kB, 1)), false
	case 2:
		msg, ok = list(num(kU1, 1), alid, altx), false
	case 3:
		msg, ok = list(num(kB, 1), []Item{genBad("alid"), text("x")}[vp.Choose("malformed", 2)], altx), false
	case 4:
		msg, ok = list(Item{K: kB}, alid, altx), false
	case 5:
		msg, ok = Item{K: kNone}, false
	}
	ok = ok && id.n < 1<<63
	if vp.Choose("wait", 2) == 1 {
		ack := ackOf(s.ask(5, 1, msg))
		vp.Assert(ack >= 0, "acknowledge")
		if ok {
			vp.Assert(ack == 0, "accepted")
		}
	} else {
		s.p.send(data(gemSession, 5, 1, false, []byte{0xCE, 0, 0, 1}, refEncode(msg)))
	}
	s.settled()
	if !ok {
		vp.Assert(len(got) == 0, "nothing-told")
		vp.Cover("malformed")
	} else {
		vp.Assert(len(got) == 1, "told-once")
		if len(got) == 1 {
			vp.Assert(got[0].Set == (alcd != 0), "alarm-state")
			vp.Assert(uint64(got[0].ID) == id.n, "alarm-id")
			vp.Assert(eqItem(text(got[0].Text), altx), "alarm-text")
		}
		vp.Cover("told")
	}
	s.stop()
}
