package h

import (
	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// names tells whether an application's identifier is the given one, whatever its Go type.
func names(raw interface{}, id ident) bool {
	n := uint64(0)
	switch x := raw.(type) {
	case string:
		return !id.num && x == id.s
	case int:
		n = uint64(x)
	case int8:
		n = uint64(x)
	case int16:
		n = uint64(x)
	case int32:
		n = uint64(x)
	case int64:
		n = uint64(x)
	case uint:
		n = uint64(x)
	case uint8:
		n = uint64(x)
	case uint16:
		n = uint64(x)
	case uint32:
		n = uint64(x)
	case uint64:
		n = x
	default:
		return false
	}
	return id.num && n == id.n
}

// isItem tells whether a node is the item (nil is no item).
func isItem(n ast.ItemNode, it Item) bool { return n != nil && eqItem(itemOf(n), it) }

// genIDs draws up to n identifiers as an application gives them.
func genIDs(name string, n, kinds int) (raws []interface{}, ids []ident, ok bool) {
	ok = true
	for i := vp.Choose(name+".n", n+1); i > 0; i-- {
		r, id, good := genRaw(name, kinds)
		raws, ids, ok = append(raws, r), append(ids, id), ok && good
	}
	return
}

// areIDs tells whether an item lists exactly the identifiers, in order.
func areIDs(it Item, ids []ident) bool {
	if it.K != kL || len(it.L) != len(ids) {
		return false
	}
	for i := range ids {
		if !isID(it.L[i], ids[i]) {
			return false
		}
	}
	return true
}

// genText draws a text item or one that is none (which is read as empty).
func genText(name string) (Item, string) {
	c := vp.Choose(name+".kind", 3)
	if c == 2 {
		return num(kU1, 5), ""
	}
	v := vals(name, kA, c)
	b := make([]byte, len(v))
	for i := range v {
		b[i] = byte(v[i])
	}
	return Item{K: kA, V: v}, string(b)
}

// genValueItem draws a reported value.
func genValueItem(name string) Item {
	switch vp.Choose(name+".kind", 5) {
	case 0:
		return num(kU4, uint64(vp.U32(name)))
	case 1:
		return Item{K: kA, V: vals(name, kA, vp.Choose(name+".len", 2))}
	case 2:
		return list()
	case 3:
		return list(num(kI2, uint64(vp.U16(name))), num(kBool, 1))
	}
	return Item{K: kB, V: vals(name, kB, 2)}
}

// notList draws a reply that is no list, or none at all.
func notList(function int) (Item, int) {
	switch vp.Choose("no-list", 5) {
	case 0:
		return Item{K: kNone}, function
	case 1:
		return text("x"), function
	case 2:
		return num(kU4, 3), function
	case 3:
		return Item{K: kNone}, 0
	}
	return list(), -1
}

// HRequestValues: S1F3 and S2F13.
func HRequestValues() {
	s := host(nil)
	s.establish()
	raws, ids, ok := genIDs("id", vp.Param("n"), vp.Param("ids"))
	ok = ok && len(ids) > 0
	constants := vp.Choose("constants", 2) == 1
	var rid []interface{}
	var val []ast.ItemNode
	var err error
	req, sent, reply := s.during(func() {
		if constants {
			var l []gem.EquipmentConstantValue
			l, err = s.g.RequestEquipmentConstants(raws...)
			for _, v := range l {
				rid, val = append(rid, v.ID), append(val, v.Value)
			}
		} else {
			var l []gem.StatusValue
			l, err = s.g.RequestStatusVariables(raws...)
			for _, v := range l {
				rid, val = append(rid, v.ID), append(val, v.Value)
			}
		}
	})
	if !ok {
		reply(-1, nil)
		vp.Assert(err != nil && !sent, "refused")
		vp.Cover("refused")
		s.stop()
		return
	}
	stream, function := 1, 3
	if constants {
		stream, function = 2, 13
	}
	vp.Assert(sent && isPrimary(req, stream, function), "request-sent")
	if !sent {
		vp.End()
	}
	vp.Assert(areIDs(bodyOf(req), ids), "identifiers-sent")
	function++
	var ans Item
	fine := false
	if c := vp.Choose("count", 4) - 1; c == 2 {
		ans, function = notList(function)
	} else {
		ans = list()
		for i := 0; i < len(ids)+c; i++ {
			ans.L = append(ans.L, genValueItem("value"))
		}
		fine = c == 0
	}
	reply(function, refEncode(ans))
	vp.Assert((err == nil) == fine, "answer-understood")
	if !fine {
		vp.Cover("malformed")
	} else {
		vp.Assert(len(val) == len(ids), "value-count")
		for i := range val {
			vp.Assert(names(rid[i], ids[i]), "value-identifier")
			vp.Assert(isItem(val[i], ans.L[i]), "value")
		}
		vp.Cover("values")
	}
	s.stop()
}

// HRequestNames: S1F11 and S2F29.
func HRequestNames() {
	s := host(nil)
	s.establish()
	raws, ids, ok := genIDs("id", vp.Param("n"), vp.Param("ids"))
	constants := vp.Choose("constants", 2) == 1
	var st []gem.StatusVariableInfo
	var ec []gem.EquipmentConstantInfo
	var err error
	req, sent, reply := s.during(func() {
		if constants {
			ec, err = s.g.RequestEquipmentConstantInfo(raws...)
		} else {
			st, err = s.g.RequestStatusVariableInfo(raws...)
		}
	})
	if !ok {
		reply(-1, nil)
		vp.Assert(err != nil && !sent, "refused")
		vp.Cover("refused")
		s.stop()
		return
	}
	stream, function, size := 1, 11, 3
	if constants {
		stream, function, size = 2, 29, 6
	}
	vp.Assert(sent && isPrimary(req, stream, function), "request-sent")
	if !sent {
		vp.End()
	}
	vp.Assert(areIDs(bodyOf(req), ids), "identifiers-sent")
	function++
	type entry struct {
		id         ident
		name, unit string
		v          []Item
	}
	var want []entry
	ans := list()
	fine := true
	if c := vp.Choose("entries", vp.Param("entries")+2); c == 0 {
		ans, function = notList(function)
		fine = false
	} else {
		for i := 1; i < c; i++ {
			it := genID("answered")
			shape := vp.Choose("shape", 4)
			if shape == 1 {
				it = genBad("answered")
			}
			id, good := identOf(it)
			name, sn := genText("name")
			unit, su := genText("unit")
			e := list(it, name)
			v := make([]Item, 3)
			if constants {
				vary := -1
				if shape == 0 && i == 1 {
					vary = vp.Choose("limit", 3)
				}
				for j := range v {
					v[j] = num(kU2, uint64(j))
					if j == vary {
						v[j] = genValueItem("limit")
					}
					e.L = append(e.L, v[j])
				}
			}
			e.L = append(e.L, unit)
			switch shape {
			case 2:
				e.L, good = e.L[:size-1], false
			case 3:
				e, good = it, false
			}
			fine = fine && good
			ans.L = append(ans.L, e)
			want = append(want, entry{id, sn, su, v})
		}
	}
	reply(function, refEncode(ans))
	vp.Assert((err == nil) == fine, "answer-understood")
	if !fine {
		vp.Cover("malformed")
		s.stop()
		return
	}
	vp.Assert(len(st)+len(ec) == len(want), "entry-count")
	for i, w := range want {
		if constants && i < len(ec) {
			vp.Assert(names(ec[i].ID, w.id), "entry-identifier")
			vp.Assert(ec[i].Name == w.name && ec[i].Unit == w.unit, "entry-names")
			vp.Assert(isItem(ec[i].Min, w.v[0]) && isItem(ec[i].Max, w.v[1]) && isItem(ec[i].Default, w.v[2]), "entry-limits")
		} else if i < len(st) {
			vp.Assert(names(st[i].ID, w.id), "entry-identifier")
			vp.Assert(st[i].Name == w.name && st[i].Unit == w.unit, "entry-names")
		}
	}
	vp.Cover("entries")
	s.stop()
}

// HRequestChange: the host's calls that are acknowledged with one byte: S2F15, S2F33, S2F35, S2F37, S5F3, S2F31.
func HRequestChange() {
	s := host(nil)
	s.establish()
	n, kinds := vp.Param("n"), vp.Param("ids")
	ok, silent := true, false
	var call func() (int, error)
	var sent func(Item) bool
	stream, function := 2, 0
	switch vp.Choose("call", 6) {
	case 0:
		raws, ids, good := genIDs("ecid", n, kinds)
		ok, function, silent = good, 15, len(ids) == 0
		var ups []gem.EquipmentConstantUpdate
		want := make([]Item, len(ids))
		for i, r := range raws {
			want[i] = genValueItem("value")
			u := gem.EquipmentConstantUpdate{ID: r}
			if vp.Choose("nil", 4) == 3 {
				ok = false
			} else {
				u.Value = node(want[i])
			}
			ups = append(ups, u)
		}
		call = func() (int, error) { return s.g.SendEquipmentConstantValues(ups) }
		sent = func(it Item) bool {
			if it.K != kL || len(it.L) != len(ids) {
				return false
			}
			for i, e := range it.L {
				if e.K != kL || len(e.L) != 2 || !isID(e.L[0], ids[i]) || !eqItem(e.L[1], want[i]) {
					return false
				}
			}
			return true
		}
	case 1, 2:
		raws, ids, good := genIDs("outer", n, kinds)
		ok = good
		link := vp.Choose("link", 2) == 1
		var defs []gem.ReportDefinitionRequest
		var links []gem.EventReportLinkRequest
		inner := make([][]ident, len(ids))
		for i, r := range raws {
			in, iid, good := genIDs("inner", vp.Param("inner"), kinds)
			ok, inner[i] = ok && good, iid
			defs = append(defs, gem.ReportDefinitionRequest{ReportID: r, VIDs: in})
			links = append(links, gem.EventReportLinkRequest{CEID: r, ReportIDs: in})
		}
		function = 33
		call = func() (int, error) { return s.g.DefineReports(defs...) }
		if link {
			function = 35
			call = func() (int, error) { return s.g.LinkEventReports(links...) }
		}
		sent = func(it Item) bool {
			if it.K != kL || len(it.L) != 2 || it.L[1].K != kL || len(it.L[1].L) != len(ids) {
				return false
			}
			if _, isNum := identOf(it.L[0]); !isNum {
				return false
			}
			for i, e := range it.L[1].L {
				if e.K != kL || len(e.L) != 2 || !isID(e.L[0], ids[i]) || !areIDs(e.L[1], inner[i]) {
					return false
				}
			}
			return true
		}
	case 3:
		raws, ids, good := genIDs("ceid", n, kinds)
		ok, function = good, 37
		on := vp.Bool("enable")
		call = func() (int, error) { return s.g.EnableEventReports(on, raws...) }
		sent = func(it Item) bool {
			return it.K == kL && len(it.L) == 2 && it.L[0].K == kBool && len(it.L[0].V) == 1 && (it.L[0].V[0] != 0) == on && areIDs(it.L[1], ids)
		}
	case 4:
		stream, function = 5, 3
		var alids []int
		var ids []ident
		for i := vp.Choose("alids", n+1); i > 0; i-- {
			a := vp.Int("alid", 0, 1<<40)
			alids, ids = append(alids, a), append(ids, ident{num: true, n: uint64(a)})
		}
		on := vp.Bool("enable")
		call = func() (int, error) { b, err := s.g.SendEnableAlarm(alids, on); return int(b), err }
		sent = func(it Item) bool {
			return it.K == kL && len(it.L) == 2 && it.L[0].K == kB && len(it.L[0].V) == 1 && (it.L[0].V[0] >= 128) == on && areIDs(it.L[1], ids)
		}
	default:
		function = 31
		t := vp.String("time", 16)
		for i := 0; i < len(t); i++ {
			vp.Assume(t[i] < 0x80)
		}
		if vp.Choose("short", 2) == 1 {
			t, ok = t[:13], false
		}
		call = func() (int, error) { b, err := s.g.SetDateTime(t); return int(b), err }
		sent = func(it Item) bool { return eqItem(it, text(t)) }
	}
	var got int
	var err error
	req, out, reply := s.during(func() { got, err = call() })
	if !ok || silent {
		reply(-1, nil)
		vp.Assert(!out && (err == nil) == silent, "refused")
		vp.Cover("refused")
		s.stop()
		return
	}
	vp.Assert(out && isPrimary(req, stream, function), "request-sent")
	if !out {
		vp.End()
	}
	vp.Assert(sent(bodyOf(req)), "content-sent")
	code := vp.Byte("ack")
	ans, fn, fine := s.genAck(function+1, num(kB, uint64(code)))
	reply(fn, refEncode(ans))
	if ans.K == kL && len(ans.L) == 1 && function == 31 { // an acknowledge inside a list is no TIACK
		fine = fine && err == nil
	}
	vp.Assert((err == nil) == fine, "answer-understood")
	if fine {
		vp.Assert(got == int(code), "acknowledge")
		vp.Cover("acknowledged")
	} else {
		vp.Cover("malformed")
	}
	s.stop()
}

// genReport draws the content of an event report: ok is false if it is none.
func genReport() (msg Item, ce ident, reports []ident, values [][]Item, ok bool) {
	ceid := genID("ceid")
	ce, ok = identOf(ceid)
	l := list()
	broken := vp.Choose("report.event", 6)
	n := 0
	if broken == 0 {
		n = vp.Choose("reports", vp.Param("reports")+1)
	}
	for i := n; i > 0; i-- {
		it := genID("rptid")
		shape := vp.Choose("report.shape", 5)
		if shape == 1 {
			it = genBad("rptid")
		}
		id, good := identOf(it)
		v := list()
		for j := vp.Choose("values", vp.Param("values")+1); j > 0; j-- {
			v.L = append(v.L, genValueItem("value"))
		}
		e := list(it, v)
		switch shape {
		case 2:
			e, good = list(it), false
		case 3:
			e, good = it, false
		case 4:
			e, good = list(it, num(kU1, 1)), false
		}
		l.L = append(l.L, e)
		reports, values, ok = append(reports, id), append(values, v.L), ok && good
	}
	msg = list(num(kU1, 7), ceid, l)
	switch broken {
	case 1:
		msg, ok = list(num(kU1, 7), ceid), false
	case 2:
		msg, ok = list(num(kU1, 7), genBad("ceid"), l), false
	case 3:
		msg, ok = list(num(kU1, 7), ceid, text("x")), false
	case 4:
		msg, ok = ceid, false
	case 5:
		msg, ok = Item{K: kNone}, false
	}
	return
}

func sameReport(r gem.EventReport, ce ident, reports []ident, values [][]Item) {
	vp.Assert(names(r.CEID, ce), "event")
	vp.Assert(len(r.Reports) == len(reports), "report-count")
	for i, v := range r.Reports {
		if i < len(reports) {
			vp.Assert(names(v.RPTID, reports[i]), "report")
			vp.Assert(len(v.Values) == len(values[i]), "value-count")
			for j, x := range v.Values {
				vp.Assert(j < len(values[i]) && isItem(x, values[i][j]), "value")
			}
		}
	}
}

// HRequestReport: S6F15.
func HRequestReport() {
	s := host(nil)
	s.establish()
	raw, id, ok := genRaw("event", vp.Param("ids"))
	var got gem.EventReport
	var err error
	req, sent, reply := s.during(func() { got, err = s.g.RequestCollectionEventReport(raw) })
	if !ok {
		reply(-1, nil)
		vp.Assert(err != nil && !sent, "refused")
		vp.Cover("refused")
		s.stop()
		return
	}
	vp.Assert(sent && isPrimary(req, 6, 15), "request-sent")
	if !sent {
		vp.End()
	}
	vp.Assert(isID(bodyOf(req), id), "identifiers-sent")
	ans, ce, reports, values, fine := genReport()
	function := 16
	if vp.Choose("abort", 3) == 2 {
		ans, fine, function = Item{K: kNone}, false, []int{0, -1}[vp.Choose("how", 2)]
	}
	reply(function, refEncode(ans))
	vp.Assert((err == nil) == fine, "answer-understood")
	if fine {
		sameReport(got, ce, reports, values)
		vp.Cover("report")
	} else {
		vp.Cover("malformed")
	}
	s.stop()
}

// HEventHost: the host's application is told of event reports as they were sent.
func HEventHost() {
	var got []gem.EventReport
	s := host(func(g *gem.GemHandler) {
		g.Events().EventReportReceived.AddCallback(func(d map[string]interface{}) {
			if r, ok := d["report"].(gem.EventReport); ok {
				got = append(got, r)
			}
		})
	})
	s.establish()
	msg, ce, reports, values, ok := genReport()
	if vp.Choose("wait", 2) == 1 {
		ack := ackOf(s.ask(6, 11, msg))
		vp.Assert(ack >= 0 && (ack == 0) == ok, "acknowledge")
	} else {
		s.p.send(data(gemSession, 6, 11, false, []byte{0xCE, 0, 0, 1}, refEncode(msg)))
	}
	s.settled()
	if ok {
		vp.Assert(len(got) == 1, "told-once")
		if len(got) == 1 {
			sameReport(got[0], ce, reports, values)
		}
		vp.Cover("told")
	} else {
		vp.Assert(len(got) == 0, "nothing-told")
		vp.Cover("malformed")
	}
	s.stop()
}

// HRequestAlarms: S5F5, S5F7 and S2F17.
func HRequestAlarms() {
	s := host(nil)
	s.establish()
	if vp.Choose("clock", 3) == 2 {
		var got string
		var err error
		req, sent, reply := s.during(func() { got, err = s.g.RequestDateTime() })
		vp.Assert(sent && isPrimary(req, 2, 17), "request-sent")
		if !sent {
			vp.End()
		}
		vp.Assert(isEmpty(bodyOf(req)), "content-sent")
		ans := Item{K: kA, V: vals("time", kA, []int{0, 1, 16}[vp.Choose("len", 3)])}
		function, fine := 18, true
		if vp.Choose("bad", 2) == 1 {
			fine = false
			switch vp.Choose("shape", 3) {
			case 0:
				ans = list(ans)
			case 1:
				ans = num(kU8, 20240101000000)
			default:
				ans, function = notList(18)
				if ans.K == kA {
					fine = true
				}
			}
		}
		reply(function, refEncode(ans))
		vp.Assert((err == nil) == fine, "answer-understood")
		if fine {
			vp.Assert(eqItem(text(got), ans), "time")
			vp.Cover("time")
		} else {
			vp.Cover("malformed")
		}
		s.stop()
		return
	}
	enabled := vp.Choose("enabled", 2) == 1
	var got []gem.AlarmInfo
	var err error
	req, sent, reply := s.during(func() {
		if enabled {
			got, err = s.g.RequestEnabledAlarmList()
		} else {
			got, err = s.g.RequestAlarmList()
		}
	})
	function := 5
	if enabled {
		function = 7
	}
	vp.Assert(sent && isPrimary(req, 5, function), "request-sent")
	if !sent {
		vp.End()
	}
	vp.Assert(isEmpty(bodyOf(req)), "content-sent")
	function++
	ans, fine := list(), true
	type entry struct {
		id   ident
		text string
		code byte
	}
	var want []entry
	if c := vp.Choose("alarms", vp.Param("n")+2); c == 0 {
		ans, function = notList(function)
		fine = false
	} else {
		for i := 1; i < c; i++ {
			k := []int{kU4, kI4, kU1, kU8}[vp.Choose("kind", vp.Param("kinds"))]
			it := Item{K: k, V: vals("alid", k, 1)}
			id, good := identOf(it)
			good = good && id.n < 1<<63
			code := vp.Byte("alcd")
			tx, str := genText("text")
			e := list(num(kB, uint64(code)), it, tx)
			switch vp.Choose("shape", 6) {
			case 1:
				e, good = list(num(kB, uint64(code)), it), false
			case 2:
				e, good = it, false
			case 3:
				e.L[0], good = num(kU1, uint64(code)), false
			case 4:
				e.L[0], good = Item{K: kB}, false
			case 5:
				e.L[1], good = []Item{genBad("alid"), text("x")}[vp.Choose("malformed", 2)], false
			}
			fine = fine && good
			ans.L = append(ans.L, e)
			want = append(want, entry{id, str, code})
		}
	}
	reply(function, refEncode(ans))
	vp.Assert((err == nil) == fine, "answer-understood")
	if fine {
		vp.Assert(len(got) == len(want), "alarm-count")
		for i, a := range got {
			if i < len(want) {
				vp.Assert(uint64(a.ID) == want[i].id.n, "alarm-id")
				vp.Assert(a.Text == want[i].text, "alarm-text")
				vp.Assert(a.Set == (want[i].code >= 128), "alarm-set")
				vp.Assert(a.Enabled == (want[i].code&0x40 != 0), "alarm-enabled")
			}
		}
		vp.Cover("alarms")
	} else {
		vp.Cover("malformed")
	}
	s.stop()
}
