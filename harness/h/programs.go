package h

import (
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
)

type program struct {
	id   ident
	body string
}

// genBody draws a program body: text or binary, or an item that is none.
func genBody(name string, n int) (it Item, body string, ok bool) {
	c := vp.Choose(name+".kind", 5)
	if c < 2 {
		k := []int{kA, kB}[c]
		it = Item{K: k, V: vals(name, k, vp.Choose(name+".len", n+1))}
		b := make([]byte, len(it.V))
		for i, v := range it.V {
			b[i] = byte(v)
		}
		return it, string(b), true
	}
	return []Item{num(kU1, 7), list(text("x")), num(kBool, 1)}[c-2], "", false
}

// isBody tells whether an item carries the body: as text, or as binary if it is no ASCII text.
func isBody(it Item, body string) bool {
	if it.K != kA && it.K != kB || len(it.V) != len(body) {
		return false
	}
	eq := true
	for i := range it.V {
		eq = vp.And(eq, it.V[i] == uint64(body[i]))
	}
	return eq
}

// HPrograms: the equipment's side of process programs.
func HPrograms() {
	var upID, reqID interface{}
	var upBody string
	ups, reqs := 0, 0
	up := vp.Choose("uploads", 2) == 1
	serve := vp.Choose("requests", 2) == 1
	ack := 0
	supplied := ""
	s := equipment(func(g *gem.GemHandler) {
		if up {
			g.SetProcessProgramUploadHandler(func(id interface{}, body string) int {
				ups++
				upID, upBody = id, body
				return ack
			})
		}
		if serve {
			g.SetProcessProgramRequestHandler(func(id interface{}) (string, int) {
				reqs++
				reqID = id
				return supplied, ack
			})
		}
	})
	s.establish()
	var store []program
	if vp.Choose("registered", 2) == 1 {
		b := vp.String("registered", vp.Param("len"))
		vp.Assert(s.g.RegisterProcessProgram(known[1].raw(), b) == nil, "registered")
		store = append(store, program{known[1], b})
	}
	for step := vp.Param("steps"); step > 0; step-- {
		ups, reqs = 0, 0
		pid := known[1].as(kU2)
		if vp.Choose("which", 2) == 1 {
			pid = genID("ppid")
		}
		id, ok := identOf(pid)
		switch vp.Choose("step", 2) {
		case 0: // S7F3
			body, b, good := genBody("ppbody", vp.Param("len"))
			ok = ok && good
			msg := list(pid, body)
			switch vp.Choose("shape", 5) {
			case 1:
				msg, ok = list(pid), false
			case 2:
				msg, ok = list(), false
			case 3:
				msg, ok = pid, false
			case 4:
				msg, ok = list(genBad("ppid"), body), false
			}
			ack = vp.Int("ack", -300, 300)
			got := ackOf(s.ask(7, 3, msg))
			vp.Assert(got >= 0, "acknowledge")
			if !ok {
				vp.Assert(got > 0, "refused")
				vp.Assert(ups == 0, "not-uploaded")
				vp.Cover("malformed")
				break
			}
			if up {
				vp.Assert(ups == 1, "handler-called-once")
				vp.Assert(sameRaw(upID, id), "program-id")
				vp.Assert(upBody == b, "program-body")
				vp.Assert((got == 0) == (ack == 0), "acknowledge")
				if ack >= 0 && ack <= 255 {
					vp.Assert(got == ack, "acknowledge")
				}
				vp.Cover("uploaded")
				if ack != 0 {
					break
				}
			} else {
				vp.Assert(got == 0, "stored")
				vp.Cover("stored")
			}
			found := false
			for i := range store {
				if store[i].id.is(id) {
					store[i].body = b
					found = true
				}
			}
			if !found {
				store = append(store, program{id, b})
			}
		default: // S7F5
			msg := pid
			switch vp.Choose("shape", 5) {
			case 1:
				msg = list(pid)
			case 2:
				msg, ok = list(), false
			case 3:
				msg, ok = genBad("ppid"), false
				if msg.K == kL {
					vp.End()
				}
			case 4:
				msg, ok = Item{K: kNone}, false
			}
			supplied = vp.String("supplied", vp.Param("len"))
			ack = vp.Int("ack", 0, 255)
			got := s.ask(7, 5, msg)
			three := got.K == kL && (len(got.L) == 3 || len(got.L) == 2)
			if !ok {
				vp.Assert(isEmpty(got) || three && isEmpty(got.L[1]) && ackOf(got.L[len(got.L)-1]) > 0, "refused")
				vp.Assert(reqs == 0, "not-requested")
				vp.Cover("malformed")
				break
			}
			code, want := 1, ""
			if serve {
				vp.Assert(reqs == 1, "handler-called-once")
				vp.Assert(sameRaw(reqID, id), "program-id")
				code, want = ack, supplied
				vp.Cover("requested")
			} else {
				for _, p := range store {
					if p.id.is(id) {
						code, want = 0, p.body
					}
				}
			}
			if code != 0 {
				vp.Assert(isEmpty(got) || three && isEmpty(got.L[1]) && ackOf(got.L[len(got.L)-1]) > 0, "not-available")
				if serve {
					vp.Assert(three && ackOf(got.L[len(got.L)-1]) == code, "acknowledge")
				}
				vp.Cover("not-available")
				break
			}
			vp.Assert(three, "program-of-three")
			if three {
				vp.Assert(isID(got.L[0], id), "program-id")
				vp.Assert(isBody(got.L[1], want), "program-body")
				if len(got.L) == 3 {
					vp.Assert(ackOf(got.L[2]) == 0, "acknowledge")
				}
			}
			vp.Cover("returned")
		}
	}
	s.settled()
	s.stop()
}

// HProgramsHost: the host's side of process programs.
func HProgramsHost() {
	s := host(nil)
	s.establish()
	raw, id, ok := genRaw("ppid", vp.Param("ids"))
	var err error
	if vp.Choose("upload", 2) == 1 {
		body := vp.String("body", vp.Choose("len", vp.Param("len")+1))
		var ack int
		req, sent, reply := s.during(func() { ack, err = s.g.UploadProcessProgram(raw, body) })
		if !ok {
			reply(-1, nil)
			vp.Assert(err != nil && !sent, "refused")
			vp.Cover("refused")
			s.stop()
			return
		}
		vp.Assert(sent && isPrimary(req, 7, 3), "program-sent")
		if !sent {
			vp.End()
		}
		b := bodyOf(req)
		good := b.K == kL && len(b.L) == 2
		vp.Assert(good && isID(b.L[0], id), "program-id")
		vp.Assert(good && isBody(b.L[1], body), "program-body")
		code := vp.Byte("ack")
		ans, function, fine := s.genAck(74, num(kB, uint64(code)))
		reply(function, refEncode(ans))
		vp.Assert((err == nil) == fine, "answer-understood")
		if fine {
			vp.Assert(ack == int(code), "acknowledge")
			vp.Cover("acknowledged")
		} else {
			vp.Cover("malformed")
		}
		s.stop()
		return
	}
	var got string
	var ack int
	req, sent, reply := s.during(func() { got, ack, err = s.g.RequestProcessProgram(raw) })
	if !ok {
		reply(-1, nil)
		vp.Assert(err != nil && !sent, "refused")
		s.stop()
		return
	}
	vp.Assert(sent && isPrimary(req, 7, 5), "request-sent")
	if !sent {
		vp.End()
	}
	b := bodyOf(req)
	vp.Assert(isID(b, id) || b.K == kL && len(b.L) == 1 && isID(b.L[0], id), "program-id")
	it, body, fine := genBody("ppbody", vp.Param("len"))
	code := vp.Byte("ack")
	pid := id.as(kU8)
	ans, function := list(pid, it, num(kB, uint64(code))), 6
	withCode := true
	switch vp.Choose("shape", 7) {
	case 1:
		ans, withCode = list(pid, it), false
	case 2:
		ans, fine = list(pid), false
	case 3:
		ans, fine = it, false
	case 4:
		ans, fine = list(pid, it, num(kU1, uint64(code))), false
	case 5:
		ans, fine, function = Item{K: kNone}, false, 0
	case 6:
		ans, fine = list(pid, it, Item{K: kB}), false
	}
	reply(function, refEncode(ans))
	vp.Assert((err == nil) == fine, "answer-understood")
	if fine {
		vp.Assert(got == body, "program-body")
		if withCode {
			vp.Assert(ack == int(code), "acknowledge")
		} else {
			vp.Assert(ack == 0, "acknowledge")
		}
		vp.Cover("returned")
	} else {
		vp.Cover("malformed")
	}
	s.stop()
}

// genAck varies an acknowledge (of the function at sf%10): ok is false if it is none.
func (s *station) genAck(sf int, ack Item) (ans Item, function int, ok bool) {
	function = sf % 100
	if sf == 74 {
		function = 4
	}
	switch vp.Choose("ack.shape", 7) {
	case 1:
		return list(ack), function, true
	case 2:
		return list(), function, false
	case 3:
		return Item{K: kB}, function, false
	case 4:
		return num(kU1, 0), function, false
	case 5:
		return Item{K: kNone}, 0, false
	case 6:
		return ack, -1, false
	}
	return ack, function, true
}

// digits writes n in w digits.
func digits(n uint64, w int) string {
	b := make([]byte, w)
	for i := w - 1; i >= 0; i-- {
		b[i] = '0' + byte(n%10)
		n /= 10
	}
	return string(b)
}

// HClockShow: S2F17 tells the provider's time.
func HClockShow() {
	var t time.Time
	s := equipment(func(g *gem.GemHandler) {
		g.SetTimeProvider(func() time.Time { return t })
	})
	s.establish()
	year := []int{2024, 0, 1, 99, 999, 1999, 2000, 2100, 9999}[vp.Choose("year", vp.Param("years"))]
	month, day, hour, min, sec, nano := 2, 28, 23, 59, 58, 0
	switch vp.Choose("vary", 4) {
	case 0:
		hour = vp.Int("hour", 0, 23)
	case 1:
		min, sec = vp.Int("min", 0, 59), vp.Int("sec", 0, 59)
	case 2:
		month = 1 + vp.Choose("month", 12)
		day = vp.Int("day", 1, 28)
	default:
		nano = vp.Int("nano", 0, 999999999)
	}
	loc := time.UTC
	if vp.Choose("zone", 2) == 1 {
		loc = time.FixedZone("x", 5*3600+1800)
	}
	t = time.Date(year, time.Month(month), day, hour, min, sec, nano, loc)
	want := digits(uint64(year), 4) + digits(uint64(month), 2) + digits(uint64(day), 2) + digits(uint64(hour), 2) + digits(uint64(min), 2) + digits(uint64(sec), 2) + "00"
	got := s.ask(2, 17, []Item{list(), {K: kNone}}[vp.Choose("body", 2)])
	vp.Assert(eqItem(got, text(want)), "equipment-time")
	vp.Assert(s.g.GetEquipmentTime() == want, "equipment-time")
	vp.Cover("shown")
	s.settled()
	s.stop()
}

func twoDigits(s string) (int, bool) {
	d := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		d = d*10 + int(s[i]-'0')
	}
	return d, true
}

// HClockSet: S2F31 hands on exactly the time it names.
func HClockSet() {
	var got []time.Time
	code := vp.Byte("tiack")
	fails := vp.Choose("error", 2) == 1
	handled := vp.Choose("handler", 2) == 1
	s := equipment(func(g *gem.GemHandler) {
		if handled {
			g.SetClockSyncHandler(func(t time.Time) (byte, error) {
				got = append(got, t)
				if fails {
					return code, errBroken
				}
				return code, nil
			})
		}
	})
	s.establish()
	// fourteen characters: all but one field are fixed, that one is any text
	fields := []string{[]string{"2024", "1999", "0000", "9999"}[vp.Choose("year", vp.Param("years"))], "02", "29", "23", "59", "58"}
	field := vp.Choose("field", 7)
	if field < 6 {
		// any digits, or one character that is none
		b := []byte(fields[field])
		bad := vp.Choose("bad", len(b)+1) - 1
		for i := range b {
			if i == bad {
				b[i] = vp.Byte("char")
				vp.Assume(vp.And(b[i] < 0x80, vp.Or(b[i] < '0', b[i] > '9')))
			} else if len(b) < 4 || i >= 2 {
				b[i] = byte(vp.Int("digit", '0', '9'))
			}
		}
		fields[field] = string(b)
	}
	str := ""
	for _, f := range fields {
		str += f
	}
	tail := vp.Choose("tail", 4)
	if tail == 1 {
		x := vp.String("tail", 2)
		vp.Assume(vp.And(x[0] < 0x80, x[1] < 0x80))
		str += x
	} else if tail == 2 {
		str = str[:13]
	} else if tail == 3 {
		str += "00"
	}
	msg := text(str)
	valid := tail != 2
	if field == 6 {
		switch vp.Choose("shape", 5) {
		case 0:
			msg, valid = num(kU8, 20240229235958), false
		case 1:
			msg, valid = list(text(str)), false
		case 2:
			msg, valid = Item{K: kNone}, false
		case 3:
			msg, valid = Item{K: kA}, false
		}
	}
	n := make([]int, 6)
	for i, f := range fields {
		v, ok := twoDigits(f)
		n[i] = v
		valid = valid && ok
	}
	if valid {
		leap := n[0]%4 == 0 && (n[0]%100 != 0 || n[0]%400 == 0)
		valid = n[1] >= 1 && n[1] <= 12 && n[3] <= 23 && n[4] <= 59 && n[5] <= 59 && n[2] >= 1
		if valid {
			last := []int{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}
			d := 0
			for i, x := range last {
				if n[1] == i+1 {
					d = x
				}
			}
			if n[1] == 2 && leap {
				d++
			}
			valid = n[2] <= d
		}
	}
	ack := ackOf(s.ask(2, 31, msg))
	if !valid {
		vp.Assert(ack > 0, "refused")
		vp.Assert(len(got) == 0, "handler-not-called")
		vp.Cover("invalid")
	} else if !handled {
		vp.Assert(ack > 0, "refused")
		vp.Cover("no-handler")
	} else {
		vp.Assert(len(got) == 1, "handler-called-once")
		if len(got) == 1 {
			h, m, sec := got[0].Clock()
			y, mo, d := got[0].Date()
			vp.Assert(vp.And(h == n[3], vp.And(m == n[4], sec == n[5])), "time-of-day")
			vp.Assert(vp.And(y == n[0], vp.And(int(mo) == n[1], d == n[2])), "date")
		}
		if fails {
			vp.Assert(ack > 0, "handler-error")
		} else {
			vp.Assert(ack == int(code), "acknowledge")
		}
		vp.Cover("set")
	}
	s.settled()
	s.stop()
}
