package h

import (
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

const gemSession = 7

// station is a GEM endpoint (passive) and the peer connected to it.
type station struct {
	g    *gem.GemHandler
	e    *hsms.HsmsProtocol
	p    *Peer
	port int
	n    uint32
}

// gemEnd makes an enabled GEM endpoint with the peer connected and selected; communication is yet to be established.
func gemEnd(o gem.Options, conf func(*gem.GemHandler)) *station {
	s := &station{}
	s.port = freePort()
	s.e = hsms.NewHsmsProtocol("127.0.0.1", s.port, false, gemSession, "g")
	s.e.Timeouts().SetLinktest(30)
	s.e.Timeouts().SetT6ControlTransTimeout(2)
	s.e.Timeouts().SetT3ReplyTimeout(1)
	o.Protocol = s.e
	o.DeviceID = gemSession
	g, err := gem.NewGemHandler(o)
	vp.Assert(err == nil, "handler-created")
	if err != nil {
		vp.End()
	}
	s.g = g
	if conf != nil {
		conf(g)
	}
	g.Enable()
	s.connect()
	return s
}

// connect gives the endpoint a (new) selected link.
func (s *station) connect() {
	s.p = redial(s.port)
	vp.Assert(s.p != nil, "endpoint-listens")
	if s.p == nil {
		vp.End()
	}
	s.p.selectBy(s.e, gemSession)
}

func equipment(conf func(*gem.GemHandler)) *station {
	return gemEnd(gem.Options{DeviceType: gem.DeviceEquipment}, conf)
}

func host(conf func(*gem.GemHandler)) *station {
	return gemEnd(gem.Options{DeviceType: gem.DeviceHost}, conf)
}

var bodyS1F14 = Item{K: kL, L: []Item{{K: kB, V: []uint64{0}}, {K: kL}}}

// serve answers what the endpoint asks to establish communication (and, for equipment, to go online).
func (s *station) serve() { s.p.serving(true) }

func (p *Peer) serving(on bool) {
	p.mu.Lock()
	p.auto = on
	p.mu.Unlock()
}

// establish waits until the endpoint is communicating, and online if it is equipment.
func (s *station) establish() {
	s.serve()
	ok := await(5*time.Second, func() bool {
		return s.g.State() == gem.CommunicationStateCommunicating
	})
	vp.Assert(ok, "communicating")
	if !ok {
		vp.End()
	}
	await(time.Second, func() bool {
		st := s.g.ControlState()
		return st == gem.ControlStateOnlineRemote || st == gem.ControlStateOnlineLocal
	})
}

func (s *station) stop() {
	s.g.Disable()
	s.p.c.Close()
}

// ask sends a primary to the endpoint and returns the body of its one reply.
func (s *station) ask(stream, function int, body Item) Item {
	return s.askRaw(stream, function, refEncode(body))
}

func (s *station) askRaw(stream, function int, body []byte) Item {
	s.n++
	sys := []byte{0xDD, 0, byte(s.n >> 8), byte(s.n)}
	s.p.send(data(gemSession, stream, function, true, sys, body))
	for i := 0; ; i++ {
		f, ok := s.p.recv(2 * time.Second)
		ok = ok && i < 30
		vp.Assert(ok, "answered")
		if !ok {
			vp.End()
		}
		if f.h[3]%2 == 1 && (f.h[2]&0x7f != 9 || f.h[3] == 9) { // the endpoint's own, or its complaint that we do not answer
			s.p.own = append(s.p.own, f)
			continue
		}
		vp.Assert(eqBytes(f.sys(), sys), "answer-system-bytes")
		vp.Assert(eqBytes(f.h[:6], []byte{0, gemSession, byte(stream), byte(function + 1), 0, 0}), "answer-header")
		it, n, good := refDecode(f.body)
		if len(f.body) == 0 {
			return Item{K: kNone}
		}
		vp.Assert(good && n == len(f.body), "answer-well-formed")
		return it
	}
}

// settled lets everything in flight arrive and returns the endpoint's own primaries since the last call.
func (s *station) settled() []frame {
	got, alive := s.p.sync()
	vp.Assert(alive, "link-alive")
	var fs []frame
	for _, f := range append(s.p.own, got...) {
		fs = append(fs, f)
	}
	s.p.own = nil
	return fs
}

// ackOf is the code in an acknowledge body: a binary, or a list that begins with one.
func ackOf(it Item) int {
	if it.K == kL && len(it.L) > 0 {
		it = it.L[0]
	}
	if it.K != kB || len(it.V) != 1 {
		return -1
	}
	return int(it.V[0])
}

// ident is an identifier: a number or a text.
type ident struct {
	num  bool
	n    uint64
	s    string
	item Item // as sent
}

func text(s string) Item {
	it := Item{K: kA}
	for i := 0; i < len(s); i++ {
		it.V = append(it.V, uint64(s[i]))
	}
	return it
}

func num(k int, v uint64) Item { return Item{K: k, V: []uint64{v}} }

func list(l ...Item) Item { return Item{K: kL, L: l} }

func isEmpty(it Item) bool { return it.K == kNone || count(it) == 0 }

// identOf reads an identifier item; ok is false if it is none.
func identOf(it Item) (id ident, ok bool) {
	id.item = it
	switch it.K {
	case kA:
		b := make([]byte, len(it.V))
		for i, v := range it.V {
			b[i] = byte(v)
		}
		id.s = string(b)
		return id, true
	case kU1, kU2, kU4, kU8:
		if len(it.V) != 1 {
			return id, false
		}
		id.num, id.n = true, it.V[0]
		return id, true
	case kI1, kI2, kI4, kI8:
		if len(it.V) != 1 || sext(it.V[0], it.K) < 0 {
			return id, false
		}
		id.num, id.n = true, it.V[0]
		return id, true
	}
	return id, false
}

func (a ident) is(b ident) bool {
	if a.num != b.num {
		return false
	}
	if a.num {
		return a.n == b.n
	}
	return a.s == b.s
}

// isID tells whether an item of an answer is the identifier.
func isID(it Item, id ident) bool {
	got, ok := identOf(it)
	return ok && got.is(id)
}

// Identifiers used by the checks: a number, a number beyond one byte and a text.
var known = []ident{{num: true, n: 1}, {num: true, n: 300}, {s: "AB"}}

func (a ident) raw() interface{} {
	if a.num {
		return int(a.n)
	}
	return a.s
}

// genID draws an identifier item: a number of any width and value or a text of one or two characters.
func genID(name string) Item {
	k := []int{kU4, kA, kU1, kU2, kU8, kI2, kI8}[vp.Choose(name+".kind", vp.Param("kinds"))]
	if k == kA {
		return Item{K: kA, V: vals(name, kA, 1+vp.Choose(name+".len", 2))}
	}
	v := vals(name, k, 1)
	return Item{K: k, V: v}
}

// genBad draws an item that is no identifier.
func genBad(name string) Item {
	switch vp.Choose(name+".bad", 6) {
	case 0:
		return Item{K: kU4}
	case 1:
		return num(kF4, 0x3f800000)
	case 2:
		return list()
	case 3:
		return num(kI4, 0xffffffff)
	case 4:
		return Item{K: []int{kU4, kI2}[vp.Choose(name+".two", 2)], V: []uint64{1, 300}}
	}
	return num(kBool, 1)
}

// eqItem compares without forking on values.
func eqItem(a, b Item) bool {
	if a.K != b.K || len(a.V) != len(b.V) || len(a.L) != len(b.L) {
		return false
	}
	eq := true
	for i := range a.V {
		eq = vp.And(eq, a.V[i] == b.V[i])
	}
	for i := range a.L {
		if !eqItem(a.L[i], b.L[i]) {
			return false
		}
	}
	return eq
}

// statusEquipment registers three status variables: one with a value, one with a provider, one whose value is
// unavailable.
func statusEquipment(value, provided Item) *station {
	return equipment(func(g *gem.GemHandler) {
		a, err1 := gem.NewStatusVariable(known[0].raw(), "first", "mm", gem.WithStatusValue(node(value)))
		b, err2 := gem.NewStatusVariable(known[2].raw(), "second", "", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return node(provided), nil }))
		var c *gem.StatusVariable
		var err3 error
		switch vp.Choose("unavailable", 3) {
		case 0:
			c, err3 = gem.NewStatusVariable(known[1].raw(), "third", "s")
		case 1:
			c, err3 = gem.NewStatusVariable(known[1].raw(), "third", "s", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, errBroken }))
		default:
			c, err3 = gem.NewStatusVariable(known[1].raw(), "third", "s", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, nil }))
		}
		vp.Assert(err1 == nil && err2 == nil && err3 == nil, "variables-made")
		vp.Assert(g.RegisterStatusVariable(a) == nil && g.RegisterStatusVariable(c) == nil && g.RegisterStatusVariable(b) == nil, "variables-registered")
	})
}

// HStatus: status values and names for any request list.
func HStatus() {
	value, provided := list(num(kU2, uint64(vp.U16("value"))), Item{K: kA, V: vals("text", kA, 1)}), num(kI4, uint64(vp.U32("provided")))
	s := statusEquipment(value, provided)
	order := []int{0, 1, 2} // of registration: known[0], known[1], known[2]
	values := []Item{value, list(), provided}
	names := []string{"first", "third", "second"}
	units := []string{"mm", "s", ""}
	var req []Item
	var hit []int // index of the known variable, -1 unknown, -2 no identifier
	for i := vp.Choose("n", vp.Param("n")+1); i > 0; i-- {
		c := vp.Choose("request", 5)
		switch {
		case c < 3:
			it := text(known[c].s)
			if known[c].num {
				it = num([]int{kU2, kU4, kU8, kI2}[vp.Choose("width", 4)], known[c].n)
			}
			req = append(req, it)
			hit = append(hit, c)
		case c == 3:
			it := genID("id")
			id, ok := identOf(it)
			x := -2
			if ok {
				x = -1
				for j, k := range known {
					if id.is(k) {
						x = j
					}
				}
			}
			req = append(req, it)
			hit = append(hit, x)
		default:
			req = append(req, genBad("id"))
			hit = append(hit, -2)
		}
	}
	if len(req) == 0 {
		hit = order
	}
	if vp.Choose("names", 2) == 0 {
		got := s.ask(1, 3, list(req...))
		vp.Cover("values")
		vp.Assert(got.K == kL && len(got.L) == len(hit), "one-value-each")
		for i := 0; i < len(hit) && i < len(got.L); i++ {
			if hit[i] < 0 {
				vp.Assert(isEmpty(got.L[i]), "empty-item-for-unknown")
			} else if hit[i] == 1 {
				vp.Assert(isEmpty(got.L[i]), "empty-item-for-unavailable")
			} else {
				vp.Assert(eqItem(got.L[i], values[hit[i]]), "current-value")
			}
		}
	} else {
		got := s.ask(1, 11, list(req...))
		vp.Cover("names")
		vp.Assert(got.K == kL && len(got.L) == len(hit), "one-entry-each")
		for i := 0; i < len(hit) && i < len(got.L); i++ {
			e := got.L[i]
			vp.Assert(e.K == kL && len(e.L) == 3, "entry-of-three")
			if e.K != kL || len(e.L) != 3 {
				continue
			}
			if hit[i] >= 0 {
				vp.Assert(isID(e.L[0], known[hit[i]]), "entry-id")
				vp.Assert(eqItem(e.L[1], text(names[hit[i]])) && eqItem(e.L[2], text(units[hit[i]])), "entry-name-and-unit")
				continue
			}
			vp.Assert(isEmpty(e.L[1]) && isEmpty(e.L[2]), "empty-items-for-unknown")
			if id, ok := identOf(req[i]); ok {
				vp.Assert(isID(e.L[0], id), "entry-id")
			}
		}
	}
	s.settled()
	s.stop()
}

// HConstants: equipment constants are read and changed all or nothing.
func HConstants() {
	limit := uint64(vp.U32("limit"))
	value := []Item{num(kU4, uint64(vp.U32("initial"))), text("on"), num(kI2, 5)}
	min, max := num(kU4, 0), num(kU4, limit)
	var updated []Item // by the third constant's updater
	s := equipment(func(g *gem.GemHandler) {
		fits := func(n ast.ItemNode) error {
			if v, ok := n.Values().([]uint64); !ok || len(v) != 1 || v[0] > limit {
				return errBroken
			}
			return nil
		}
		a, err1 := gem.NewEquipmentConstant(known[0].raw(), "first", node(value[0]), gem.WithEquipmentConstantUnit("mm"), gem.WithEquipmentConstantMin(node(min)), gem.WithEquipmentConstantMax(node(max)), gem.WithEquipmentConstantValidator(fits))
		b, err2 := gem.NewEquipmentConstant(known[2].raw(), "second", node(value[1]))
		third := value[2]
		c, err3 := gem.NewEquipmentConstant(known[1].raw(), "third", node(value[2]), gem.WithEquipmentConstantValueProvider(func() (ast.ItemNode, error) { return node(third), nil }),
			gem.WithEquipmentConstantValueUpdater(func(n ast.ItemNode) error {
				b := ast.NewDataMessage("", 1, 1, 0, "H->E", n).SetSessionIDAndSystemBytes(0, []byte{0, 0, 0, 0}).ToBytes()
				third, _, _ = refDecode(b[14:])
				updated = append(updated, third)
				return nil
			}))
		vp.Assert(err1 == nil && err2 == nil && err3 == nil, "constants-made")
		vp.Assert(g.RegisterEquipmentConstant(a) == nil && g.RegisterEquipmentConstant(c) == nil && g.RegisterEquipmentConstant(b) == nil, "constants-registered")
	})
	slot := []int{0, 2, 1} // index in value of known[0], known[1], known[2]; registered in the order of known
	for step := vp.Param("steps"); step > 0; step-- {
		var ents []Item
		ok := true
		next := append([]Item{}, value...)
		for i := vp.Choose("n", vp.Param("n")) + 1; i > 0; i-- {
			v := num(kU4, uint64(vp.U32("value")))
			switch c := vp.Choose("which", 6); {
			case c < 3:
				it := text(known[c].s)
				if known[c].num {
					it = num([]int{kU4, kU2}[vp.Choose("width", 2)], known[c].n)
				}
				if c == 1 { // any type where nothing forbids it
					v = genItem("any", 0, 1)
				}
				ents = append(ents, list(it, v))
				if c == 0 && v.V[0] > limit {
					vp.Cover("not-acceptable")
					ok = false
				}
				next[slot[c]] = v
			case c == 3:
				it := genID("id")
				id, good := identOf(it)
				for _, k := range known {
					vp.Assume(!good || !id.is(k))
				}
				ok = false
				vp.Cover("unknown")
				ents = append(ents, list(it, v))
			case c == 4:
				ok = false
				ents = append(ents, list(genBad("id"), v))
			default:
				ok = false
				ents = append(ents, []Item{list(), list(num(kU4, 1)), num(kU4, 1)}[vp.Choose("malformed", 3)])
			}
		}
		ack := ackOf(s.ask(2, 15, list(ents...)))
		vp.Assert((ack == 0) == ok && ack >= 0, "acknowledge")
		if ok {
			vp.Cover("changed")
			value = next
		}
		got := s.ask(2, 13, list())
		vp.Assert(got.K == kL && len(got.L) == 3, "all-constants")
		for j := 0; j < 3 && j < len(got.L); j++ {
			vp.Assert(eqItem(got.L[j], value[slot[j]]), "current-values")
		}
	}
	s.settled()
	s.stop()
}

// HConstantInfo: values and attributes of any requested constants.
func HConstantInfo() {
	value := []Item{num(kU4, uint64(vp.U32("initial"))), num(kI2, 5), text("on")}
	min, max := num(kU4, uint64(vp.U32("min"))), num(kF8, vp.U64("max"))
	vp.Assume(isFinite(max.V[0], kF8))
	has := vp.Choose("limits", 4)
	s := equipment(func(g *gem.GemHandler) {
		var opts []gem.EquipmentConstantOption
		if has&1 != 0 {
			opts = append(opts, gem.WithEquipmentConstantMin(node(min)))
		}
		if has&2 != 0 {
			opts = append(opts, gem.WithEquipmentConstantMax(node(max)))
		}
		for i, name := range []string{"first", "second", "third"} {
			if i == 0 {
				opts = append(opts, gem.WithEquipmentConstantUnit("mm"))
			} else {
				opts = nil
			}
			c, err := gem.NewEquipmentConstant(known[i].raw(), name, node(value[i]), opts...)
			vp.Assert(err == nil && g.RegisterEquipmentConstant(c) == nil, "constant-registered")
		}
	})
	var req []Item
	var hit []int
	for i := vp.Choose("n", vp.Param("n")+1); i > 0; i-- {
		switch c := vp.Choose("request", 5); {
		case c < 3:
			it := text(known[c].s)
			if known[c].num {
				it = num([]int{kU2, kU4, kU8, kI2}[vp.Choose("width", 4)], known[c].n)
			}
			req, hit = append(req, it), append(hit, c)
		case c == 3:
			it := genID("id")
			x := -1
			if id, ok := identOf(it); ok {
				for j, k := range known {
					if id.is(k) {
						x = j
					}
				}
			}
			req, hit = append(req, it), append(hit, x)
		default:
			req, hit = append(req, genBad("id")), append(hit, -1)
		}
	}
	if len(req) == 0 {
		hit = []int{0, 1, 2}
	}
	if vp.Choose("names", 2) == 0 {
		vp.Cover("values")
		got := s.ask(2, 13, list(req...))
		vp.Assert(got.K == kL && len(got.L) == len(hit), "one-value-each")
		for i := 0; i < len(hit) && i < len(got.L); i++ {
			if hit[i] < 0 {
				vp.Assert(isEmpty(got.L[i]), "empty-item-for-unknown")
			} else {
				vp.Assert(eqItem(got.L[i], value[hit[i]]), "current-value")
			}
		}
	} else {
		vp.Cover("attributes")
		got := s.ask(2, 29, list(req...))
		vp.Assert(got.K == kL && len(got.L) == len(hit), "one-entry-each")
		for i := 0; i < len(hit) && i < len(got.L); i++ {
			e := got.L[i]
			vp.Assert(e.K == kL && len(e.L) == 6, "entry-of-six")
			if e.K != kL || len(e.L) != 6 {
				continue
			}
			if hit[i] < 0 {
				if id, ok := identOf(req[i]); ok {
					vp.Assert(isID(e.L[0], id), "entry-id")
				}
				for _, x := range e.L[1:] {
					vp.Assert(isEmpty(x), "empty-items-for-unknown")
				}
				continue
			}
			vp.Assert(isID(e.L[0], known[hit[i]]), "entry-id")
			vp.Assert(eqItem(e.L[1], text([]string{"first", "second", "third"}[hit[i]])), "entry-name")
			first := hit[i] == 0
			if first && has&1 != 0 {
				vp.Assert(eqItem(e.L[2], min), "entry-min")
			} else {
				vp.Assert(isEmpty(e.L[2]), "entry-no-min")
			}
			if first && has&2 != 0 {
				vp.Assert(eqItem(e.L[3], max), "entry-max")
			} else {
				vp.Assert(isEmpty(e.L[3]), "entry-no-max")
			}
			vp.Assert(eqItem(e.L[4], value[hit[i]]), "entry-default")
			unit := ""
			if first {
				unit = "mm"
			}
			vp.Assert(eqItem(e.L[5], text(unit)), "entry-unit")
		}
	}
	s.settled()
	s.stop()
}
