package h

import (
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

type template struct {
	stream, function int
	body             Item
}

// fullEquipment offers every service: variables, constants, events with reports, alarms, programs, commands, time.
func fullEquipment() *station {
	handled := vp.Param("handlers") == 1 || vp.Param("handlers") == 2 && vp.Choose("handlers", 2) == 1
	return equipment(func(g *gem.GemHandler) {
		a, _ := gem.NewStatusVariable(known[0].raw(), "first", "mm", gem.WithStatusValue(ast.NewUintNode(4, 7)))
		b, _ := gem.NewDataVariable(known[2].raw(), "second", gem.WithDataValueProvider(func() (ast.ItemNode, error) { return ast.NewASCIINode("x"), nil }))
		c, _ := gem.NewStatusVariable(known[1].raw(), "third", "", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, errBroken }))
		vp.Assert(g.RegisterStatusVariable(a) == nil && g.RegisterDataVariable(b) == nil && g.RegisterStatusVariable(c) == nil, "variables-registered")
		ec, err := gem.NewEquipmentConstant(known[0].raw(), "constant", ast.NewIntNode(4, 5), gem.WithEquipmentConstantUnit("s"), gem.WithEquipmentConstantMin(ast.NewIntNode(4, 0)), gem.WithEquipmentConstantMax(ast.NewIntNode(4, 9)))
		vp.Assert(err == nil && g.RegisterEquipmentConstant(ec) == nil, "constants-registered")
		for _, e := range events {
			ce, err := gem.NewCollectionEvent(e.raw(), "event")
			vp.Assert(err == nil && g.RegisterCollectionEvent(ce) == nil, "event-registered")
		}
		g.RegisterAlarm(gem.Alarm{ID: 5, Text: "hot"})
		vp.Assert(g.RegisterProcessProgram(known[1].raw(), "program") == nil, "program-registered")
		if handled {
			g.SetRemoteCommandHandler(func(r gem.RemoteCommandRequest) (gem.RemoteCommandResult, error) {
				return gem.RemoteCommandResult{}, nil
			})
			g.SetProcessProgramUploadHandler(func(id interface{}, body string) int { return 0 })
			g.SetProcessProgramRequestHandler(func(id interface{}) (string, int) { return "body", 0 })
			g.SetClockSyncHandler(func(t time.Time) (byte, error) { return 0, nil })
			g.SetTimeProvider(func() time.Time { return time.Unix(1700000000, 0) })
		}
	})
}

// functions of the equipment and of the host, with a good body of each
func equipmentFunctions() []template {
	v, e := known[0].as(kU4), events[0].as(kU4)
	return []template{
		{1, 1, Item{K: kNone}},
		{1, 3, list(v)},
		{1, 11, list(v)},
		{1, 13, list()},
		{1, 14, list(num(kB, 0), list())},
		{1, 15, Item{K: kNone}},
		{1, 17, Item{K: kNone}},
		{2, 13, list(v)},
		{2, 15, list(list(v, num(kI4, 3)))},
		{2, 17, Item{K: kNone}},
		{2, 29, list(v)},
		{2, 31, text("2024022923595800")},
		{2, 33, list(num(kU1, 0), list(list(num(kU4, 1), list(v))))},
		{2, 35, list(num(kU1, 0), list(list(e, list(num(kU4, 1)))))},
		{2, 37, list(num(kBool, 1), list(e))},
		{2, 41, list(text("GO"), list(list(text("P"), num(kU4, 3))))},
		{5, 3, list(num(kB, 128), list(num(kU4, 5)))},
		{5, 5, list()},
		{5, 7, list()},
		{6, 15, e},
		{7, 3, list(known[1].as(kU2), text("body"))},
		{7, 5, known[1].as(kU2)},
	}
}

func hostFunctions() []template {
	return []template{
		{1, 1, Item{K: kNone}},
		{1, 13, list(text("m"), text("r"))},
		{1, 14, list(num(kB, 0), list(text("m"), text("r")))},
		{5, 1, list(num(kB, 129), num(kU4, 5), text("hot"))},
		{6, 11, list(num(kU1, 0), num(kU4, 1), list(list(num(kU4, 1), list(num(kU4, 3)))))},
	}
}

func places(it Item) int {
	n := 1
	for _, l := range it.L {
		n += places(l)
	}
	return n
}

// put replaces the subtree at a place (counted from the root, depth first).
func put(it Item, at *int, by Item) Item {
	*at--
	if *at < 0 {
		return by
	}
	if it.K != kL {
		return it
	}
	l := list()
	for i, x := range it.L {
		if *at < 0 {
			l.L = append(l.L, it.L[i:]...)
			break
		}
		l.L = append(l.L, put(x, at, by))
	}
	return l
}

// twist changes a good body in one place: another item there, or one element more or less in a list.
func twist(it Item) Item {
	at := vp.Choose("place", places(it))
	if vp.Choose("resize", 3) > 0 {
		// the list at that place, one element longer or shorter
		cur := subtree(it, at)
		if cur.K != kL {
			vp.End()
		}
		l := list()
		if n := len(cur.L); vp.Choose("shorter", 2) == 1 {
			if n == 0 {
				vp.End()
			}
			l.L = append(l.L, cur.L[:n-1]...)
		} else {
			l.L = append(append(l.L, cur.L...), anyItem("more"))
		}
		return put(it, &at, l)
	}
	return put(it, &at, anyItem("item"))
}

func subtree(it Item, at int) Item {
	if at == 0 {
		return it
	}
	at--
	for _, l := range it.L {
		if n := places(l); at < n {
			return subtree(l, at)
		} else {
			at -= n
		}
	}
	return it
}

// probe: the endpoint still answers requests.
func (s *station) probe(equipment bool, good []template) {
	s.settled()
	if equipment {
		s.ask(1, 17, Item{K: kNone})
	}
	s.ask(1, 1, Item{K: kNone})
	for _, t := range good {
		if t.function%2 == 1 {
			s.ask(t.stream, t.function, t.body)
		}
	}
	s.settled()
}

// HAnything: no message can crash the endpoint or keep it from answering the next.
func HAnything() {
	var s *station
	var all []template
	group := vp.Param("group")
	if group == 0 && vp.Choose("host", 2) == 1 {
		s, all = host(nil), hostFunctions()
	} else {
		s, all = fullEquipment(), equipmentFunctions()
	}
	switch group {
	case 1: // reports
		all = append(append([]template{}, all[12:15]...), all[19])
	case 2: // variables and constants
		all = append(append([]template{}, all[1:3]...), all[7], all[8], all[10])
	case 3: // alarms, programs, commands, time
		all = append(append([]template{}, all[15:19]...), all[20], all[21], all[11])
	case 4: // communication and control
		all = append(append([]template{}, all[0]), all[3:7]...)
	}
	isEquipment := group > 0 || len(all) > 5
	s.establish()
	if vp.Param("prior") == 1 && isEquipment {
		s.ask(2, 33, list(num(kU1, 0), list(list(num(kU4, 1), list(known[0].as(kU4))))))
		s.ask(2, 35, list(num(kU1, 0), list(list(events[0].as(kU4), list(num(kU4, 1))))))
		s.ask(2, 37, list(num(kBool, 1), list()))
	}
	var good []template
	for i := 0; i < vp.Param("steps"); i++ {
		t := all[vp.Choose("function", len(all))]
		wait := group > 0 || vp.Choose("wait", 2) == 1
		b := twist(t.body)
		s.p.send(data(gemSession, t.stream, t.function, wait, []byte{0xCE, 0, 0, byte(i)}, refEncode(b)))
		s.recover(!(wait && t.function%2 == 0) && plain(b))
		if t.stream != 1 || t.function != 15 {
			good = append(good, t)
		}
	}
	s.probe(isEquipment, good)
	vp.Cover("alive")
	s.stop()
}

// HAnyBytes: the same for any stream, function and body bytes.
func HAnyBytes() {
	var s *station
	isHost := vp.Choose("host", 2) == 1
	if isHost {
		s = host(nil)
	} else {
		s = fullEquipment()
	}
	s.establish()
	b := vp.Bytes("body", vp.Choose("len", vp.Param("len")+1))
	stream, function := vp.Int("stream", 0, 127), vp.Int("function", 0, 255)
	wait := vp.Choose("wait", 2) == 1
	s.p.send(data(gemSession, stream, function, wait, []byte{0xCE, 0, 0, 1}, b))
	it, n, ok := refDecode(b)
	if len(b) == 0 {
		ok = true
	}
	s.recover(ok && n == len(b) && !(wait && function%2 == 0) && plain(it))
	s.probe(!isHost, nil)
	vp.Cover("alive")
	s.stop()
}

// recover: what is no valid message (a reply that asks for one, a body that is no item) may cost the link, not the
// endpoint.
func (s *station) recover(valid bool) {
	if valid {
		return
	}
	if _, alive := s.p.sync(); !alive {
		s.p.c.Close()
		s.connect()
		s.establish()
		vp.Cover("link-lost")
	}
}

// anyItem draws an item; its floats are a few chosen ones.
func anyItem(name string) Item {
	if vp.Param("few") == 1 {
		switch vp.Choose(name+".few", 4) {
		case 0:
			return list()
		case 1:
			return Item{K: kU4}
		case 2:
			return num(kU4, uint64(vp.U32(name)))
		}
		return Item{K: kA, V: vals(name, kA, 1)}
	}
	return someFloats(genItem(name, vp.Param("depth"), vp.Param("width")))
}

func someFloats(it Item) Item {
	for i := range it.L {
		it.L[i] = someFloats(it.L[i])
	}
	if it.K == kF4 {
		for i := range it.V {
			it.V[i] = []uint64{0x40a00000, 0x7fc00000, 0xff7fffff}[vp.Choose("float", 3)]
		}
	} else if it.K == kF8 {
		for i := range it.V {
			it.V[i] = []uint64{0x4014000000000000, 0x7ff8000000000001, 0x7ff0000000000000}[vp.Choose("float", 3)]
		}
	}
	return it
}

// plain: floats are finite and text is ASCII, as the library's items require.
func plain(it Item) bool {
	for _, l := range it.L {
		if !plain(l) {
			return false
		}
	}
	if it.K == kA {
		for _, v := range it.V {
			if v > 0x7f {
				return false
			}
		}
	}
	if it.K == kF4 || it.K == kF8 {
		for _, v := range it.V {
			if !isFinite(v, it.K) {
				return false
			}
		}
	}
	return true
}
