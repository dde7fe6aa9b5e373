package h

import (
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/lib-secs2-hsms-go/pkg/ast"
)

// Events and reports used by the checks. The last event is linked only to look at reports.
var (
	events  = []ident{{num: true, n: 10}, {s: "EV"}, {num: true, n: 77000}}
	reports = []ident{{num: true, n: 5}, {s: "R"}}
)

const probe = 2

// as is an identifier as the peer sends it.
func (a ident) as(k int) Item {
	if a.num && len(a.item.V) == 1 { // as the peer sent it: k may be too narrow
		return a.item
	}
	if a.num {
		return num(k, a.n)
	}
	return text(a.s)
}

func (a ident) any() interface{} {
	if a.num {
		return a.n
	}
	return a.s
}

type rdef struct {
	id   ident
	vids []int // indices of known
}

type rlink struct {
	event   int // index of events
	reports []ident
	enabled bool
}

// rmodel is what an equipment's reports and links should be.
type rmodel struct {
	reports []rdef
	links   []rlink
	values  []Item // current values of known
}

func (m *rmodel) copy() *rmodel {
	n := &rmodel{values: m.values}
	n.reports = append(n.reports, m.reports...)
	for _, l := range m.links {
		l.reports = append([]ident{}, l.reports...)
		n.links = append(n.links, l)
	}
	return n
}

func (m *rmodel) find(id ident) *rdef {
	for i := range m.reports {
		if m.reports[i].id.is(id) {
			return &m.reports[i]
		}
	}
	return nil
}

func (m *rmodel) link(event int) *rlink {
	for i := range m.links {
		if m.links[i].event == event {
			return &m.links[i]
		}
	}
	return nil
}

func (m *rmodel) unlink(event int) {
	for i := range m.links {
		if m.links[i].event == event {
			m.links = append(m.links[:i:i], m.links[i+1:]...)
			return
		}
	}
}

func (m *rmodel) drop(id ident) {
	for i := range m.reports {
		if m.reports[i].id.is(id) {
			m.reports = append(m.reports[:i:i], m.reports[i+1:]...)
			break
		}
	}
	for i := 0; i < len(m.links); i++ {
		l := &m.links[i]
		for j := range l.reports {
			if l.reports[j].is(id) {
				l.reports = append(l.reports[:j:j], l.reports[j+1:]...)
				break
			}
		}
		if len(l.reports) == 0 {
			m.links = append(m.links[:i:i], m.links[i+1:]...)
			i--
		}
	}
}

// body is the report list an event report should have.
func (m *rmodel) body(event int) Item {
	out := list()
	l := m.link(event)
	if l == nil || !l.enabled {
		return out
	}
	for _, id := range l.reports {
		r := m.find(id)
		vals := list()
		for _, v := range r.vids {
			vals.L = append(vals.L, m.values[v])
		}
		out.L = append(out.L, list(id.as(kU4), vals))
	}
	return out
}

// sameReports compares report lists, whatever the width of the identifiers.
func sameReports(got, want Item) bool {
	if got.K != kL || len(got.L) != len(want.L) {
		return false
	}
	for i := range got.L {
		g, w := got.L[i], want.L[i]
		if g.K != kL || len(g.L) != 2 {
			return false
		}
		id, _ := identOf(w.L[0])
		if !isID(g.L[0], id) || g.L[1].K != kL || len(g.L[1].L) != len(w.L[1].L) {
			return false
		}
		for j, v := range w.L[1].L {
			x := g.L[1].L[j]
			if v.K == kNone {
				if !isEmpty(x) {
					return false
				}
			} else if !eqItem(x, v) {
				return false
			}
		}
	}
	return true
}

// reporting makes equipment with three variables (one unavailable) and the events.
func reporting(values ...Item) (*station, *rmodel) {
	m := &rmodel{values: []Item{values[0], {K: kNone}, values[1]}}
	broken := vp.Param("broken")
	if broken < 0 {
		broken = vp.Choose("unavailable", 4)
	}
	s := equipment(func(g *gem.GemHandler) {
		a, err1 := gem.NewStatusVariable(known[0].raw(), "first", "mm", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return node(m.values[0]), nil }))
		b, err2 := gem.NewDataVariable(known[2].raw(), "second", gem.WithDataValueProvider(func() (ast.ItemNode, error) { return node(m.values[2]), nil }))
		vp.Assert(err1 == nil && err2 == nil, "variables-made")
		vp.Assert(g.RegisterStatusVariable(a) == nil && g.RegisterDataVariable(b) == nil, "variables-registered")
		var err error
		switch broken {
		case 0:
			var c *gem.DataVariable
			c, err = gem.NewDataVariable(known[1].raw(), "third", gem.WithDataValueProvider(func() (ast.ItemNode, error) { return nil, errBroken }))
			vp.Assert(err == nil && g.RegisterDataVariable(c) == nil, "variables-registered")
		case 1:
			var c *gem.DataVariable
			c, err = gem.NewDataVariable(known[1].raw(), "third")
			vp.Assert(err == nil && g.RegisterDataVariable(c) == nil, "variables-registered")
		case 2:
			var c *gem.StatusVariable
			c, err = gem.NewStatusVariable(known[1].raw(), "third", "", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, errBroken }))
			vp.Assert(err == nil && g.RegisterStatusVariable(c) == nil, "variables-registered")
		default:
			var c *gem.StatusVariable
			c, err = gem.NewStatusVariable(known[1].raw(), "third", "", gem.WithStatusValueProvider(func() (ast.ItemNode, error) { return nil, nil }))
			vp.Assert(err == nil && g.RegisterStatusVariable(c) == nil, "variables-registered")
		}
		for _, e := range events {
			c, err := gem.NewCollectionEvent(e.raw(), "event")
			vp.Assert(err == nil && g.RegisterCollectionEvent(c) == nil, "event-registered")
		}
	})
	return s, m
}

// acks is the set of codes a message may be answered with.
type acks [8]bool

func (a acks) fit(got int) bool {
	any := false
	for _, x := range a {
		any = any || x
	}
	if !any {
		return got == 0
	}
	return got > 0 && got < len(a) && a[got]
}

// genVID draws a variable of a report: v is its index, or -1 (unknown) or -2 (no identifier).
func genVID() (it Item, v int) {
	switch c := vp.Choose("vid", 5); {
	case c < 3:
		return known[c].as(kU2), c
	case c == 3:
		it = genID("vid")
		id, ok := identOf(it)
		if !ok {
			return it, -2
		}
		for i, k := range known {
			if id.is(k) {
				return it, i
			}
		}
		return it, -1
	}
	return genBad("vid"), -2
}

// genReportID draws a report id: a usual one or any.
func genReportID() (it Item, id ident, ok bool) {
	c := vp.Choose("rptid", len(reports)+1)
	if c < len(reports) {
		it = reports[c].as([]int{kU4, kU1}[vp.Choose("width", vp.Param("widths"))])
	} else {
		it = genID("rptid")
	}
	id, ok = identOf(it)
	return
}

// define makes an S2F33 and tells its codes; next is the model after it is accepted.
func (m *rmodel) define(n, nv int) (msg Item, a acks, next *rmodel) {
	next = m.copy()
	ents := list()
	var named []ident
	for i := vp.Choose("entries", n+1); i > 0; i-- {
		if c := vp.Choose("entry", vp.Param("malformed")*4+1); c > 0 {
			ents.L = append(ents.L, []Item{num(kU4, 9), list(num(kU4, 9)), list(num(kU4, 9), num(kU4, 1)), list(genBad("rptid"), list(known[0].as(kU4)))}[c-1])
			a[2] = true
			continue
		}
		it, id, ok := genReportID()
		if !ok {
			a[2] = true
		}
		r := rdef{id: id}
		vids := list()
		for j := vp.Choose("vids", nv+1); j > 0; j-- {
			vit, v := genVID()
			vids.L = append(vids.L, vit)
			r.vids = append(r.vids, v)
			if v == -1 {
				a[4] = true
			}
			if v == -2 {
				a[2] = true
			}
		}
		ents.L = append(ents.L, list(it, vids))
		if !ok {
			continue
		}
		if len(r.vids) == 0 {
			next.drop(id)
			continue
		}
		if m.find(id) != nil {
			a[3] = true
		}
		for _, x := range named {
			if x.is(id) {
				a[3] = true
			}
		}
		named = append(named, id)
		next.reports = append(next.reports, r)
	}
	if len(ents.L) == 0 {
		next = &rmodel{values: m.values}
	}
	return list(num(kU4, 1), ents), a, next
}

// defineBad makes an S2F33, S2F35 or S2F37 whose outer shape is wrong.
func malformed() Item {
	switch vp.Choose("shape", 4) {
	case 0:
		return num(kU4, 1)
	case 1:
		return text("x")
	case 2:
		return list(num(kU4, 1))
	}
	return list(num(kU4, 1), num(kU4, 1))
}

// query checks what S6F15 shows of an event.
func (s *station) query(m *rmodel, event int) {
	got := s.ask(6, 15, events[event].as(kU4))
	ok := got.K == kL && len(got.L) == 3
	vp.Assert(ok, "report-of-three")
	if !ok {
		vp.End()
	}
	vp.Assert(isID(got.L[1], events[event]), "report-names-event")
	vp.Assert(sameReports(got.L[2], m.body(event)), "report-as-linked")
}

// peek checks the definition of a report by linking it to the spare event.
func (s *station) peek(m *rmodel, id ident) {
	ack := ackOf(s.ask(2, 35, list(num(kU4, 1), list(list(events[probe].as(kU4), list(id.as(kU4)))))))
	if m.find(id) == nil {
		vp.Assert(ack == 5, "report-undefined")
		return
	}
	vp.Assert(ack == 0, "report-defined")
	m.links = append(m.links, rlink{event: probe, reports: []ident{id}, enabled: true})
	s.query(m, probe)
	vp.Assert(ackOf(s.ask(2, 35, list(num(kU4, 1), list(list(events[probe].as(kU4), list()))))) == 0, "report-unlinked")
	m.unlink(probe)
}

// prior sets up reports and links.
func (s *station) prior(m *rmodel) {
	st := vp.Choose("prior", vp.Param("priors"))
	if st == 0 {
		return
	}
	m.reports = []rdef{{reports[0], []int{0, 2}}, {reports[1], []int{1}}}
	ents := list(list(reports[0].as(kU4), list(known[0].as(kU4), known[2].as(kU4))), list(reports[1].as(kU4), list(known[1].as(kU4))))
	if st == 2 { // one report only
		m.reports, ents.L = m.reports[:1], ents.L[:1]
	}
	vp.Assert(ackOf(s.ask(2, 33, list(num(kU4, 1), ents))) == 0, "reports-defined")
	m.links = []rlink{{0, []ident{reports[0]}, true}}
	links := list(list(events[0].as(kU4), list(reports[0].as(kU4))))
	if st == 3 {
		m.links = append(m.links, rlink{1, []ident{reports[1], reports[0]}, true})
		links.L = append(links.L, list(events[1].as(kU4), list(reports[1].as(kU4), reports[0].as(kU4))))
	}
	vp.Assert(ackOf(s.ask(2, 35, list(num(kU4, 1), links))) == 0, "reports-linked")
	if st == 4 { // disabled
		m.links[0].enabled = false
		vp.Assert(ackOf(s.ask(2, 37, list(num(kBool, 0), list(events[0].as(kU4))))) == 0, "event-disabled")
	}
}

// HDefine: S2F33 defines and deletes reports all or nothing.
func HDefine() {
	s, m := reporting(num(kU4, uint64(vp.U32("value"))), text("x"))
	s.prior(m)
	var fresh []ident
	for step := vp.Param("steps"); step > 0; step-- {
		if vp.Choose("outer", 1+vp.Param("malformed")) == 1 {
			vp.Assert(ackOf(s.ask(2, 33, malformed())) == 2, "malformed-refused")
			vp.Cover("malformed")
			continue
		}
		msg, a, next := m.define(vp.Param("n"), vp.Param("nv"))
		ack := ackOf(s.ask(2, 33, msg))
		vp.Assert(a.fit(ack), "acknowledge")
		if ack == 0 {
			vp.Cover("defined")
			m = next
		} else {
			vp.Cover("refused")
		}
		for _, e := range msg.L[1].L {
			if e.K == kL && len(e.L) > 0 {
				if id, ok := identOf(e.L[0]); ok {
					fresh = append(fresh, id)
				}
			}
		}
		for e := range events[:probe] {
			s.query(m, e)
		}
	}
	s.switchable(m)
	for _, id := range append(append([]ident{}, reports...), fresh...) {
		s.peek(m, id)
	}
	s.settled()
	s.stop()
}

// HLink: S2F35 links and unlinks reports all or nothing.
func HLink() {
	s, m := reporting(num(kU4, uint64(vp.U32("value"))), text("x"))
	s.prior(m)
	for step := vp.Param("steps"); step > 0; step-- {
		if vp.Choose("outer", 1+vp.Param("malformed")) == 1 {
			vp.Assert(ackOf(s.ask(2, 35, malformed())) == 2, "malformed-refused")
			vp.Cover("malformed")
		} else {
			msg, a, next := m.linking(vp.Param("n"), vp.Param("nr"))
			ack := ackOf(s.ask(2, 35, msg))
			vp.Assert(a.fit(ack), "acknowledge")
			if ack == 0 {
				vp.Cover("linked")
				m = next
			} else {
				vp.Cover("refused")
			}
		}
		for e := range events[:probe] {
			s.query(m, e)
		}
	}
	s.switchable(m)
	s.settled()
	s.stop()
}

// switchable checks that exactly the linked events can be enabled, and what they report then.
func (s *station) switchable(m *rmodel) {
	for e := range events[:probe] {
		ack := ackOf(s.ask(2, 37, list(num(kBool, 1), list(events[e].as(kU4)))))
		l := m.link(e)
		vp.Assert(ack >= 0 && (ack == 0) == (l != nil), "linked-can-be-enabled")
		if l != nil {
			l.enabled = true
		}
		s.query(m, e)
	}
}

// genEvent draws an event: index of events, -1 unknown, -2 no identifier.
func genEvent() (it Item, e int) {
	switch c := vp.Choose("ceid", 4); {
	case c < 2:
		return events[c].as(kU4), c
	case c == 2:
		it = genID("ceid")
		id, ok := identOf(it)
		if !ok {
			return it, -2
		}
		for i, x := range events {
			if id.is(x) {
				vp.Assume(i != probe)
				return it, i
			}
		}
		return it, -1
	}
	return genBad("ceid"), -2
}

func (m *rmodel) linking(n, nr int) (msg Item, a acks, next *rmodel) {
	next = m.copy()
	ents := list()
	type pair struct {
		e  int
		id ident
	}
	var named []pair
	for i := vp.Choose("entries", n+1); i > 0; i-- {
		if c := vp.Choose("entry", vp.Param("malformed")*3+1); c > 0 {
			ents.L = append(ents.L, []Item{num(kU4, 9), list(events[0].as(kU4)), list(events[0].as(kU4), num(kU4, 5))}[c-1])
			a[2] = true
			continue
		}
		it, e := genEvent()
		if e == -1 {
			a[4] = true
		}
		if e == -2 {
			a[2] = true
		}
		rpts := list()
		var ids []ident
		for j := vp.Choose("rptids", nr+1); j > 0; j-- {
			rit, id, ok := genReportID()
			rpts.L = append(rpts.L, rit)
			if !ok {
				a[2] = true
				continue
			}
			if m.find(id) == nil {
				a[5] = true
			}
			if e >= 0 {
				if l := m.link(e); l != nil {
					for _, x := range l.reports {
						if x.is(id) {
							a[3] = true
						}
					}
				}
				for _, p := range named {
					if p.e == e && p.id.is(id) {
						a[3] = true
					}
				}
				named = append(named, pair{e, id})
			}
			ids = append(ids, id)
		}
		ents.L = append(ents.L, list(it, rpts))
		if e < 0 {
			continue
		}
		if len(rpts.L) == 0 {
			next.unlink(e)
		} else if l := next.link(e); l != nil {
			l.reports = append(l.reports, ids...)
		} else {
			next.links = append(next.links, rlink{e, ids, true})
		}
	}
	return list(num(kU4, 1), ents), a, next
}

// HEnable: S2F37 switches events all or nothing and only enabled ones are reported.
func HEnable() {
	value := num(kU2, uint64(vp.U16("value")))
	s, m := reporting(value, text("x"))
	s.establish()
	s.prior(m)
	s.settled()
	for step := vp.Param("steps"); step > 0; step-- {
		switch vp.Choose("step", 3) {
		case 0: // switch
			var ceed Item
			b := uint64(vp.Byte("ceed")) // any other value than zero is true
			enable := b != 0
			ceed = num([]int{kBool, kB}[vp.Choose("ceed.type", vp.Param("widths"))], b)
			ents := list()
			bad := false
			next := m.copy()
			n := vp.Choose("entries", vp.Param("n")+1)
			if n == 0 {
				for i := range next.links {
					next.links[i].enabled = enable
				}
			}
			for ; n > 0; n-- {
				it, e := genEvent()
				ents.L = append(ents.L, it)
				if e < 0 || m.link(e) == nil {
					bad = true
					continue
				}
				next.link(e).enabled = enable
			}
			ack := ackOf(s.ask(2, 37, list(ceed, ents)))
			vp.Assert((ack == 0) == !bad && ack >= 0, "acknowledge")
			if !bad {
				vp.Cover("switched")
				m = next
			} else {
				vp.Cover("refused")
			}
		case 1: // malformed
			var msg Item
			switch vp.Choose("shape", 5) {
			case 0:
				msg = num(kBool, 0)
			case 1:
				msg = list(num(kBool, 0))
			case 2:
				msg = list(num(kBool, 0), num(kU4, 10))
			case 3:
				msg = list(text("x"), list())
			default:
				msg = list(Item{K: kBool}, list())
			}
			ack := ackOf(s.ask(2, 37, msg))
			vp.Assert(ack > 0, "malformed-refused")
		default: // trigger
			var want []int
			var err error
			switch vp.Choose("trigger", 4) {
			case 0:
				want = []int{0}
				err = s.g.TriggerCollectionEvent(events[0].raw())
			case 1:
				want = []int{1}
				err = s.g.TriggerCollectionEvent(events[1].raw())
			case 2:
				want = []int{0, 1}
				err = s.g.TriggerCollectionEvent(events[0].raw(), events[1].raw())
			default: // unknown
				id := vp.U32("trigger")
				vp.Assume(id != 10 && id != 77000)
				s.g.TriggerCollectionEvent(id)
			}
			vp.Assert(err == nil, "triggered")
			s.sent(m, want)
		}
	}
	vp.Assert(s.g.TriggerCollectionEvent(events[0].raw(), events[1].raw()) == nil, "triggered")
	s.sent(m, []int{0, 1})
	s.stop()
}

// sent checks that exactly the enabled ones of the events are reported.
func (s *station) sent(m *rmodel, triggered []int) {
	time.Sleep(quiet() / 4)
	got := make([]int, len(events))
	for _, f := range s.settled() {
		if f.stype() != sData || f.h[2]&0x7f != 6 || f.h[3] != 11 {
			vp.Assert(false, "only-event-reports")
			continue
		}
		it, n, ok := refDecode(f.body)
		ok = ok && n == len(f.body) && it.K == kL && len(it.L) == 3
		vp.Assert(ok, "event-report")
		if !ok {
			continue
		}
		found := false
		for e := range events {
			if isID(it.L[1], events[e]) {
				found = true
				got[e]++
				vp.Assert(sameReports(it.L[2], m.body(e)), "report-as-linked")
			}
		}
		vp.Assert(found, "event-report")
	}
	for e := range events {
		want := 0
		for _, t := range triggered {
			if t == e && len(m.body(e).L) > 0 {
				want++
				vp.Cover("reported")
			}
			if t == e && len(m.body(e).L) == 0 {
				vp.Cover("not-reported")
			}
		}
		vp.Assert(got[e] == want, "reported-exactly-if-enabled")
	}
}

// HReport: reports carry current values in order, whatever the values, definitions and links.
func HReport() {
	var v0 Item
	if c := vp.Choose("first", vp.Param("shapes")); c < 3 {
		v0 = []Item{list(list(num(kU1, uint64(vp.Byte("u1")))), Item{K: kB}), {K: kI4, V: vals("i4", kI4, 2)}, {K: kA, V: vals("text", kA, 2)}}[c]
	} else {
		v0 = genItem("first", 1, 1)
	}
	v1 := list(num(kI8, vp.U64("second")), text("t"))
	s, m := reporting(v0, v1)
	s.establish()
	s.settled()
	ents := list()
	for i := 0; i < 2; i++ {
		vids := list()
		r := rdef{id: reports[i]}
		if i == 0 && vp.Param("nv") < 2 {
			r.vids = [][]int{{0}, {1}, {2, 0}, {2, 2}, {0, 1, 2, 0}}[vp.Choose("vids", 5)]
		} else {
			for j := vp.Choose("vids", vp.Param("nv")) + 1; j > 0; j-- {
				r.vids = append(r.vids, vp.Choose("vid", 3))
			}
		}
		for _, v := range r.vids {
			vids.L = append(vids.L, known[v].as(kU4))
		}
		m.reports = append(m.reports, r)
		ents.L = append(ents.L, list(reports[i].as(kU4), vids))
	}
	vp.Assert(ackOf(s.ask(2, 33, list(num(kU4, 1), ents))) == 0, "reports-defined")
	e := vp.Choose("event", 2)
	l := rlink{event: e, enabled: true}
	switch vp.Choose("link", 3) {
	case 0:
		l.reports = []ident{reports[0], reports[1]}
	case 1:
		l.reports = []ident{reports[1], reports[0]}
	default:
		l.reports = []ident{reports[1]}
	}
	rpts := list()
	for _, r := range l.reports {
		rpts.L = append(rpts.L, r.as(kU4))
	}
	if vp.Choose("apart", 2) == 1 { // one message for each report
		for _, r := range rpts.L {
			vp.Assert(ackOf(s.ask(2, 35, list(num(kU4, 1), list(list(events[e].as(kU4), list(r)))))) == 0, "reports-linked")
		}
	} else {
		vp.Assert(ackOf(s.ask(2, 35, list(num(kU4, 1), list(list(events[e].as(kU4), rpts))))) == 0, "reports-linked")
	}
	m.links = []rlink{l}
	look := func(ways int) {
		switch vp.Choose("how", ways) {
		case 2: // disabled, nothing is reported
			m.links[0].enabled = false
			vp.Assert(ackOf(s.ask(2, 37, list(num(kBool, 0), list(events[e].as(kU4))))) == 0, "event-disabled")
			s.query(m, e)
			vp.Cover("disabled")
		case 0:
			s.query(m, e)
			vp.Cover("requested")
		default:
			vp.Assert(s.g.TriggerCollectionEvent(events[e].raw()) == nil, "triggered")
			s.sent(m, []int{e})
			vp.Cover("triggered")
		}
	}
	look(2)
	m.values = []Item{num(kF8, 0x3ff0000000000000), {K: kNone}, Item{K: kA}}
	look(3)
	// any other identifier: nothing to report
	it := genID("ceid")
	if id, ok := identOf(it); ok && !id.is(events[e]) {
		got := s.ask(6, 15, it)
		ok := got.K == kL && len(got.L) == 3 && got.L[2].K == kL && len(got.L[2].L) == 0
		vp.Assert(ok, "no-reports-of-others")
		vp.Assert(ok && isID(got.L[1], id), "report-names-event")
		vp.Cover("other")
	}
	s.settled()
	s.stop()
}
