package h

import (
	"errors"
	"sync"
	"time"

	"verif/harness/vp"

	link "github.com/younglifestyle/secs4go"
)

// nopCodec counts closes; Receive fails or yields nothing.
type nopCodec struct {
	mu     sync.Mutex
	closes int
	fail   bool
	sent   int
}

func (c *nopCodec) Receive() (interface{}, error) {
	if c.fail {
		return nil, errors.New("receive")
	}
	return 1, nil
}
func (c *nopCodec) Send(interface{}) error {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.fail {
		return errors.New("send")
	}
	c.sent++
	return nil
}
func (c *nopCodec) Close() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.closes++
	return nil
}

// settle lets the goroutines that were started finish.
func settle() { time.Sleep(30 * time.Millisecond) }

// HSessionHistory: callbacks are added and removed and the session closed in any order.
func HSessionHistory() {
	c := &nopCodec{}
	s := link.NewSession(c, vp.Param("queue"))
	var mu sync.Mutex
	var ran []int
	type cb struct{ key, n int }
	var want []cb
	closed := false
	n := 0
	handlers := []interface{}{"a", "b"}
	before := vp.Param("before")
	for i := 0; i < before+vp.Param("steps"); i++ {
		op := i
		if i >= before {
			op = vp.Choose("op", 8)
		}
		switch {
		case op < 3: // two keys of one handler, the first key of another
			n++
			id := n
			s.AddCloseCallback(handlers[op/2], op%2, func() {
				mu.Lock()
				defer mu.Unlock()
				ran = append(ran, id)
			})
			if !closed {
				want = append(want, cb{op, id})
			}
		case op < 6:
			s.RemoveCloseCallback(handlers[(op-3)/2], (op-3)%2)
			for j, w := range want {
				if w.key == op-3 && !closed {
					want = append(append([]cb{}, want[:j]...), want[j+1:]...)
					break
				}
			}
		case op == 6:
			err := s.Close()
			vp.Assert((err == nil) == !closed, "second-close-is-an-error")
			closed = true
		case op == 7: // a broken transport closes the session
			c.fail = true
			if vp.Choose("by", 2) == 0 {
				_, err := s.Receive()
				vp.Assert(err != nil, "receive-error-returned")
			} else {
				err := s.Send(1)
				vp.Assert(err != nil || vp.Param("queue") > 0 && !closed, "send-error-returned")
			}
			settle()
			c.fail = false
			closed = true
		}
		settle()
		vp.Assert(s.IsClosed() == closed, "closed")
		if closed {
			vp.Cover("closed")
			vp.Assert(len(ran) == len(want), "each-callback-once")
			for j := 0; j < len(ran) && j < len(want); j++ {
				vp.Assert(ran[j] == want[j].n, "callback-order")
			}
			vp.Assert(c.closes == 1, "transport-closed-once")
			vp.Assert(s.Send(1) != nil, "closed-session-refuses-to-send")
		} else {
			vp.Assert(len(ran) == 0 && c.closes == 0, "no-callback-before-close")
		}
	}
	if !closed {
		sent := c.sent
		vp.Assert(s.Send(1) == nil, "open-session-sends")
		settle()
		vp.Assert(c.sent == sent+1, "sent-once")
		vp.Assert(s.Close() == nil, "close")
		settle()
		vp.Assert(len(ran) == len(want), "each-callback-once")
		for j := 0; j < len(ran) && j < len(want); j++ {
			vp.Assert(ran[j] == want[j].n, "callback-order")
		}
	}
}

// HSessionRace: several goroutines close a session while callbacks are added or removed.
func HSessionRace() {
	c := &nopCodec{}
	s := link.NewSession(c, vp.Param("queue"))
	var mu sync.Mutex
	ran := map[string]int{}
	var order []string
	add := func(k string) {
		s.AddCloseCallback("h", k, func() {
			mu.Lock()
			defer mu.Unlock()
			ran[k]++
			order = append(order, k)
		})
	}
	add("a")
	add("b")
	var wg sync.WaitGroup
	wins := 0
	for i := 0; i < vp.Param("closers"); i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if s.Close() == nil {
				mu.Lock()
				wins++
				mu.Unlock()
			}
		}()
	}
	op := vp.Choose("op", 3)
	wg.Add(1)
	go func() {
		defer wg.Done()
		switch op {
		case 0:
			add("c")
		case 1:
			s.RemoveCloseCallback("h", "b")
		case 2:
			s.Send(1)
		}
	}()
	wg.Wait()
	settle()
	vp.Cover("closed")
	vp.Assert(wins == 1, "one-close-succeeds")
	vp.Assert(c.closes == 1, "transport-closed-once")
	vp.Assert(ran["a"] == 1, "each-callback-once")
	vp.Assert(ran["b"] == 1 || op == 1 && ran["b"] == 0, "each-callback-once")
	vp.Assert(ran["c"] <= 1, "each-callback-once")
	for i := 1; i < len(order); i++ {
		vp.Assert(order[i-1] < order[i], "callback-order")
	}
}

// HManager: sessions are created and closed, singly and by disposal.
func HManager() {
	m := link.NewManager()
	var all []*link.Session
	open := map[int]bool{}
	codecs := []*nopCodec{}
	disposed := false
	for i := 0; i < vp.Param("before"); i++ {
		c := &nopCodec{}
		all, codecs = append(all, m.NewSession(c, 0)), append(codecs, c)
		open[i] = true
	}
	for i := 0; i < vp.Param("steps"); i++ {
		op := vp.Choose("op", 3)
		switch {
		case op == 0:
			c := &nopCodec{}
			s := m.NewSession(c, vp.Param("queue"))
			all, codecs = append(all, s), append(codecs, c)
			open[len(all)-1] = !disposed
		case op == 1:
			if len(all) == 0 {
				continue
			}
			k := vp.Choose("which", len(all))
			all[k].Close()
			open[k] = false
		case op == 2:
			m.Dispose()
			disposed = true
			for k := range all {
				open[k] = false
			}
		}
		settle()
		vp.Cover("step")
		for k, s := range all {
			vp.Assert(s.IsClosed() == !open[k], "open")
			g := m.GetSession(s.ID())
			if open[k] {
				vp.Assert(g == s, "open-session-found")
			} else {
				vp.Assert(g == nil, "closed-session-not-found")
				vp.Assert(codecs[k].closes == 1, "transport-closed-once")
			}
			for l := 0; l < k; l++ {
				vp.Assert(all[l].ID() != s.ID(), "ids-differ")
			}
		}
	}
	vp.Assert(m.GetSession(^uint64(0)) == nil, "unknown-not-found")
}

// HManagerRace: disposal while sessions are created and closed.
func HManagerRace() {
	m := link.NewManager()
	c1 := &nopCodec{}
	s1 := m.NewSession(c1, 0)
	var s2 *link.Session
	c2 := &nopCodec{}
	var wg sync.WaitGroup
	wg.Add(3)
	go func() { defer wg.Done(); s2 = m.NewSession(c2, 0) }()
	go func() { defer wg.Done(); s1.Close() }()
	go func() { defer wg.Done(); m.Dispose() }()
	wg.Wait()
	settle()
	vp.Cover("disposed")
	vp.Assert(s1.IsClosed() && s2.IsClosed(), "all-closed")
	vp.Assert(c1.closes == 1 && c2.closes == 1, "transport-closed-once")
	vp.Assert(m.GetSession(s1.ID()) == nil && m.GetSession(s2.ID()) == nil, "closed-session-not-found")
}

// HChannel: a channel's content after any history.
func HChannel() {
	ch := link.NewChannel()
	ns, nk := vp.Param("sessions"), vp.Param("keys")
	ss := make([]*link.Session, ns)
	for i := range ss {
		ss[i] = link.NewSession(&nopCodec{}, 0)
	}
	model := map[int]int{} // key -> session
	for i := 0; i < vp.Param("steps"); i++ {
		op := vp.Choose("op", 5)
		switch op {
		case 0:
			k, s := vp.Choose("key", nk), vp.Choose("session", ns)
			ch.Put(k, ss[s])
			model[k] = s
		case 1:
			k := vp.Choose("key", nk)
			_, had := model[k]
			vp.Assert(ch.Remove(k) == had, "remove-tells")
			delete(model, k)
		case 2:
			s := vp.Choose("session", ns)
			ss[s].Close()
		case 3:
			n := 0
			ch.FetchAndRemove(func(*link.Session) { n++ })
			vp.Assert(n == len(model), "fetch-reaches-all")
			model = map[int]int{}
		case 4:
			ch.Close()
			model = map[int]int{}
		}
		settle()
		for k, s := range model {
			if ss[s].IsClosed() {
				delete(model, k)
			}
		}
		vp.Cover("step")
		vp.Assert(ch.Len() == len(model), "len")
		for k := 0; k < nk; k++ {
			s, ok := model[k]
			g := ch.Get(k)
			vp.Assert(ok && g == ss[s] || !ok && g == nil, "get")
		}
		count := map[*link.Session]int{}
		ch.Fetch(func(s *link.Session) { count[s]++ })
		for _, s := range model {
			count[ss[s]]--
		}
		for _, c := range count {
			vp.Assert(c == 0, "fetch-reaches-all")
		}
	}
}

// HChannelRace: a session is put, replaced or removed while it closes.
func HChannelRace() {
	ch := link.NewChannel()
	s1, s2 := link.NewSession(&nopCodec{}, 0), link.NewSession(&nopCodec{}, 0)
	op := vp.Choose("op", 4)
	if op > 0 {
		ch.Put("k", s1)
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); s1.Close() }()
	go func() {
		defer wg.Done()
		switch op {
		case 0:
			ch.Put("k", s1)
		case 1:
			ch.Put("k", s2)
		case 2:
			ch.Remove("k")
		case 3:
			ch.FetchAndRemove(func(*link.Session) {})
		}
	}()
	wg.Wait()
	settle()
	vp.Cover("done")
	if op == 1 {
		vp.Assert(ch.Len() == 1 && ch.Get("k") == s2, "replacement-stays")
	} else {
		vp.Assert(ch.Len() == 0 && ch.Get("k") == nil, "closed-session-not-kept")
	}
}
