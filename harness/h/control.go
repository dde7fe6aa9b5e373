package h

import (
	"sync"
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/gem"
	"github.com/younglifestyle/secs4go/hsms"
)

// ctl is a control state of the E30 model with the local/remote choice.
type ctl struct {
	state gem.ControlState
	mode  gem.OnlineControlMode
}

const (
	cEquip   = gem.ControlStateEquipmentOffline
	cAttempt = gem.ControlStateAttemptOnline
	cHost    = gem.ControlStateHostOffline
	cLocal   = gem.ControlStateOnlineLocal
	cRemote  = gem.ControlStateOnlineRemote
)

// Actions of the control model.
const (
	aSwitchOnline = iota
	aSwitchOffline
	aLocal
	aRemote
	aFailEquipment
	aFailHost
	aSuccess
	aRemoteOffline
	aRemoteOnline
	nActions
)

func (c ctl) online() bool { return c.state == cLocal || c.state == cRemote }

func (c ctl) goOnline() ctl {
	c.state = cRemote
	if c.mode == gem.OnlineModeLocal {
		c.state = cLocal
	}
	return c
}

// next is the state the E30 diagram prescribes. free: the target holds already, so an error is as good as none.
func (c ctl) next(a int) (n ctl, ok, free bool) {
	n = c
	switch a {
	case aSwitchOnline:
		ok, free = c.state == cEquip, c.state == cAttempt
		if ok {
			n.state = cAttempt
		}
	case aSwitchOffline:
		ok, free = c.online() || c.state == cHost, c.state == cEquip
		if ok {
			n.state = cEquip
		}
	case aLocal:
		ok, free = c.state == cRemote, c.state == cLocal
		if ok {
			n.state, n.mode = cLocal, gem.OnlineModeLocal
		}
	case aRemote:
		ok, free = c.state == cLocal, c.state == cRemote
		if ok {
			n.state, n.mode = cRemote, gem.OnlineModeRemote
		}
	case aFailEquipment:
		ok, free = c.state == cAttempt, c.state == cEquip
		if ok {
			n.state = cEquip
		}
	case aFailHost:
		ok, free = c.state == cAttempt, c.state == cHost
		if ok {
			n.state = cHost
		}
	case aSuccess:
		ok, free = c.state == cAttempt, c.online()
		if ok {
			n = c.goOnline()
		}
	case aRemoteOffline:
		ok, free = c.online(), c.state == cHost
		if ok {
			n.state = cHost
		}
	case aRemoteOnline:
		ok, free = c.state == cHost, c.online()
		if ok {
			n = c.goOnline()
		}
	}
	return n, ok, free
}

func actOn(sm *gem.ControlStateMachine, a int) error {
	switch a {
	case aSwitchOnline:
		return sm.SwitchOnline()
	case aSwitchOffline:
		return sm.SwitchOffline()
	case aLocal:
		return sm.SwitchOnlineLocal()
	case aRemote:
		return sm.SwitchOnlineRemote()
	case aFailEquipment:
		return sm.AttemptOnlineFailEquipmentOffline()
	case aFailHost:
		return sm.AttemptOnlineFailHostOffline()
	case aSuccess:
		return sm.AttemptOnlineSuccess()
	case aRemoteOffline:
		return sm.RemoteOffline()
	}
	return sm.RemoteOnline()
}

// agree compares a machine with the model.
func (c ctl) agree(sm *gem.ControlStateMachine) bool {
	return sm.State() == c.state && sm.OnlineMode() == c.mode && sm.IsOnlineState() == c.online()
}

// start is the state for configured texts.
func start(state, mode string) ctl {
	c := ctl{cAttempt, gem.OnlineModeRemote}
	if mode == string(gem.OnlineModeLocal) {
		c.mode = gem.OnlineModeLocal
	}
	switch state {
	case string(cEquip):
		c.state = cEquip
	case string(cHost):
		c.state = cHost
	case string(gem.ControlStateOnline):
		c = c.goOnline()
	}
	return c
}

// HModel: any configured start and any sequence of actions.
func HModel() {
	s := vp.String("state", []int{14, 17, 12, 6, 0}[vp.Choose("state.len", 5)])
	m := vp.String("mode", []int{6, 5, 0}[vp.Choose("mode.len", 3)])
	c := start(s, m)
	sm := gem.NewControlStateMachine(gem.ControlStateMachineOptions{InitialState: gem.ControlState(s), InitialOnlineMode: gem.OnlineControlMode(m)})
	vp.Assert(c.agree(sm), "initial-state")
	for i := vp.Param("steps"); i > 0; i-- {
		a := vp.Conc(vp.Int("action", 0, nActions-1), 0, nActions-1)
		n, ok, free := c.next(a)
		err := actOn(sm, a)
		if !free {
			vp.Assert((err == nil) == ok, "allowed-or-refused")
		}
		vp.Assert(n.agree(sm), "prescribed-state")
		if ok {
			vp.Cover("moved")
		} else {
			vp.Cover("refused")
		}
		c = n
	}
}

// HModelRace: two actions at once have the effect of one after the other.
func HModelRace() {
	states := []string{string(cAttempt), string(cEquip), string(cHost), string(gem.ControlStateOnline)}
	modes := []string{string(gem.OnlineModeRemote), string(gem.OnlineModeLocal)}
	s, m := states[vp.Choose("state", 4)], modes[vp.Choose("mode", 2)]
	c := start(s, m)
	sm := gem.NewControlStateMachine(gem.ControlStateMachineOptions{InitialState: gem.ControlState(s), InitialOnlineMode: gem.OnlineControlMode(m)})
	var acts [2]int
	var errs [2]error
	for i := range acts {
		acts[i] = vp.Conc(vp.Int("action", 0, nActions-1), 0, nActions-1)
	}
	var wg sync.WaitGroup
	for i := range acts {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = actOn(sm, acts[i])
		}()
	}
	wg.Wait()
	vp.Cover("raced")
	fits := false
	for first := 0; first < 2; first++ {
		x, ok1, free1 := c.next(acts[first])
		y, ok2, free2 := x.next(acts[1-first])
		if y.agree(sm) && (free1 || ok1 == (errs[first] == nil)) && (free2 || ok2 == (errs[1-first] == nil)) {
			fits = true
		}
	}
	vp.Assert(fits, "as-one-after-the-other")
}

// changes records the reported changes of the control state.
type changes struct {
	mu     sync.Mutex
	last   gem.ControlState
	broken bool
}

func (w *changes) watch(g *gem.GemHandler) {
	w.last = g.ControlState()
	g.Events().ControlStateChanged.AddCallback(func(data map[string]interface{}) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.broken = w.broken || data["previous"] != w.last || data["current"] == w.last
		w.last, _ = data["current"].(gem.ControlState)
	})
}

// upTo checks that the reported changes lead to the state.
func (w *changes) upTo(state gem.ControlState) {
	ok := await(time.Second, func() bool {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.last == state
	})
	w.mu.Lock()
	defer w.mu.Unlock()
	vp.Assert(ok && !w.broken, "changes-reported")
}

// HOperator: the operator's actions on an endpoint without communication, and the changes it reports.
func HOperator() {
	states := []string{string(cAttempt), string(cEquip), string(cHost), string(gem.ControlStateOnline), ""}
	modes := []string{string(gem.OnlineModeRemote), string(gem.OnlineModeLocal)}
	s, m := states[vp.Choose("state", 5)], modes[vp.Choose("mode", 2)]
	c := start(s, m)
	g, err := gem.NewGemHandler(gem.Options{Protocol: hsms.NewHsmsProtocol("127.0.0.1", freePort(), false, gemSession, "g"), DeviceType: gem.DeviceEquipment,
		DeviceID: gemSession, InitialControlState: gem.ControlState(s), InitialOnlineMode: gem.OnlineControlMode(m)})
	vp.Assert(err == nil, "handler-created")
	if err != nil {
		return
	}
	settle := func() {
		if c.state == cAttempt { // no communication: the attempt fails
			c.state = cHost
		}
		vp.Assert(await(time.Second, func() bool { return g.ControlState() == c.state }), "prescribed-state")
		time.Sleep(quiet() / 4)
		vp.Assert(c.agree(g.ControlStateMachine()), "prescribed-state")
	}
	if c.state != cHost { // not communicating, so not online
		c.state = cEquip
	}
	settle()
	var w changes
	w.watch(g)
	for i := vp.Param("steps"); i > 0; i-- {
		a := vp.Conc(vp.Int("action", 0, 3), 0, 3)
		n, ok, _ := c.next(a)
		var err error
		switch a {
		case aSwitchOnline:
			err = g.SwitchControlOnline()
		case aSwitchOffline:
			err = g.SwitchControlOffline()
		case aLocal:
			err = g.SwitchControlOnlineLocal()
		default:
			err = g.SwitchControlOnlineRemote()
		}
		vp.Assert(!ok || err == nil, "allowed")
		if ok {
			vp.Cover("moved")
		}
		c = n
		settle()
		w.upTo(c.state)
	}
}

// HOnline: S1F15, S1F17 and the operator move communicating equipment between offline and online.
func HOnline() {
	states := []gem.ControlState{cAttempt, cHost, cEquip, gem.ControlStateOnline}
	modes := []gem.OnlineControlMode{gem.OnlineModeRemote, gem.OnlineModeLocal}
	st, m := states[vp.Choose("state", vp.Param("starts"))], modes[vp.Choose("mode", 2)]
	var w changes
	s := gemEnd(gem.Options{DeviceType: gem.DeviceEquipment, InitialControlState: st, InitialOnlineMode: m}, w.watch)
	are := vp.Choose("are-you-there", 3)
	s.p.mu.Lock()
	s.p.auto, s.p.are = true, are
	s.p.mu.Unlock()
	c := ctl{cAttempt, m}
	if st == cHost {
		c.state = cHost
	}
	ok := await(5*time.Second, func() bool { return s.g.State() == gem.CommunicationStateCommunicating })
	vp.Assert(ok, "communicating")
	if !ok {
		vp.End()
	}
	attempt := func() { // the attempt to go online ends as the host answers
		if c.state == cAttempt {
			if are == 0 {
				c = c.goOnline()
			} else {
				c.state = cHost
			}
		}
		vp.Assert(await(5*time.Second, func() bool { return s.g.ControlState() == c.state }), "control-state")
	}
	attempt()
	for i := vp.Param("steps"); i > 0; i-- {
		var body []byte
		if vp.Param("bodies") > 1 && vp.Choose("body", 2) == 1 {
			body = refEncode(list())
		}
		switch a := vp.Conc(vp.Int("step", 0, 6), 0, 6); a {
		case 0:
			ack := ackOf(s.askRaw(1, 15, body))
			vp.Assert(ack == 0, "offline-acknowledged")
			c, _, _ = c.next(aRemoteOffline)
			vp.Cover("offline")
		case 1:
			ack := ackOf(s.askRaw(1, 17, body))
			n, ok, _ := c.next(aRemoteOnline)
			switch {
			case ok:
				vp.Assert(ack == 0, "online-acknowledged")
				vp.Cover("online")
			case c.online():
				vp.Assert(ack == 2, "already-online")
				vp.Cover("already-online")
			default:
				vp.Assert(ack == 1, "online-refused")
				vp.Cover("refused")
			}
			c = n
		case 2:
			n, ok, _ := c.next(aSwitchOffline)
			err := s.g.SwitchControlOffline()
			vp.Assert(!ok || err == nil, "operator-offline")
			c = n
		case 3:
			n, ok, _ := c.next(aLocal)
			err := s.g.SwitchControlOnlineLocal()
			vp.Assert(!ok || err == nil, "operator-local")
			c = n
		case 4:
			n, ok, _ := c.next(aRemote)
			err := s.g.SwitchControlOnlineRemote()
			vp.Assert(!ok || err == nil, "operator-remote")
			c = n
		case 5:
			n, ok, _ := c.next(aSwitchOnline)
			err := s.g.SwitchControlOnline()
			vp.Assert(!ok || err == nil, "operator-online")
			c = n
			attempt()
		default: // requests while the attempt is under way
			n, ok, _ := c.next(aSwitchOnline)
			if !ok || are != 2 {
				vp.End()
			}
			vp.Assert(s.g.SwitchControlOnline() == nil, "operator-online")
			if vp.Choose("during", 2) == 0 {
				vp.Assert(ackOf(s.askRaw(1, 15, body)) == 0, "offline-acknowledged")
			} else {
				vp.Assert(ackOf(s.askRaw(1, 17, body)) == 1, "online-refused")
			}
			c = n
			vp.Assert(s.g.ControlState() == cAttempt, "control-state")
			vp.Cover("during-attempt")
			attempt()
		}
		vp.Assert(c.agree(s.g.ControlStateMachine()), "control-state")
		w.upTo(c.state)
	}
	s.settled()
	vp.Assert(c.agree(s.g.ControlStateMachine()), "control-state")
	s.stop()
}
