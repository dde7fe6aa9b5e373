package h

import (
	"sync"
	"time"

	"verif/harness/vp"

	"github.com/younglifestyle/secs4go/common"
	"github.com/younglifestyle/secs4go/hsms"
	"github.com/younglifestyle/secs4go/utils"
)

// HBackoff: the reconnection delay for every base and maximum delay, attempt by attempt.
func HBackoff() {
	base, max := int(vp.U32("base")), int(vp.U32("max"))
	vp.Assume(vp.And(base >= 1, max >= 1))
	attempts := []int{1, 2, 3, 4, 5, 6, 7, 8, 12, 20, 28, 29, 30, 31, 32, 33, 34, 40, 60, 61, 62, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 1000, 1023, 1024, 1025, 1026, 5000, 65536, 1 << 20, 1<<31 - 1}
	i := vp.Choose("attempt", len(attempts))
	p := hsms.NewHsmsProtocol("127.0.0.1", 5000, true, 1, "x")
	p.Timeouts().SetReconnectBackoffBase(base)
	p.Timeouts().SetReconnectBackoffMax(max)
	d := p.VerifBackoffDelay(attempts[i])
	vp.Cover("delay")
	vp.Observe("delay", int64(d))
	vp.Assert(d >= 0, "never-negative")
	vp.Assert(d <= time.Duration(max)*time.Second, "never-above-the-maximum")
	first := base
	if max < first {
		first = max
	}
	vp.Assert(d >= time.Duration(first)*time.Second, "at-least-the-initial-delay")
	if attempts[i] == 1 {
		vp.Assert(d <= time.Duration(first)*time.Second, "starts-at-the-initial-delay")
	}
	if i > 0 {
		prev := p.VerifBackoffDelay(attempts[i-1])
		vp.Assert(d >= prev, "never-decreases")
		if attempts[i] == attempts[i-1]+1 {
			vp.Assert(vp.Or(d == 2*prev, d == time.Duration(max)*time.Second), "doubles-up-to-the-maximum")
		}
	}
	if attempts[i] > 32 { // base * 2^32 is above every maximum
		vp.Assert(d >= time.Duration(max)*time.Second, "reaches-the-maximum")
	}
}

// HEvents: a history of adding, removing and firing.
func HEvents() {
	e := &common.Event{}
	var got []int
	var data []map[string]interface{}
	n := vp.Param("callbacks")
	cbs := make([]func(map[string]interface{}), n)
	for i := range cbs {
		i := i
		cbs[i] = func(m map[string]interface{}) {
			got = append(got, i)
			data = append(data, m)
		}
	}
	var want []int
	for step := 0; step < vp.Param("steps"); step++ {
		c := vp.Choose("op", 2*n+1)
		switch {
		case c < n:
			e.AddCallback(cbs[c])
			want = append(append([]int{}, want...), c)
		case c < 2*n:
			e.RemoveCallback(cbs[c-n])
			for i, w := range want {
				if w == c-n {
					want = append(append([]int{}, want[:i]...), want[i+1:]...)
					break
				}
			}
		default:
			v := vp.U32("data")
			got, data = nil, nil
			fired := map[string]interface{}{"k": v}
			switch vp.Choose("data", 4) {
			case 1:
				fired["other"] = nil
			case 2:
				fired = map[string]interface{}{"": vp.Bool("flag"), "k": nil, "x": "text"}
			case 3:
				fired = map[string]interface{}{}
			}
			e.Fire(fired)
			vp.Cover("fired")
			vp.Observe("got", len(got))
			ok := len(got) == len(want)
			for i := 0; ok && i < len(want); i++ {
				ok = got[i] == want[i] && sameMap(data[i], fired)
			}
			vp.Assert(ok, "exactly-the-registered-callbacks-in-order")
		}
		vp.Assert(e.Len() == len(want), "length")
	}
}

func sameMap(a, b map[string]interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range b {
		w, ok := a[k]
		if !ok || w != v {
			return false
		}
	}
	return true
}

// HDeque: concurrent puts and gets under every interleaving.
func HDeque() {
	np, ng, per := vp.Param("putters"), vp.Param("getters"), vp.Param("per")
	q := utils.NewDeque()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var got []int
	failed := 0
	for g := 0; g < ng; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x, err := q.Get(vp.Param("timeout"))
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				failed++
				return
			}
			got = append(got, x.(int))
		}()
	}
	for p := 0; p < np; p++ {
		wg.Add(1)
		p := p
		go func() {
			defer wg.Done()
			for i := 0; i < per; i++ {
				q.Put(p*10 + i)
			}
		}()
	}
	wg.Wait()
	vp.Cover("done")
	puts := np * per
	want := ng
	if puts < ng {
		want = puts
	}
	vp.Observe("got", len(got), failed)
	if vp.Param("race") == 1 { // time passes meanwhile: a get may give up first, but nothing is lost
		want = len(got)
		vp.Assert(len(got)+failed == ng && want <= puts, "every-get-returns")
	}
	vp.Assert(len(got) == want && failed == ng-want, "every-waiting-get-returns-an-item")
	// what is left comes out in order
	seen := map[int]int{}
	for _, x := range got {
		seen[x]++
	}
	last := map[int]int{}
	for i := 0; i < puts-want; i++ {
		x, err := q.Get(0)
		vp.Assert(err == nil, "left-over-items-are-returned")
		if err != nil {
			return
		}
		v := x.(int)
		seen[v]++
		l, ok := last[v/10]
		vp.Assert(!ok || v > l, "fifo-per-putter")
		last[v/10] = v
		for _, y := range got {
			vp.Assert(y/10 != v/10 || y < v, "fifo-per-putter")
		}
	}
	vp.Assert(len(seen) == puts, "each-item-once")
	for _, c := range seen {
		vp.Assert(c == 1, "each-item-once")
	}
	_, err := q.Get(0)
	vp.Assert(err != nil, "empty-in-the-end")
}

// HDequeSeq: one goroutine puts and gets in any sequence; order is first in, first out, and an empty queue times out.
func HDequeSeq() {
	q := utils.NewDeque()
	var model []uint32
	for i := 0; i < vp.Param("steps"); i++ {
		if vp.Choose("op", 2) == 0 {
			v := vp.U32("item")
			q.Put(v)
			model = append(model, v)
			continue
		}
		t := vp.Choose("timeout", 3)
		t0 := time.Now()
		x, err := q.Get(t)
		d := time.Since(t0)
		if len(model) == 0 {
			vp.Cover("timeout")
			vp.Assert(err != nil, "empty-queue-times-out")
			vp.Assert(d >= time.Duration(t)*time.Second && d < time.Duration(t+1)*time.Second, "after-its-timeout")
			continue
		}
		vp.Cover("item")
		vp.Assert(err == nil && x == interface{}(model[0]), "first-in-first-out")
		vp.Assert(d < time.Second, "without-waiting")
		model = model[1:]
	}
}

// HDequeStream: one getter receives a stream of items in order.
func HDequeStream() {
	q := utils.NewDeque()
	n := vp.Param("n")
	go func() {
		for i := 0; i < n; i++ {
			q.Put(i)
		}
	}()
	for i := 0; i < n; i++ {
		x, err := q.Get(5)
		vp.Assert(err == nil, "every-waiting-get-returns-an-item")
		if err == nil {
			vp.Assert(x.(int) == i, "first-in-first-out")
		}
	}
	vp.Cover("done")
}
