package main

import (
	"encoding/binary"
	"sort"
)

// vset is the sorted set of variables a term depends on.
type vset struct{ ids []int32 }

var emptySet = &vset{}

func (t *Term) vars() *vset {
	if t.vs != nil {
		return t.vs
	}
	switch {
	case t.op == OpConst:
		t.vs = emptySet
	case t.op == OpVar:
		t.vs = &vset{[]int32{t.id}}
	default:
		r := t.a[0].vars()
		for i := 1; i < int(t.n); i++ {
			r = unionVars(r, t.a[i].vars())
		}
		t.vs = r
	}
	return t.vs
}

func unionVars(a, b *vset) *vset {
	if a == b || len(b.ids) == 0 {
		return a
	}
	if len(a.ids) == 0 {
		return b
	}
	out := make([]int32, 0, len(a.ids)+len(b.ids))
	i, j := 0, 0
	for i < len(a.ids) || j < len(b.ids) {
		switch {
		case j == len(b.ids) || i < len(a.ids) && a.ids[i] < b.ids[j]:
			out = append(out, a.ids[i])
			i++
		case i == len(a.ids) || b.ids[j] < a.ids[i]:
			out = append(out, b.ids[j])
			j++
		default:
			out = append(out, a.ids[i])
			i++
			j++
		}
	}
	if len(out) == len(a.ids) {
		return a
	}
	if len(out) == len(b.ids) {
		return b
	}
	return &vset{out}
}

func intersects(a, b *vset) bool {
	x, y := a.ids, b.ids
	i, j := 0, 0
	for i < len(x) && j < len(y) {
		switch {
		case x[i] < y[j]:
			i++
		case x[i] > y[j]:
			j++
		default:
			return true
		}
	}
	return false
}

type qres struct {
	res SatRes
	m   map[string]uint64
}

// slice returns the part of the path condition that extra depends on, in order.
func (w *Worker) pcSlice(extra *Term) []*Term {
	set := extra.vars()
	in := make([]bool, len(w.pc))
	n := 0
	for {
		changed := false
		for i, c := range w.pc {
			if !in[i] && intersects(set, c.vars()) {
				in[i] = true
				n++
				if u := unionVars(set, c.vars()); u != set {
					set = u
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	out := make([]*Term, 0, n)
	for i, c := range w.pc {
		if in[i] {
			out = append(out, c)
		}
	}
	return out
}

func sliceKey(pc []*Term, extra *Term) string {
	ids := make([]int32, 0, len(pc)+1)
	for _, c := range pc {
		ids = append(ids, c.id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	ids = append(ids, extra.id)
	b := make([]byte, 4*len(ids))
	for i, v := range ids {
		binary.LittleEndian.PutUint32(b[4*i:], uint32(v))
	}
	return string(b)
}

// check decides (path condition and extra); the path condition alone is satisfied by the current model, so only
// the part connected to extra is sent, and the rest of the model is kept.
func (w *Worker) check(extra *Term) (SatRes, map[string]uint64) {
	sl := w.pcSlice(extra)
	k := sliceKey(sl, extra)
	q, ok := w.qcache[k]
	if ok {
		w.cacheHits++
	} else {
		set := extra.vars()
		for _, c := range sl {
			set = unionVars(set, c.vars())
		}
		want := make([]*Term, len(set.ids))
		for i, id := range set.ids {
			want[i] = w.tt.byID[id]
		}
		q.res, q.m = w.sol.Check(sl, extra, want)
		if q.res != Unknown {
			w.qcache[k] = q
		}
	}
	if q.res != Sat {
		return q.res, nil
	}
	m := make(map[string]uint64, len(w.model.vals)+len(q.m))
	for a, b := range w.model.vals {
		m[a] = b
	}
	for a, b := range q.m {
		m[a] = b
	}
	return Sat, m
}

func (w *Worker) cachedUnsat(extra *Term) bool {
	q, ok := w.qcache[sliceKey(w.pcSlice(extra), extra)]
	return ok && q.res == Unsat
}

func (w *Worker) cacheUnsat(extra *Term) {
	w.qcache[sliceKey(w.pcSlice(extra), extra)] = qres{res: Unsat}
}
