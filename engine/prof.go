package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
	"time"
)

// forkProf counts, with SYMGO_PROF set, where branches are decided and what they cost.
var forkProf *forkProfile

type forkProfile struct {
	mu sync.Mutex
	m  map[string]*forkStat
}

type forkStat struct {
	n, sat int
	d      time.Duration
}

func init() {
	if os.Getenv("SYMGO_PROF") != "" {
		forkProf = &forkProfile{m: map[string]*forkStat{}}
	}
}

func (p *forkProfile) add(where string, r SatRes, d time.Duration) {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := p.m[where]
	if s == nil {
		s = &forkStat{}
		p.m[where] = s
	}
	s.n++
	s.d += d
	if r == Sat {
		s.sat++
	}
}

func (p *forkProfile) print() {
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return p.m[ks[i]].d > p.m[ks[j]].d })
	for i, k := range ks {
		if i == 25 {
			break
		}
		s := p.m[k]
		fmt.Printf("PROF %8d queries %8d forks %8.2fs  %s\n", s.n, s.sat, s.d.Seconds(), k)
	}
}
