package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Harness string            `json:"harness"`
	Params  map[string]int    `json:"params"`
	Label   string            `json:"label"`
	Kind    string            `json:"kind"`
	Where   string            `json:"where"`
	Inputs  map[string]uint64 `json:"inputs"`
	Native  bool              `json:"-"` // found by a native run
}

type Sample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Obs    []string          `json:"obs"`
	Covers []string          `json:"covers"`
}

// Job is the exploration of one harness with fixed parameters.
type Job struct {
	Harness    string         `json:"harness"`
	Params     map[string]int `json:"params"`
	Opts       Options        `json:"opts"`
	MaxConc    int            `json:"-"`
	Solver     string         `json:"-"`
	Debug      bool           `json:"-"`
	Deadline   time.Time      `json:"-"`
	MaxSamples int            `json:"-"`
	MaxViol    int            `json:"-"`

	eng   *Engine
	mu    sync.Mutex
	cond  *sync.Cond
	queue []pending
	busy  int
	nw    int
	stop  bool
	idle  int32

	Paths                    map[string]int64
	Steps                    int64
	Queries                  int64
	SatN, UnsatN, UnkN, ErrN int64
	SolverTime, MaxQ         time.Duration
	Asserts                  map[string]int64
	Covers                   map[string]int64
	Viol                     map[string][]Violation
	ViolN                    map[string]int64
	Cuts                     map[string]int64
	Unsup                    map[string]int64
	Incon                    map[string]int64
	Limits                   map[string]int64
	LimitIn                  map[string]map[string]uint64
	UnsupIn                  map[string][]map[string]uint64
	Samples                  []Sample
	Fns                      map[*ssa.Function]bool
	ForksAt                  map[string]int64
	Unexplored               int64
	Wall                     time.Duration
	MaxPC                    int
	done                     int64
}

func (j *Job) init(e *Engine) {
	j.eng = e
	j.cond = sync.NewCond(&j.mu)
	j.Paths = map[string]int64{}
	j.Asserts = map[string]int64{}
	j.Covers = map[string]int64{}
	j.Viol = map[string][]Violation{}
	j.ViolN = map[string]int64{}
	j.Cuts = map[string]int64{}
	j.Unsup = map[string]int64{}
	j.Incon = map[string]int64{}
	j.Limits = map[string]int64{}
	j.LimitIn = map[string]map[string]uint64{}
	j.UnsupIn = map[string][]map[string]uint64{}
	j.Fns = map[*ssa.Function]bool{}
	j.ForksAt = map[string]int64{}
	if j.MaxConc == 0 {
		j.MaxConc = 300
	}
	if j.MaxViol == 0 {
		j.MaxViol = 3
	}
}

func (j *Job) tick(w *Worker) {}

func (j *Job) addSolver(s *Solver) {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.Queries += s.Queries
	j.SatN += s.SatN
	j.UnsatN += s.UnsatN
	j.UnkN += s.UnkN
	j.ErrN += s.Errors
	j.SolverTime += s.Time
	if s.MaxQ > j.MaxQ {
		j.MaxQ = s.MaxQ
	}
	s.Queries, s.SatN, s.UnsatN, s.UnkN, s.Errors, s.Time = 0, 0, 0, 0, 0, 0
}

func (j *Job) note(m map[string]int64, k string) {
	j.mu.Lock()
	m[k]++
	j.mu.Unlock()
}
func (j *Job) inconclusive(msg string) { j.note(j.Incon, msg) }
func (j *Job) unsupported(msg string)  { j.note(j.Unsup, msg) }

// unsupportedPath keeps some solver models of paths the executor could not follow to their end: they are run natively.
func (j *Job) unsupportedPath(msg string, in map[string]uint64) {
	j.mu.Lock()
	j.Unsup[msg]++
	if n := len(j.UnsupIn[msg]); n < 6 {
		j.UnsupIn[msg] = append(j.UnsupIn[msg], in)
	}
	j.mu.Unlock()
}
func (j *Job) cut(msg string)          { j.note(j.Cuts, msg) }
func (j *Job) noteAssert(label string) { j.note(j.Asserts, label) }
func (j *Job) limit(msg string, in map[string]uint64) {
	j.mu.Lock()
	j.Limits[msg]++
	if j.LimitIn[msg] == nil {
		j.LimitIn[msg] = in
	}
	j.mu.Unlock()
}

func (j *Job) addViolation(v Violation) {
	j.mu.Lock()
	defer j.mu.Unlock()
	j.ViolN[v.Label]++
	if len(j.Viol[v.Label]) < j.MaxViol {
		j.Viol[v.Label] = append(j.Viol[v.Label], v)
	}
}

func (j *Job) pathDone(w *Worker, end pathEnd) {
	var smp *Sample
	n := atomic.AddInt64(&j.done, 1)
	want := end.kind == "done" && !w.violated && j.MaxSamples > 0 && (n <= int64(j.MaxSamples) || n%97 == 0)
	if want {
		smp = &Sample{Inputs: w.inputVals(w.model.vals), Covers: w.covers}
		for _, o := range w.obs {
			smp.Obs = append(smp.Obs, o.label+"="+w.evalObs(o.vals))
		}
	}
	j.mu.Lock()
	defer j.mu.Unlock()
	j.Paths[end.kind]++
	j.Steps += w.steps
	if len(w.pc) > j.MaxPC {
		j.MaxPC = len(w.pc)
	}
	if end.kind != "assume" {
		seen := map[string]bool{}
		for _, c := range w.covers {
			if !seen[c] {
				seen[c] = true
				j.Covers[c]++
			}
		}
	}
	if smp != nil {
		if len(j.Samples) < j.MaxSamples {
			j.Samples = append(j.Samples, *smp)
		} else {
			j.Samples[int(n/97)%len(j.Samples)] = *smp
		}
	}
}

// Run explores the job with nw workers.
func (j *Job) Run(e *Engine, nw int) {
	t0 := time.Now()
	j.init(e)
	j.nw = nw
	j.queue = []pending{{model: map[string]uint64{}}}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if !j.waitWork() {
				return
			}
			w := NewWorker(e, i, j)
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintln(os.Stderr, "worker died:", r)
					debug.PrintStack()
					j.mu.Lock()
					j.Unsup[fmt.Sprint("worker died: ", r)]++
					j.busy--
					j.stop = true
					j.cond.Broadcast()
					j.mu.Unlock()
				}
			}()
			j.workLoop(w)
			j.addSolver(w.sol)
			w.sol.Close()
			j.mu.Lock()
			for f := range w.fnUse {
				j.Fns[f] = true
			}
			for k, v := range w.forksAt {
				j.ForksAt[k] += v
			}
			j.mu.Unlock()
		}(i)
	}
	wg.Wait()
	j.Wall = time.Since(t0)
}

// waitWork delays the start of a worker (and its solver) until there is something to do.
func (j *Job) waitWork() bool {
	j.mu.Lock()
	defer j.mu.Unlock()
	atomic.AddInt32(&j.idle, 1)
	defer atomic.AddInt32(&j.idle, -1)
	for len(j.queue) == 0 {
		if j.busy == 0 || j.stop {
			return false
		}
		j.cond.Wait()
	}
	return true
}

func (j *Job) workLoop(w *Worker) {
	for {
		j.mu.Lock()
		atomic.AddInt32(&j.idle, 1)
		for len(j.queue) == 0 && j.busy > 0 && !j.stop {
			j.cond.Wait()
		}
		atomic.AddInt32(&j.idle, -1)
		if len(j.queue) == 0 || j.stop {
			j.cond.Broadcast()
			j.mu.Unlock()
			return
		}
		p := j.queue[len(j.queue)-1]
		j.queue = j.queue[:len(j.queue)-1]
		j.busy++
		j.mu.Unlock()

		w.local = append(w.local[:0], p)
		for len(w.local) > 0 {
			if j.expired() {
				j.mu.Lock()
				j.Unexplored += int64(len(w.local))
				j.mu.Unlock()
				break
			}
			q := w.local[len(w.local)-1]
			w.local = w.local[:len(w.local)-1]
			w.runPath(q)
			if atomic.LoadInt32(&j.idle) > 0 && len(w.local) > 1 {
				// give away the oldest alternatives (closest to the root)
				j.mu.Lock()
				n := len(w.local) / 2
				if n > 8 {
					n = 8
				}
				j.queue = append(j.queue, w.local[:n]...)
				w.local = append([]pending{}, w.local[n:]...)
				j.cond.Broadcast()
				j.mu.Unlock()
			}
		}
		j.mu.Lock()
		j.busy--
		if j.busy == 0 && len(j.queue) == 0 {
			j.cond.Broadcast()
		}
		j.mu.Unlock()
	}
}

func (j *Job) expired() bool {
	if !j.Deadline.IsZero() && time.Now().After(j.Deadline) {
		return true
	}
	if j.Opts.MaxPaths > 0 && atomic.LoadInt64(&j.done) >= j.Opts.MaxPaths {
		return true
	}
	return false
}

func (w *Worker) evalObs(vals []Value) string {
	s := ""
	for i, v := range vals {
		if i > 0 {
			s += " "
		}
		s += w.obsStr(v)
	}
	return s
}

func (w *Worker) obsStr(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if t, ok := x.v.(*Term); ok {
			val := w.model.eval(t)
			if iw, s := intInfo(x.t); iw != 0 {
				if s {
					return fmt.Sprint(sext64(val, iw))
				}
				return fmt.Sprint(val)
			}
			if t.w == 0 {
				return fmt.Sprint(val == 1)
			}
			return fmt.Sprintf("f%x", val)
		}
		return w.obsStr(x.v)
	case *Term:
		return fmt.Sprint(w.model.eval(x))
	case Str:
		if x.lazy != nil {
			return "<lazy>"
		}
		b := []byte{}
		for _, t := range w.strBytes(x) {
			b = append(b, byte(w.model.eval(t)))
		}
		return fmt.Sprintf("%x", b)
	case Slice:
		b := []byte{}
		for _, c := range x.c {
			t, ok := c.(*Term)
			if !ok || t.w != 8 {
				return "<slice>"
			}
			b = append(b, byte(w.model.eval(t)))
		}
		return fmt.Sprintf("%x", b)
	}
	return fmt.Sprintf("<%T>", v)
}

func sortedKeys(m map[string]int64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
