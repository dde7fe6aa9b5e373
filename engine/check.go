package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// JobSpec is one entry of jobs.json.
type JobSpec struct {
	Harness     string         `json:"h"`
	Params      map[string]int `json:"p"`
	Opts        Options        `json:"o"`
	TimeS       int            `json:"t"`       // exploration budget
	Cover       []string       `json:"cover"`   // labels every complete exploration is expected to reach
	Native      string         `json:"native"`  // "" : a counterexample must be reproduced natively; "prefer": the interpreter's run counts
	Tries       int            `json:"tries"`   // native attempts per counterexample
	LimitS      int            `json:"limit_s"` // native time limit
	Samples     int            `json:"samples"`
	NoSampleObs bool           `json:"no_sample_obs"`
	Bounds      string         `json:"bounds"`
}

type PropSpec struct {
	Quick    []JobSpec `json:"quick"`
	Thorough []JobSpec `json:"thorough"`
	Bounds   []string  `json:"bounds"`
	Outside  []string  `json:"outside"`
	Assume   []string  `json:"assumptions"`
}

type KnownFinding struct {
	Property string                 `json:"property"`
	Status   string                 `json:"status"` // "open" or "fixed"
	Harness  string                 `json:"harness,omitempty"`
	Label    string                 `json:"label,omitempty"`
	Where    string                 `json:"where,omitempty"`  // substring of the failing call site
	Native   string                 `json:"native,omitempty"` // substring of the native outcome
	Inputs   map[string][]uint64    `json:"inputs,omitempty"` // every named input must be among the listed values
	Params   map[string]int         `json:"params,omitempty"`
	Text     string                 `json:"text"`
	Commit   string                 `json:"commit,omitempty"`
	X        map[string]interface{} `json:"-"`
}

func (k *KnownFinding) matches(prop string, v Violation, native string) bool {
	if k.Status != "open" || k.Property != prop || k.Harness != "" && k.Harness != v.Harness || k.Label != "" && k.Label != v.Label {
		return false
	}
	if k.Harness == "" && k.Label == "" {
		return false
	}
	if k.Where != "" && !strings.Contains(v.Where, k.Where) || k.Native != "" && !strings.Contains(native, k.Native) {
		return false
	}
	for n, x := range k.Params {
		if v.Params[n] != x {
			return false
		}
	}
	for n, xs := range k.Inputs {
		ok := false
		for _, x := range xs {
			if val, has := v.Inputs[n]; has && val == x {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func readJSON(path string, v interface{}) error {
	b, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, v); err != nil {
		return fmt.Errorf("%s: %v", path, err)
	}
	return nil
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("root", "/verif", "")
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "quick", "")
	nw := fs.Int("j", runtime.NumCPU(), "")
	only := fs.String("h", "", "only this harness")
	fs.Parse(args)
	t0 := time.Now()
	specs := map[string]*PropSpec{}
	var known []KnownFinding
	if err := readJSON(filepath.Join(*root, "jobs.json"), &specs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := readJSON(filepath.Join(*root, "known-findings.json"), &known); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	spec := specs[*prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "no jobs for", *prop)
		return 2
	}
	jobs := spec.Quick
	if *tier == "thorough" && len(spec.Thorough) > 0 {
		jobs = spec.Thorough
	}
	hdir := filepath.Join(*root, "harness")

	// the native build of the harnesses runs beside the exploration
	var rep *Replayer
	var repErr error
	repDone := make(chan struct{})
	go func() {
		rep, repErr = buildReplay(hdir)
		close(repDone)
	}()
	e, err := LoadEngine(hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		<-repDone
		if rep != nil {
			rep.Close()
		}
		return 2
	}
	loadS := time.Since(t0).Seconds()

	type jobOut struct {
		spec JobSpec
		job  *Job
	}
	var outs []jobOut
	for _, js := range jobs {
		if *only != "" && js.Harness != *only {
			continue
		}
		if js.TimeS == 0 {
			js.TimeS = 60
		}
		if js.Samples == 0 {
			js.Samples = 4
		}
		if js.LimitS == 0 {
			js.LimitS = 30
		}
		j := &Job{Harness: js.Harness, Params: js.Params, Opts: js.Opts, Solver: "z3", MaxSamples: js.Samples, Deadline: time.Now().Add(time.Duration(js.TimeS) * time.Second)}
		j.Run(e, *nw)
		outs = append(outs, jobOut{js, j})
		fmt.Printf("%s %v: %.1fs, %d paths, %d queries\n", js.Harness, js.Params, j.Wall.Seconds(), j.total(), j.Queries)
		for _, x := range []struct {
			n string
			m map[string]int64
		}{{"cut", j.Cuts}, {"unsupported", j.Unsup}, {"inconclusive", j.Incon}, {"limit", j.Limits}} {
			for _, k := range sortedKeys(x.m) {
				fmt.Printf("  %s: %d x %s\n", x.n, x.m[k], k)
			}
		}
		if j.Unexplored > 0 {
			fmt.Printf("  %d alternatives left at the time limit\n", j.Unexplored)
		}
	}
	<-repDone
	if repErr != nil {
		fmt.Fprintln(os.Stderr, repErr)
		return 2
	}
	defer rep.Close()

	// counterexamples are replayed against the compiled code
	rdir := filepath.Join(*root, "replays")
	os.MkdirAll(rdir, 0o755)
	old, _ := filepath.Glob(filepath.Join(rdir, *prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	exit, nviol := 0, 0
	var unconfirmed, confirmed, knownHit []interface{}
	printed := map[string]bool{}
	for _, o := range outs {
		js, j := o.spec, o.job
		var vs []Violation
		for _, l := range sortedKeys(j.ViolN) {
			vs = append(vs, j.Viol[l]...)
		}
		for _, l := range sortedKeys(j.Limits) {
			if j.LimitIn[l] != nil {
				vs = append(vs, Violation{Harness: js.Harness, Params: js.Params, Label: "terminates", Kind: "hang", Where: l, Inputs: j.LimitIn[l]})
			}
		}
		if !js.Opts.Sched {
			// paths the executor could not follow: the compiled code decides the solver's model of each
			for _, l := range sortedKeys(j.Unsup) {
				for _, in := range j.UnsupIn[l] {
					st, out := rep.run(js.Harness, js.Params, in, time.Duration(js.LimitS)*time.Second)
					vs = append(vs, nativeFailures(js, in, st, out, "run of a path the executor left at "+l)...)
				}
			}
			// likewise for sampled paths the executor passed
			for _, s := range j.Samples {
				st, out := rep.run(js.Harness, js.Params, s.Inputs, time.Duration(js.LimitS)*time.Second)
				vs = append(vs, nativeFailures(js, s.Inputs, st, out, "run of a sampled path")...)
			}
		}
		done := map[string]bool{}
		for _, v := range vs {
			key := js.Harness + "/" + v.Label
			if done[key] {
				continue
			}
			ok, native := confirm(rep, js, v)
			rec := map[string]interface{}{"harness": v.Harness, "params": v.Params, "label": v.Label, "where": v.Where, "inputs": v.Inputs, "native": native}
			if !ok {
				unconfirmed = append(unconfirmed, rec)
				fmt.Printf("  counterexample not reproduced natively: %s %s %s -> %s\n", v.Harness, v.Label, v.Where, native)
				continue
			}
			isKnown := false
			for i := range known {
				if known[i].matches(*prop, v, native) {
					isKnown = true
					knownHit = append(knownHit, rec)
					if !printed[known[i].Text] {
						printed[known[i].Text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, known[i].Text)
					}
					break
				}
			}
			if isKnown {
				continue
			}
			done[key] = true
			nviol++
			path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", *prop, nviol))
			b, _ := json.MarshalIndent(rec, "", " ")
			os.WriteFile(path, b, 0o644)
			confirmed = append(confirmed, rec)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
			fmt.Printf("  %s: %s at %s (%s)\n", v.Harness, v.Label, v.Where, native)
			exit = 1
		}
	}

	// sampled passing paths are replayed as well: the executor and the compiled code must observe the same
	type vres struct{ ok, obs bool }
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	validated, mismatched := 0, 0
	var mism []interface{}
	var samples []interface{}
	for _, o := range outs {
		for i := range o.job.Samples {
			js, s := o.spec, o.job.Samples[i]
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				st, out := rep.run(js.Harness, js.Params, s.Inputs, time.Duration(js.LimitS)*time.Second)
				same := st == "ok" && (js.NoSampleObs || fmt.Sprint(out.Obs) == fmt.Sprint(s.Obs))
				mu.Lock()
				defer mu.Unlock()
				if same {
					validated++
				} else {
					mismatched++
					mism = append(mism, map[string]interface{}{"harness": js.Harness, "inputs": s.Inputs, "engine": s.Obs, "native": out.Obs, "status": st, "err": out.Err, "failed": out.Failed})
				}
				if len(samples) < 12 {
					samples = append(samples, map[string]interface{}{"harness": js.Harness, "params": js.Params, "inputs": s.Inputs, "observed": clip(s.Obs), "native_agrees": same})
				}
			}()
		}
	}
	wg.Wait()
	for _, m := range mism {
		b, _ := json.Marshal(m)
		fmt.Printf("  sample differs natively: %s\n", clip1(string(b), 600))
	}

	// evidence
	var paths, steps, q, sat, unsat, unk, asserts, forks int64
	var solver, maxq float64
	fns := map[string]int{}
	var jl []interface{}
	complete := true
	var notCovered []string
	for _, o := range outs {
		j := o.job
		paths += j.total()
		steps += j.Steps
		q += j.Queries
		sat += j.SatN
		unsat += j.UnsatN
		unk += j.UnkN
		forks += j.SatN
		solver += j.SolverTime.Seconds()
		if s := j.MaxQ.Seconds(); s > maxq {
			maxq = s
		}
		for _, n := range j.Asserts {
			asserts += n
		}
		for f := range j.Fns {
			if p := pkgPathOf(f); isRepoPath(p) {
				n := 0
				for _, b := range f.Blocks {
					n += len(b.Instrs)
				}
				fns[strings.TrimPrefix(f.String(), repoPath)] = n
			}
		}
		full := j.Unexplored == 0 && len(j.Unsup) == 0 && len(j.Incon) == 0 && len(j.Limits) == 0
		if !full {
			complete = false
		}
		for _, c := range o.spec.Cover {
			if j.Covers[c] == 0 {
				notCovered = append(notCovered, o.spec.Harness+"/"+c)
			}
		}
		jl = append(jl, map[string]interface{}{"harness": j.Harness, "params": j.Params, "bounds": o.spec.Bounds, "paths": j.Paths, "queries": j.Queries, "solver_s": round(j.SolverTime.Seconds()), "wall_s": round(j.Wall.Seconds()),
			"assertions_checked": j.Asserts, "covered": j.Covers, "cut": j.Cuts, "unsupported": j.Unsup, "inconclusive": j.Incon, "limits": j.Limits, "unexplored_alternatives": j.Unexplored, "complete_within_bounds": full,
			"scheduling": map[string]interface{}{"enabled": j.Opts.Sched, "preemptions": j.Opts.Preempt}})
	}
	for _, c := range notCovered {
		fmt.Println("  not covered:", c)
	}
	var fl []string
	for f, n := range fns {
		fl = append(fl, fmt.Sprintf("%s (%d instructions)", f, n))
	}
	sort.Strings(fl)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": *prop, "tier": *tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": samples,
			"states_meaning": "symbolic execution paths completed (each stands for all inputs satisfying its path condition)", "transitions_meaning": "SSA instructions of the implementation and harness executed symbolically",
			"functions_encoded": fl, "functions_encoded_count": len(fl),
			"solver": "z3 (QF_BV), one incremental process per worker", "queries_discharged": q, "queries_sat": sat, "queries_unsat": unsat, "queries_unknown": unk,
			"solver_seconds": round(solver), "slowest_query_seconds": round(maxq), "assertions_evaluated": asserts,
			"jobs": jl, "bounds": spec.Bounds, "outside_bounds": spec.Outside, "exhaustive": complete,
			"expected_but_not_covered": notCovered, "samples_that_differ_natively": mism, "unconfirmed_counterexamples": unconfirmed, "violations": confirmed, "known_findings_hit": knownHit,
			"load_and_encode_seconds": round(loadS),
		},
		"assumptions": append([]string{"the symbolic executor and its models of the standard library (fmt, sync, net, time, strings, errors) follow Go 1.27 semantics; sampled paths are replayed natively to check this", "z3 is sound"}, spec.Assume...),
		"wall_s":      round(time.Since(t0).Seconds()), "violations": nviol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*root, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: %d paths, %d queries, %d validated natively (%d differ), %d violations, %d unconfirmed, %.1fs\n", *prop, *tier, paths, q, validated, mismatched, nviol, len(unconfirmed), time.Since(t0).Seconds())
	return exit
}

func nativeFailures(js JobSpec, in map[string]uint64, st string, out replayOut, where string) []Violation {
	var vs []Violation
	for _, f := range out.Failed {
		vs = append(vs, Violation{Harness: js.Harness, Params: js.Params, Label: f, Where: where, Inputs: in, Kind: "assert", Native: true})
	}
	if st == "crash" {
		vs = append(vs, Violation{Harness: js.Harness, Params: js.Params, Label: "no-crash", Where: where, Inputs: in, Kind: "crash", Native: true})
	}
	return vs
}

// confirm replays a counterexample natively.
func confirm(rep *Replayer, js JobSpec, v Violation) (bool, string) {
	tries := js.Tries
	if tries == 0 {
		tries = 1
	}
	last := ""
	if v.Native { // found by a native run: it has to fail every time
		for i := 0; i < 3; i++ {
			st, out := rep.run(v.Harness, v.Params, v.Inputs, time.Duration(js.LimitS)*time.Second)
			last = strings.TrimSpace(st + ": " + clip1(out.Err, 400) + " " + fmt.Sprint(out.Failed))
			fails := st == "crash"
			for _, f := range out.Failed {
				fails = fails || f == v.Label
			}
			if !fails {
				return false, last
			}
		}
		return true, last
	}
	for i := 0; i < tries; i++ {
		run := rep.run
		if v.Kind == "race" {
			run = rep.runRace
		}
		st, out := run(v.Harness, v.Params, v.Inputs, time.Duration(js.LimitS)*time.Second)
		last = st
		if out.Err != "" {
			last += ": " + clip1(out.Err, 400)
		}
		if len(out.Failed) > 0 {
			last += " " + fmt.Sprint(out.Failed)
		}
		switch v.Kind {
		case "crash":
			if st == "crash" {
				return true, last
			}
		case "race":
			if st == "race" {
				return true, last
			}
		case "deadlock", "hang":
			if st == "hang" {
				return true, last
			}
		default:
			for _, f := range out.Failed {
				if f == v.Label {
					return true, last
				}
			}
		}
		if st == "crash" && v.Kind != "crash" {
			return true, last // the real code did something even worse on this input
		}
	}
	if js.Native == "prefer" {
		return true, "schedule found by the executor; " + last
	}
	return false, last
}

func clip1(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func clip(s []string) []string {
	out := make([]string, 0, len(s))
	for i, x := range s {
		if i == 12 {
			break
		}
		out = append(out, clip1(x, 200))
	}
	return out
}

func round(f float64) float64 { return float64(int64(f*100+0.5)) / 100 }

func (j *Job) total() int64 {
	var n int64
	for k, v := range j.Paths {
		if k != "assume" {
			n += v
		}
	}
	return n
}
