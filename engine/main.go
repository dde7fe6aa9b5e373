package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo run|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		cmdRun(os.Args[2:])
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func parseParams(s string) map[string]int {
	m := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if kv == "" {
			continue
		}
		p := strings.SplitN(kv, "=", 2)
		v, err := strconv.Atoi(p[1])
		if err != nil {
			panic(err)
		}
		m[p[0]] = v
	}
	return m
}

func cmdRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	dir := fs.String("dir", "/verif/harness", "")
	h := fs.String("h", "", "harness")
	ps := fs.String("p", "", "params")
	os_ := fs.String("o", "{}", "options json")
	nw := fs.Int("j", 8, "workers")
	tl := fs.Int("t", 60, "seconds")
	dbg := fs.Bool("debug", false, "")
	prof := fs.String("prof", "", "")
	ns := fs.Int("samples", 3, "")
	replay := fs.Bool("replay", true, "replay violations natively")
	fs.Parse(args)
	t0 := time.Now()
	e, err := LoadEngine(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	var o Options
	if err := json.Unmarshal([]byte(*os_), &o); err != nil {
		panic(err)
	}
	j := &Job{Harness: *h, Params: parseParams(*ps), Opts: o, Debug: *dbg, Solver: "z3", MaxSamples: *ns, Deadline: time.Now().Add(time.Duration(*tl) * time.Second)}
	j.Run(e, *nw)
	j.print()
	if forkProf != nil {
		forkProf.print()
	}
	if *replay {
		r, err := buildReplay(*dir)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		defer r.Close()
		for l, vs := range j.Viol {
			for _, v := range vs {
				st, out := r.run(v.Harness, v.Params, v.Inputs, 60*time.Second)
				fmt.Println("REPLAY", l, v.Inputs, "->", st, out.Failed, out.Err)
			}
		}
		for _, s := range j.Samples {
			st, out := r.run(j.Harness, j.Params, s.Inputs, 60*time.Second)
			same := fmt.Sprint(out.Obs) == fmt.Sprint(s.Obs)
			fmt.Println("SAMPLE", st, same, out.Err)
			if !same || *dbg {
				fmt.Println("   engine:", s.Obs, s.Inputs)
				fmt.Println("   native:", out.Obs)
			}
		}
	}
}

func (j *Job) print() {
	fmt.Printf("wall %.1fs paths %v steps %d queries %d (sat %d unsat %d unk %d err %d) solver %.1fs max %.2fs maxpc %d unexplored %d\n",
		j.Wall.Seconds(), j.Paths, j.Steps, j.Queries, j.SatN, j.UnsatN, j.UnkN, j.ErrN, j.SolverTime.Seconds(), j.MaxQ.Seconds(), j.MaxPC, j.Unexplored)
	pr := func(n string, m map[string]int64) {
		if len(m) == 0 {
			return
		}
		fmt.Println(n + ":")
		for _, k := range sortedKeys(m) {
			fmt.Printf("   %6d  %s\n", m[k], k)
		}
	}
	pr("asserts", j.Asserts)
	pr("covers", j.Covers)
	pr("cuts", j.Cuts)
	pr("unsupported", j.Unsup)
	pr("inconclusive", j.Incon)
	pr("limits", j.Limits)
	pr("forks", j.ForksAt)
	pr("violations", j.ViolN)
	for l, vs := range j.Viol {
		for _, v := range vs {
			fmt.Println("VIOL", l, v.Where, v.Inputs)
		}
	}
}
