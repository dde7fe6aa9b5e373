package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// Replayer runs harnesses natively against the real build.
type Replayer struct {
	dir string
	bin string
	n   int
	src string
	rb  string // the same harnesses built with the race detector, on demand
	rbe error
}

type replayOut struct {
	Failed []string `json:"failed"`
	Obs    []string `json:"obs"`
	Covers []string `json:"covers"`
	Err    string   `json:"err"`
}

func buildReplay(harnessDir string) (*Replayer, error) {
	d, err := os.MkdirTemp("", "symgo-replay-")
	if err != nil {
		return nil, err
	}
	r := &Replayer{src: harnessDir, dir: d, bin: filepath.Join(d, "replay")}
	cmd := exec.Command("go", "build", "-tags=verif", "-o", r.bin, "./cmd/replay")
	cmd.Dir = harnessDir
	out, err := cmd.CombinedOutput()
	if err != nil {
		os.RemoveAll(d)
		return nil, fmt.Errorf("build of the native harness: %v\n%s", err, out)
	}
	return r, nil
}

// runRace runs a harness under the race detector: "race" if it reports one.
func (r *Replayer) runRace(h string, params map[string]int, in map[string]uint64, limit time.Duration) (string, replayOut) {
	if r.rb == "" && r.rbe == nil {
		bin := filepath.Join(r.dir, "replay-race")
		cmd := exec.Command("go", "build", "-race", "-tags=verif", "-o", bin, "./cmd/replay")
		cmd.Dir = r.src
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		if out, err := cmd.CombinedOutput(); err != nil {
			r.rbe = fmt.Errorf("build with the race detector: %v %s", err, clip1(string(out), 300))
		} else {
			r.rb = bin
		}
	}
	if r.rbe != nil {
		return "error", replayOut{Err: r.rbe.Error()}
	}
	old := r.bin
	r.bin = r.rb
	defer func() { r.bin = old }()
	return r.run(h, params, in, limit)
}

func (r *Replayer) Close() { os.RemoveAll(r.dir) }

// run returns "ok", "failed", "crash", "hang", "assume" or "error".
func (r *Replayer) run(h string, params map[string]int, in map[string]uint64, limit time.Duration) (string, replayOut) {
	f, err := os.CreateTemp(r.dir, "in-*.json")
	if err != nil {
		return "error", replayOut{Err: err.Error()}
	}
	json.NewEncoder(f).Encode(map[string]interface{}{"inputs": in, "params": params, "harness": h})
	f.Close()
	defer os.Remove(f.Name())
	return r.runFile(h, f.Name(), limit)
}

func (r *Replayer) runFile(h, file string, limit time.Duration) (string, replayOut) {
	wd, err := os.MkdirTemp(r.dir, "wd-")
	if err != nil {
		return "error", replayOut{Err: err.Error()}
	}
	defer os.RemoveAll(wd)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, h, file)
	cmd.Dir = wd
	cmd.Env = append(os.Environ(), "TZ=UTC", "GOMEMLIMIT=2GiB", "GORACE=halt_on_error=1")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	var res replayOut
	got := false
	for _, l := range strings.Split(so.String(), "\n") {
		if strings.HasPrefix(l, "RESULT ") {
			got = json.Unmarshal([]byte(l[7:]), &res) == nil
		} else if strings.HasPrefix(l, "ASSERT-FAILED ") && !got {
			res.Failed = append(res.Failed, l[14:])
		}
	}
	if ctx.Err() != nil {
		return "hang", res
	}
	if e := se.String(); strings.Contains(e, "WARNING: DATA RACE") {
		res.Err = clip1(strings.Join(strings.Fields(e[strings.Index(e, "WARNING: DATA RACE"):]), " "), 900)
		return "race", res
	}
	if err != nil && !got {
		e := se.String()
		if k := strings.Index(e, "panic:"); k >= 0 {
			e = e[k:]
			if len(e) > 1500 {
				e = e[:1500]
			}
			res.Err = e
			return "crash", res
		}
		if k := strings.Index(e, "fatal error:"); k >= 0 {
			e = e[k:]
			if len(e) > 1500 {
				e = e[:1500]
			}
			res.Err = e
			if strings.Contains(e, "all goroutines are asleep") {
				return "hang", res
			}
			return "crash", res
		}
		if len(e) > 600 {
			e = e[len(e)-600:]
		}
		res.Err = err.Error() + " " + e
		return "error", res
	}
	if res.Err == "assume" {
		return "assume", res
	}
	if len(res.Failed) > 0 {
		return "failed", res
	}
	return "ok", res
}
