package lib

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Component drivers run packages of om-core in a process of their own and report to the check that started them.

type childReport struct {
	Evals    int64
	Distinct []uint64
	Counters map[string]int64
	Maxes    map[string]int64
	Samples  []any
	Known    map[string]int
	Kind     string // of the violation, if any
	Detail   any
	Stack    string
	Incon    string
}

func (r *Run) childReport() *childReport {
	c := &childReport{Evals: r.evals, Counters: r.counters, Maxes: r.maxes, Samples: r.samples, Known: r.known}
	for h := range r.distinct {
		c.Distinct = append(c.Distinct, h)
	}
	return c
}

func (r *Run) childWrite(c *childReport) {
	b, err := json.Marshal(c)
	if err != nil {
		c.Detail = fmt.Sprintf("%+v", c.Detail)
		c.Samples = nil
		b, _ = json.Marshal(c)
	}
	os.WriteFile(r.childOut, b, 0o644)
}

// ChildMain is the main function of a component driver.
func ChildMain(parts map[string]func(r *Run)) {
	id := flag.String("id", "", "")
	part := flag.String("part", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Int64("seed", 1, "")
	dir := flag.String("dir", "", "")
	verif := flag.String("verif", "", "")
	out := flag.String("out", "", "")
	flag.Parse()
	r := NewRun(*id, *tier, *seed, *dir, *verif, nil)
	r.childOut = *out
	f := parts[*part]
	if f == nil {
		r.Inconclusive("no part %s", *part)
	}
	f(r)
	r.mu.Lock()
	r.done = true
	r.childWrite(r.childReport())
	r.exit(0)
}

var childN atomic.Int64

// Comp runs a part of a component driver. It returns false when the driver is not available for this tree (its
// interface to the component changed), in which case only the system-level parts of the check apply.
func (r *Run) Comp(bin, part string, env ...string) bool {
	path := r.Bins[bin]
	if path == "" {
		r.Count("component_driver_unavailable", 1)
		return false
	}
	n := childN.Add(1)
	out := filepath.Join(r.Dir, fmt.Sprintf("child-%d.json", n))
	cmd := exec.Command(path, "-id", r.ID, "-part", part, "-tier", r.Tier, "-seed", fmt.Sprint(r.Seed), "-dir", r.Dir, "-verif", r.Verif, "-out", out)
	cmd.Dir = r.Dir
	cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + r.Dir, "GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=66"}, env...)
	var buf bytes.Buffer
	logf, err := os.Create(filepath.Join(r.Dir, fmt.Sprintf("comp-%d.log", n)))
	if err != nil {
		r.Inconclusive("%v", err)
	}
	cmd.Stdout, cmd.Stderr = logf, logf
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := startLocked(cmd); err != nil {
		r.Inconclusive("%v", err)
	}
	r.OnExit(func() { cmd.Process.Kill() })
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	limit := 10 * time.Minute
	if r.Thorough() {
		limit = time.Hour
	}
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		r.Inconclusive("component driver %s/%s took longer than %v", bin, part, limit)
	}
	logf.Close()
	lb, _ := os.ReadFile(logf.Name())
	buf.Write(lb)
	log := buf.String()
	var c childReport
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if strings.Contains(log, "WARNING: DATA RACE") {
		r.Violate("data race in a component of om-core", map[string]any{"component": bin, "part": part, "report": crashPart(log)})
	}
	if err != nil {
		if strings.Contains(log, "panic:") || strings.Contains(log, "fatal error:") {
			r.Violate("a component of om-core crashes", map[string]any{"component": bin, "part": part, "log": crashPart(log)})
		}
		r.Inconclusive("component driver %s/%s: %v %v: %s", bin, part, werr, err, tail(log, 1500))
	}
	r.mu.Lock()
	r.evals += c.Evals
	for _, h := range c.Distinct {
		r.distinct[h] = struct{}{}
	}
	for k, v := range c.Counters {
		r.counters[k] += v
	}
	for k, v := range c.Maxes {
		if v > r.maxes[k] {
			r.maxes[k] = v
		}
	}
	for k, v := range c.Known {
		r.known[k] += v
	}
	for i, s := range c.Samples {
		if i < 3 && len(r.samples) < 6 {
			r.samples = append(r.samples, s)
		}
	}
	r.mu.Unlock()
	if c.Incon != "" {
		r.Inconclusive("%s", c.Incon)
	}
	if c.Kind != "" {
		r.Violate(c.Kind, map[string]any{"component": bin, "part": part, "detail": c.Detail, "stack": c.Stack})
	}
	return true
}

func (r *Run) childViolate(kind string, detail any) {
	c := r.childReport()
	c.Kind, c.Detail, c.Stack = kind, detail, string(debug.Stack())
	r.childWrite(c)
	r.exit(0)
}
